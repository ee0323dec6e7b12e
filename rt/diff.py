"""Compares a run of the real system with the reference interpreter."""
from .lang import *
from .run import parse_rterr


class Expect:
    """What the reference says about a program"""

    def __init__(self, out, err):
        self.out, self.err = out, err  # str, RtErr|None


def reference(modules, stdin="", limit=20000):
    """-> Expect or None when the program can't be used (too long or left
    open by the language)"""
    it = Interp(stdin, limit)
    try:
        err = it.run_modules(modules)
    except (Limit, Unspecified, RecursionError):
        return None, it
    except OverflowError:
        return None, it
    return Expect(it.output(), err), it


def span_ok(node, line):
    return node.l0 <= line <= max(node.l1, node.l0)


def compare(exp, res, lines=True):
    """-> (signature, message) of the first difference or None"""
    k = res.kind
    if k == "crash":
        return "crash:" + res.crashed, f"the system crashed ({res.crashed})"
    if k == "diag":
        return "rejected", "a program that follows the rules was rejected:\n" + res.err.decode("utf-8", "replace")
    out = res.out.decode("utf-8", "replace")
    if exp.err is None:
        if k == "rterr":
            return "spurious-error", "unexpected runtime error:\n" + res.err.decode("utf-8", "replace") + diff_out(exp.out, out)
        if out != exp.out:
            return "output", "wrong output:\n" + diff_out(exp.out, out)
        if res.err:
            return "stderr", "unexpected text on the error stream: " + repr(res.err[:300])
        return None
    if out != exp.out:
        return "output", "wrong output (before a runtime error):\n" + diff_out(exp.out, out)
    if k == "ok":
        return "missing-error", f"expected a runtime error ({exp.err.cat}), the program completed"
    got = parse_rterr(res.err)
    if got is None:
        return "error-format", "the runtime error is not reported in the documented form:\n" + res.err.decode("utf-8", "replace")
    if CATS[exp.err.cat] not in got[2]:
        return "wrong-error", f"expected error '{CATS[exp.err.cat]}', got '{got[2]}'"
    if lines:
        d = compare_trace(exp.err, got)
        if d:
            return "error-location", d
    return None


def compare_trace(err, got):
    frames, line, msg = got
    tr = err.trace  # innermost first, the last is the module
    calls = [(f, n) for f, n in tr if f is not None]
    top = tr[-1]
    if len(frames) != len(calls):
        return f"the trace lists {len(frames)} calls, {len(calls)} were active"
    for (ln, name), (f, n) in zip(frames, calls):
        if name != f:
            return f"the trace names '{name}' where '{f}' was active"
        if not span_ok(n, ln):
            return f"function '{f}': line {ln} reported, the code in progress is on line(s) {n.l0}-{n.l1}"
    if not span_ok(top[1], line):
        return f"line {line} reported, the code in progress is on line(s) {top[1].l0}-{top[1].l1}"
    return None


def diff_out(e, g):
    el, gl = e.split("\n"), g.split("\n")
    for i in range(max(len(el), len(gl))):
        a = el[i] if i < len(el) else "<end>"
        b = gl[i] if i < len(gl) else "<end>"
        if a != b:
            return f"first difference at output line {i + 1}: expected {a!r}, got {b!r}\n"
    return "(same output)\n"
