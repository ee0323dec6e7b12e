"""Differential monitoring of random programs: every program is run by the
real compiler and machine and by the reference interpreter."""
import re

from . import diff, lang, rename, shrink
from .gen import Gen


def feature_set(prog):
    s = set()
    for n in shrink.allnodes(prog, []):
        s.add(n.k)
    return s


def judge(c, out, run, mods_files, exp, src_files, only=None, stdin=b"", lines=True, shrinker=None, label=""):
    """Runs the files and reports a difference with the expectation"""
    r = run.run(src_files, stdin=stdin)
    d = diff.compare(exp, r, lines)
    out.n["runs"] += 1
    out.n["kind_" + r.kind] += 1
    if exp.err:
        out.n["error_" + exp.err.cat] += 1
    out.n["output_lines_checked"] += exp.out.count("\n")
    if d and (only is None or only(d, r)):
        files = dict(src_files)
        msg = d[1]
        brief = r.brief()
        if shrinker and not out.viol:
            try:
                s = shrinker(d, r)
                if s:
                    files, msg, brief = s
            except Exception:
                pass
        if stdin:
            files["stdin.txt"] = stdin
        if exp.out:
            files["expected_stdout.txt"] = exp.out
        sig = d[0] + ":" + re.sub(r"[0-9]+|'[^']*'|\"[^\"]*\"", "#", d[1])[:80]
        out.violation(sig, label + msg + "\n" + brief, files)
    return r, d


def single(c, i, out, run, prog, rng, wild=0.5, parens=0.1, only=None, lines=True, key="main.ama", limit=20000, stdin=b"", nontrivial=None):
    """One program in one file"""
    exp, it = diff.reference([prog], stdin.decode() if stdin else "", limit)
    out.n["evaluations"] += 1
    if exp is None:
        out.n["discarded_too_long_or_open"] += 1
        return None
    lseed, w = rng.random(), rng.random() < wild
    src = lang.render(prog, lseed, wild=w, parens=parens)
    if nontrivial is None or nontrivial(prog, it, exp):
        out.seen(src)
    out.n["statements_executed"] += it.steps
    out.n["calls_executed"] += it.calls
    out.sample(src)

    def shrinker(d, r0):
        def render():
            return {key: lang.render(prog, lseed, wild=False, parens=0)}

        def tail(r):
            return re.sub(rb"[0-9]+|'[^']*'", b"#", r.err[-60:])

        def fails():
            e2, _ = diff.reference([prog], stdin.decode() if stdin else "", limit)
            if e2 is None:
                return None
            r2 = run.run(render(), stdin=stdin)
            d2 = diff.compare(e2, r2, lines)
            if d2 and d2[0] == d[0] and (r2.kind not in ("diag", "crash") or tail(r2) == tail(r0)):
                return e2, r2, d2
            return None

        if not fails():
            return None
        shrink.shrink([prog], fails, budget=15)
        k = fails()
        return ({**render(), "original.ama": src}, k[2][1], k[1].brief()) if k else None

    return judge(c, out, run, None, exp, {key: src}, only, stdin, lines, shrinker)


def campaign(c, count, profiles, wild=0.5, only=None, lines=True, budget=None, nontrivial=None, label="w", limit=20000):
    """profiles: list of profile dicts, used in turn"""

    def job(i, out, run):
        rng = c.rng(label, i)
        prof = profiles[i % len(profiles)]
        prof = {k: (v(rng) if callable(v) else v) for k, v in prof.items()}
        ren = prof.pop("rename", 0.3)
        g = Gen(rng, **prof)
        prog = g.program()
        if rng.random() < ren:
            rename.apply(rng, prog, rng.choice([0.1, 0.3, 0.8]), g.features)
        for f in g.features:
            out.n["feature " + f] += 1
        single(c, i, out, run, prog, rng, wild, only=only, lines=lines, nontrivial=nontrivial, limit=limit)

    return c.pmap(job, count, budget, label)
