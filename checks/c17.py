"""C17: documents written by the serialiser are read by an independent decoder;
what the machine loads from recorded modules is watched through the programs
that use it."""
import _boot
import math
import os
import shutil
import struct
from rt.check import Check
from rt import bdoc, bcode, lang
from rt.forms import KINDS, big
from rt.gen import Gen
from rt.mods import World
from rt.run import parse_rterr

c = Check("C17", "random nestings of documents, arrays, texts, integers, reals and binaries written by the serialiser and read back by an independent strict decoder; modules of random programs decoded and written again; programs that print back their constants, use every function, field and line entry of large tables; non-trivial: distinct document or module")
c.system()
bcode.renumber()

CHARS = "abc xyz012\"'\\\n\t{}é\u0301ç€日😀\u200d\u0000\u007f\ufeff\u2028ñ"


def text(r, n=12):
    k = r.choice([0, 1, 1, 2, 5, n])
    if r.random() < 0.0008:
        k = r.choice([255, 256, 65535, 65536, 100000])
    return "".join(r.choice(CHARS) if r.random() < 0.9 else chr(r.choice([r.randrange(1, 0xD800), r.randrange(0xE000, 0x110000)])) for _ in range(k))


def integer(r):
    return r.choice([0, 1, -1, 2**31, -(2**31), 2**31 - 1, 2**63 - 1, -(2**63), 255, 256, r.randint(-(2**63), 2**63 - 1), r.randint(-300, 300)])


def real(r):
    return r.choice([0.0, -0.0, 1.5, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, r.random(), struct.unpack("<d", r.randbytes(8))[0]])


def value(r, d):
    k = r.randrange(7 if d > 0 else 4)
    if k == 0:
        return text(r)
    if k == 1:
        return integer(r)
    if k == 2:
        return real(r)
    if k == 3:
        return r.randbytes(r.choice([0, 1, 2, 17, 255, 256, 5000]))
    if k == 4:
        return document(r, d - 1)
    return [value(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 9, 11, 12, 130 if d < 2 else 4]))]


def document(r, d):
    out = {}
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        k = text(r, 5).replace("\0", "")
        if r.random() < 0.3:
            k = str(r.randrange(20))
        out[k] = value(r, d)
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) is float:
        return struct.pack("<d", a) == struct.pack("<d", b)
    if type(a) is dict:
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a) is list:
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def size(v):
    if type(v) is dict:
        return 1 + sum(map(size, v.values()))
    if type(v) is list:
        return 1 + sum(map(size, v))
    return 1


def docs(i, out, run):
    from amanda.compiler.bindump import dumps

    r = c.rng("d", i)
    for _ in range(40):
        d = document(r, r.choice([0, 1, 2, 3, 5]))
        before = repr(d)
        out.n["evaluations"] += 1
        try:
            b = dumps(d)
        except Exception as e:
            out.violation("raised", f"a document could not be written: {type(e).__name__}: {e}", {"value.txt": before})
            continue
        out.seen(b)
        out.n["document bytes"] += len(b)
        out.n["values in documents"] += size(d)
        try:
            g = bdoc.loads(b)
        except bdoc.Bad as e:
            out.violation("document", f"not a valid document: {e}", {"value.txt": before, "document.bin": b})
            continue
        if not same(d, g):
            out.violation("differs", "the document decodes to another value", {"value.txt": before, "decoded.txt": repr(g), "document.bin": b})
        if b != bdoc.dumps(d):
            out.violation("bytes", "the document is not written in the one canonical form", {"value.txt": before, "document.bin": b, "expected.bin": bdoc.dumps(d)})
        if repr(d) != before:
            out.violation("changed", "writing a value changed it", {"value.txt": before, "after.txt": repr(d)})


def module(r, out, files):
    try:
        m = bdoc.module(r.module)
    except bdoc.Bad as e:
        out.violation("module", f"the module is not a valid document: {e}", {**files, "module.bin": r.module})
        return None
    if bdoc.dumps(m) != r.module:
        out.violation("module-bytes", "the module is not written in the one canonical form", {**files, "module.bin": r.module})
    out.n["modules decoded"] += 1 + len(m["imports"])
    out.n["module bytes"] += len(r.module)
    out.seen(r.module)
    return m


def mods(i, out, run):
    r = c.rng("m", i)
    out.n["evaluations"] += 1
    if i % 3 == 0:
        w = World(r, profile=dict(free=1, shadow=0.5))
        for n in os.listdir(run.dir):
            p = os.path.join(run.dir, n)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        os.makedirs(os.path.join(run.dir, "sub"))
        files = w.files(r.random())
    elif i % 3 == 1:
        k = KINDS[(i // 3) % len(KINDS)]
        files = {"main.ama": big(k, 10 if k == "columns" else r.choice([130, 300, 1500]), r)[k]() + "\n"}
    else:
        files = {"main.ama": lang.render(Gen(r, funcs=5, methods=4, regs=3, unis=2, free=1, shadow=0.5, edepth=4).program(), r.random())}
    q = run.run(files, norun=True, cpu=60)
    if q.module:
        module(q, out, files)
    else:
        out.n["not compiled"] += 1


# ------------------------------------------------------------ constants
SPECIAL = ["verdadeiro", "falso", "nulo", "1", "-1", "1.5", "inf", "NaN", "infinity", "1e5", "+1", ".5", "5.", " 1", "", " ", "0", "a", "'", "\"", "\\", "\\n", "{", "}", "#", "%", "e\u0301", "\u0301", "😀", "\ufeff", "\t", "\r", "9223372036854775808", "18446744073709551616", "0x10", "1_000", "é", "ñ'x", "fim", "\u2028", "\x7f", "\x01", "a b  c ", "//", ";"]


def literal(r):
    """source text of a literal"""
    k = r.randrange(6)
    if k == 0:
        return r.choice(["0", "7", "255", "256", "65536", "2147483648", "9223372036854775807", "007", str(r.randrange(2**63))])
    if k == 1:
        return r.choice(["0.0", "1.0", "0.1", "123456.789", "0.30000000000000004", "1" * 25 + ".5", "0." + "0" * 20 + "1", "9007199254740993.0", "1.7976931348623157", "00.50", str(r.randrange(10**6)) + "." + str(r.randrange(10**9)), str(r.randrange(10**17)) + "." + "%03d" % r.randrange(1000), "0." + "%020d" % r.randrange(10**15)])
    if k == 2:
        return r.choice(["verdadeiro", "falso"])
    s = r.choice(SPECIAL) if r.random() < 0.7 else text(r).replace("\0", "")
    s = s.replace("\r", "")
    q = r.choice("\"'")
    s = s.replace("\\", "|").replace(q, "\\" + q)
    if k == 5:
        return "f" + q + s.replace("{", "{{").replace(q, "") .replace("\\", "")+ q
    return q + s + q


def shown(text):
    """how the machine has to print the constant a module holds"""
    if type(text) is not str:
        return str(text) if type(text) is int else lang.real_text(text)
    if text in ("verdadeiro", "falso", "nulo"):
        return text
    if text[:1] in "\"'" and text[:1]:
        return text[1:-1]
    if "." in text or "e" in text:
        return lang.show_real(float(text))
    return str(int(text))


def consts(i, out, run):
    r = c.rng("c", i)
    out.n["evaluations"] += 1
    n = r.choice([5, 40, 200, 700])
    if i % 40 == 0:
        # enough for the second byte of an index to matter
        lits = [str(k) for k in range(r.choice([300, 5000, 66000 // 2]))]
        r.shuffle(lits)
    else:
        lits = [literal(r) for _ in range(n)]
    files = {"main.ama": "".join(f"mostra {l}\n" for l in lits)}
    q = run.run(files, cpu=60)
    if not q.module:
        out.n["not compiled"] += 1
        return
    m = module(q, out, files)
    if m is None:
        return
    # what the code says has to be printed
    exp, st = [], []
    try:
        for n_, a, _ in bcode.decode(m["ops"]).values():
            if n_ == "LOAD_CONST":
                st.append(shown(m["constants"][a[0]]))
            elif n_ == "BUILD_STR":
                st[len(st) - a[0] :] = ["".join(st[len(st) - a[0] :])]
            elif n_ == "MOSTRA":
                exp.append(st.pop())
            elif n_ != "HALT":
                out.n["other instructions"] += 1
                return
    except lang.Unspecified:
        out.n["discarded_shortest_text_tie"] += 1
        return
    out.n["constants printed back"] += len(exp)
    want = ("\n".join(exp) + "\n").encode()
    if q.kind != "ok" or q.out != want:
        files["expected_stdout.txt"] = want
        for k, (e, g) in enumerate(zip(exp, q.out.decode("utf-8", "replace").split("\n"))):
            if e != g:
                break
        out.violation("constant", f"a constant is not loaded as the module has it: {lits[k] if k < len(lits) else '?'}\n" + q.brief()[:1500], {**files, "module.bin": q.module})


# ------------------------------------------------------------ tables
def names(r, n):
    out = []
    while len(out) < n:
        x = r.choice(["f", "_", "é", "class", "número", "x1", "名", "ação_", "len", "Ω"]) + (str(len(out)) if r.random() < 0.9 else "n" * (len(out) + 1))
        if x not in out:
            out.append(x)
    return out


def tables(i, out, run):
    r = c.rng("t", i)
    out.n["evaluations"] += 1
    n = r.choice([3, 30, 260, 300, 700])
    kind = i % 3
    lines, exp = [], []
    err = None
    ns = names(r, n)
    if kind == 0:
        # functions: entry, slots, arguments, name and line of an error
        vals = [r.randrange(10**6) for _ in ns]
        for k, (f, v) in enumerate(zip(ns, vals)):
            nl = r.choice([0, 1, 3])
            lines += [f"func {f}(a: int, b: int): int"] + [f"  l{j}: int = a + {j}" for j in range(nl)]
            lines += [f"  retorna {v} + (a // b){''.join(f' + l{j} - {j} - a' for j in range(nl))}", "fim"]
        where = {f: next(k + 1 for k, l in enumerate(lines) if l.startswith(f"func {f}(")) for f in ns}
        ret = {}
        for f in ns:
            k = where[f]
            while not lines[k - 1].startswith("  retorna"):
                k += 1
            ret[f] = k
        for k in r.sample(range(n), min(n, 60)):
            a, b = r.randint(0, 50), r.randint(1, 9)
            lines.append(f"mostra {ns[k]}({a}, {b})")
            exp.append(str(vals[k] + a // b))
        bad = r.choice(ns)
        lines.append(f"mostra {bad}(1, 0)")
        err = ([(ret[bad], bad)], len(lines))
        out.n["functions used"] += min(n, 60)
    elif kind == 1:
        # records and fields
        lines += ["registo R"] + [f"  {x}: {'int' if k % 2 else 'texto'}" for k, x in enumerate(ns)] + ["fim"]
        order = list(range(n))
        r.shuffle(order)
        vals = {k: (r.randrange(10**9) if k % 2 else f"t{k}é") for k in order}
        lines.append("r: R = R(" + ", ".join(f"{ns[k]}: " + (str(vals[k]) if k % 2 else f'"{vals[k]}"') for k in order) + ")")
        for k in r.sample(order, min(n, 100)):
            if r.random() < 0.4:
                vals[k] = r.randrange(10**9) if k % 2 else f"u{k}"
                lines.append(f"r.{ns[k]} = " + (str(vals[k]) if k % 2 else f'"{vals[k]}"'))
            j = r.choice(order)
            lines.append(f"mostra r.{ns[j]}")
            exp.append(str(vals[j]))
        out.n["fields used"] += min(n, 100)
    else:
        # globals and the line table
        vals = {}
        for x in ns:
            lines += [""] * r.choice([0, 0, 0, 1, 5, 40])
            vals[x] = r.randrange(10**6)
            lines.append(f"{x}: int = {vals[x]}")
        for x in r.sample(ns, min(n, 80)):
            lines.append(f"mostra {x}")
            exp.append(str(vals[x]))
            if r.random() < 0.2:
                lines += [""] * r.choice([1, 255, 300])
        x = r.choice(ns)
        lines.append(f"mostra {x} // ({x} - {x})")
        err = ([], len(lines))
        out.n["globals used"] += min(n, 80)
    files = {"main.ama": "\n".join(lines) + "\n"}
    q = run.run(files, cpu=60)
    if not q.module:
        out.n["not compiled"] += 1
        return
    if module(q, out, files) is None:
        return
    want = "".join(e + "\n" for e in exp).encode()
    bad = None
    if q.crashed:
        bad = f"the machine crashed on the module: {q.crashed}"
    elif q.out != want:
        bad = "the program does not use the entries its module has"
    elif err:
        g = parse_rterr(q.err)
        if g is None or g[0] != err[0] or g[1] != err[1]:
            bad = f"expected an error in {err}, got {g}"
        else:
            out.n["errors located through the tables"] += 1
    elif q.kind != "ok":
        bad = "unexpected error"
    if bad:
        out.violation(f"table{kind}", bad + "\n" + q.brief()[:1500], {**files, "expected_stdout.txt": want, "module.bin": q.module})


c.pmap(docs, c.scale(600, 20000), label="d")
c.pmap(mods, c.scale(240, 8000), label="m")
c.pmap(consts, c.scale(200, 4000), label="c")
c.pmap(tables, c.scale(150, 4000), label="t")
c.assumptions = ["the layout is the one the machine reads: the length of a document counts its elements only"]
c.finish()
