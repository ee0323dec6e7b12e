"""C20: texts of known characters through literals, f-strings, indexing,
lengths, containment, comparison and printing; the output is checked byte by byte."""
import _boot
import math
import re
import struct
from rt.check import Check
from rt import clusters as cl
from rt.lang import is_tie, real_text
from rt.run import parse_rterr

c = Check("C20", "programs built from texts whose characters are known by construction (combining marks, Hangul, flags, emoji sequences, controls, numeric-looking and keyword-like texts, quotes, braces) and from values of every type; each output line is compared with what the text was built from; non-trivial: distinct programs whose whole output was compared")
c.system()

HOW = ["mostra {}", "escrevaln({})", "escreva({})\nescreva(\"\\n\")"]


class Prog:
    """Statements with the exact output each has to produce"""

    def __init__(self, r):
        self.r, self.src, self.want, self.n = r, [], [], 0

    def name(self, p="v"):
        self.n += 1
        return f"{p}{self.n}_"

    def add(self, s):
        self.src.append(s)

    def show(self, expr, want, how=None):
        k = len(self.want)
        self.add(f'escreva("@@{k}:")\n' + (how or self.r.choice(HOW)).format(expr))
        self.want.append((expr, want + "\n"))

    def text(self):
        return "\n".join(self.src) + "\n"

    def output(self):
        return "".join(f"@@{k}:{w}" for k, (_, w) in enumerate(self.want))


def same(out, run, p, label):
    src = p.text()
    r = run.run({"main.ama": src})
    out.n["evaluations"] += 1
    if r.kind == "crash" and not r.reached:
        out.n["compiler crashed (not judged here)"] += 1
        return
    want = p.output().encode("utf-8", "surrogatepass")
    # the number of a variant is the system's own
    r.out = re.sub(rb"<Variante\(\d+\)>", b"<Variante>", r.out)
    if r.out == want and r.rc == 0 and not r.crashed:
        out.seen(src)
        out.n["values compared"] += len(p.want)
        out.n["bytes compared"] += len(want)
        return
    if not r.reached:
        out.violation("rejected", f"{label}: a program that follows the rules was rejected\n" + r.brief(), {"main.ama": src})
        return
    # the first value that differs
    got = r.out
    pos = 0
    for k, (e, w) in enumerate(p.want):
        piece = f"@@{k}:{w}".encode("utf-8", "surrogatepass")
        if not got.startswith(piece, pos):
            end = got.find(b"@@%d:" % (k + 1), pos)
            g = got[pos : end if end >= 0 else pos + 300]
            out.violation(label, f"{label}: {e}\nexpected {piece.decode('utf-8', 'replace')!r}\ngot      {g.decode('utf-8', 'replace')!r}\n{r.err[-300:].decode('utf-8', 'replace')}", {"main.ama": src, "expected_stdout.txt": want})
            return
        pos += len(piece)
    out.violation(label, f"{label}: wrong end of the output\n" + r.brief(), {"main.ama": src, "expected_stdout.txt": want})


def some(r):
    while True:
        k = r.random()
        cs = cl.text(r) if k < 0.75 else list_of(r.choice(cl.WORDS))
        if cs is None:
            continue
        if k < 0.2 and r.random() < 0.5:
            w = list_of(r.choice(cl.WORDS))
            cs = cs + w if r.random() < 0.5 else w + cs
        s = "".join(cs)
        if cl.writable(s) and divides(cs):
            return cs


def list_of(w):
    if w == "e\u0301":
        return ["e\u0301"]
    return list(w)


def divides(cs):
    # a mark joins what comes before it: only the first character may be one
    return all(x[0] not in cl.COMB for x in cs[1:]) and not (len(cs) > 1 and cs[0] in cl.COMB and cs[1][0] in cl.COMB)


def make(p, cs, depth=0):
    """-> an expression whose value is the text, by one of many routes"""
    r = p.r
    s = "".join(cs)
    k = r.randrange(12 if depth < 3 else 2)
    if k <= 1:
        return cl.literal(s, r, raw_nl=True)
    if k == 2:
        return cl.literal(s, r, fstring=True)
    n = p.name()
    e = make(p, cs, depth + 1)
    if k == 3:
        p.add(f"{n}: texto = {e}")
        return n
    if k == 4:
        # parts of the text inside of an f-string
        q = r.choice("'\"")
        parts, i = [], 0
        while i < len(cs):
            j = i + r.choice([1, 1, 2, 5])
            t = "".join(cs[i:j])
            # the parts are put back together: the text stays whole
            if r.random() < 0.5:
                x = p.name()
                p.add(f"{x}: texto = {make(p, cs[i:j], 3) if cl.writable(t) else cl.literal('?', r)}")
                if not cl.writable(t):
                    return e
                parts.append("{" + r.choice(["", " "]) + x + "}")
            else:
                if not cl.writable(t):
                    return e
                parts.append(cl.literal(t, r, q, fstring=True)[2:-1])
            i = j
        src = "".join(parts)
        # pieces that meet could spell an escape
        return f"f{q}{src}{q}" if "\\" not in s else e
    if k == 5:
        p.add(f"func {n}(t: texto): texto\n  retorna t\nfim")
        return f"{n}({e})"
    if k == 6:
        return f"[texto: {e}, \"x\"][0]"
    if k == 7:
        p.add(f"registo R{n}\n  t: texto\n  u: int\nfim\n{n}: R{n} = R{n}(u: 1, t: {e})")
        return f"{n}.t"
    if k == 8:
        p.add(f"{n}: texto? = {e}")
        return r.choice([f"{n}.valor", f"{n}.valor_ou(\"?\")"])
    if k == 9:
        p.add(f"{n}: indef = {e}")
        return f"({n} :> texto)"
    if k == 10:
        p.add(f"{n}: [[texto]] = vec(texto, 2, 2)\n{n}[1][0] = {e}")
        return f"{n}[1][0]"
    return f"({e})"


def texts(i, out, run):
    r = c.rng("t", i)
    p = Prog(r)
    pool = []
    for _ in range(r.choice([3, 6])):
        cs = some(r)
        s = "".join(cs)
        e = make(p, cs)
        t = p.name("t")
        p.add(f"{t}: texto = {e}")
        pool.append((t, cs))
        p.show(r.choice([t, e]), s)
        p.show(f"tam({r.choice([t, e])})", str(len(cs)))
        for k in {0, len(cs) - 1, r.randrange(max(1, len(cs)))}:
            if 0 <= k < len(cs):
                p.show(f"{r.choice([t, e])}[{k}]", cs[k])
                p.show(f"tam({t}[{k}])", "1")
        if len(cs) > 2 and r.random() < 0.3:
            # character by character: together they are the whole text
            p.add(f'escreva("@@{len(p.want)}:")\npara k de 0..tam({t}) faca\n  escreva({t}[k])\n  escreva("\u00b7\")\nfim\nescreva("\\n")')
            p.want.append((f"characters of {t}", "".join(x + "\u00b7" for x in cs) + "\n"))
    for _ in range(12):
        (a, x), (b, y) = r.choice(pool), r.choice(pool)
        s, u = "".join(x), "".join(y)
        k = r.randrange(7)
        tf = lambda v: "verdadeiro" if v else "falso"
        if k == 0:
            p.show(f"{a} == {b}", tf(s == u))
        elif k == 1:
            p.show(f"{a} != {b}", tf(s != u))
        elif k == 2 and x:
            # a part, a part with something else, or an altered part
            i0 = r.randrange(len(x))
            part = "".join(x[i0 : i0 + r.choice([1, 2, 4])])
            m = r.randrange(3)
            part = part[: max(1, len(part) - 1)] if m == 1 else part + "z" if m == 2 else part
            if cl.writable(part):
                p.show(f"txt_contem({a}, {make(p, [part], 2)})", tf(part in s))
        elif k == 3:
            p.show(f"txt_contem({a}, {b})", tf(u in s))
        elif k == 4:
            same_ = make(p, x, 1)
            p.show(f"{a} == {same_}", "verdadeiro")
        elif k == 5:
            lit = cl.literal(s, r)
            p.add(f'escreva("@@{len(p.want)}:")\nescolha {b}:\ncaso {lit}:\n  mostra 1\nsenao:\n  mostra 2\nfim')
            p.want.append((f"escolha {b} caso {lit}", "1\n" if u == s else "2\n"))
        else:
            lit = cl.literal(s, r)
            p.show(f"(iguala {b}\n  {lit} => 1,\n  _ => 2\nfim)", "1" if u == s else "2", "mostra {}")
    src = p.text()
    out.sample(src)
    out.n["texts"] += len(pool)
    out.n["characters of more than one code point"] += sum(len(x) > 1 for _, cs in pool for x in cs)
    same(out, run, p, "text")


def bounds(i, out, run):
    """Positions out of range are reported, with the size of the text"""
    r = c.rng("b", i)
    p = Prog(r)
    cs = some(r)
    t = p.name("t")
    p.add(f"{t}: texto = {make(p, cs)}")
    n = len(cs)
    k = r.choice([n, n, n + 1, n + 7, -1, -2, -n - 1, 9223372036854775807, 4294967296, len("".join(cs)) if len("".join(cs)) > n else n, max(n, len("".join(cs).encode()) - 1)])
    p.show(t, "".join(cs))
    p.add(f"mostra {t}[{k}]")
    src = p.text()
    q = run.run({"main.ama": src})
    out.n["evaluations"] += 1
    if q.kind in ("diag", "crash") and not q.reached:
        out.n["not judged"] += 1
        return
    out.n["positions out of range"] += 1
    out.seen(src)
    e = parse_rterr(q.err) if q.kind == "rterr" else None
    if e is None or q.out != p.output().encode():
        out.violation("bounds", f"position {k} of a text of {n} characters: expected a reported runtime error\n" + q.brief(), {"main.ama": src})
        return
    if "Erro de índice inválido" not in e[2]:
        out.violation("bounds message", f"position {k} of a text of {n} characters: {e[2]}", {"main.ama": src})
        return
    nums = set(re.findall(r"-?\d+", e[2]))
    if k >= 0 and not {str(n), str(k)} <= nums:
        out.violation("bounds message", f"position {k} of a text of {n} characters: the report does not have both: {e[2]}", {"main.ama": src})


def real(r):
    k = r.randrange(8)
    if k == 0:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    elif k == 1:
        x = r.choice([0.0, -0.0, 1.0, 0.1, 1e15, 1e16, 1e17, 123456789012345680.0, 1e21, 1e22, 1e-5, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.30000000000000004, math.inf, -math.inf, math.nan])
    elif k == 2:
        x = float(r.randrange(-(10**6), 10**6))
    elif k == 3:
        x = r.randrange(-(10**9), 10**9) / 10 ** r.randrange(1, 12)
    elif k == 4:
        x = r.random() * 10 ** r.randrange(-20, 20)
    elif k == 5:
        x = float(r.getrandbits(r.randrange(1, 90)))
    else:
        x = r.randrange(1, 1000) * 2.0 ** r.randrange(-60, 60)
    return x if not (x - x == 0 and is_tie(x)) else 1.5


def value(p, depth=0):
    """-> (type, expression, printed form)"""
    r = p.r
    k = r.randrange(9 if depth < 2 else 5)
    if k == 0:
        v = r.choice([0, 1, -1, 7, 10, 100, -100, 2**31, 2**63 - 1, -(2**63) + 1, r.randrange(-(2**62), 2**62), r.randrange(-1000, 1000)])
        return "int", f"({v})" if v < 0 else str(v), str(v)
    if k == 1 or k == 2:
        x = real(r)
        if x - x == 0 and x == abs(x) and math.copysign(1, x) > 0 and "e" not in repr(x) and r.random() < 0.5:
            return "real", real_text(x), real_text(x)
        # spelled as a text and converted
        s = real_text(x) if r.random() < 0.5 else repr(x)
        return "real", f"('{s}' :> real)", real_text(x)
    if k == 3:
        b = r.random() < 0.5
        return "bool", "verdadeiro" if b else "falso", "verdadeiro" if b else "falso"
    if k == 4:
        cs = some(r)
        return "texto", make(p, cs, 2), "".join(cs)
    if k == 5:
        vs = [value(p, depth + 1) for _ in range(r.choice([1, 1, 2, 3]))]
        t = vs[0][0]
        vs = [v for v in vs if v[0] == t]
        if r.random() < 0.1:
            vs = []
        return f"[{t}]", f"[{t}: {', '.join(v[1] for v in vs)}]", "[" + ", ".join(v[2] for v in vs) + "]"
    if k == 6:
        n = p.name("P")
        t, e, _ = value(p, depth + 1)
        p.add(f"registo {n}\n  a: {t}\nfim")
        return n, f"{n}(a: {e})", f"<Instância do tipo {n}>"
    if k == 7:
        n = p.name("U")
        t, e, _ = value(p, depth + 1)
        p.add(f"uniao {n}\n  A, B({t}), C\nfim")
        j = r.randrange(3)
        return n, [f"{n}::A", f"{n}::B({e})", f"{n}::C"][j], "<Variante>"
    t, e, s = value(p, depth + 1)
    n = p.name()
    if t.endswith("?"):
        return t, e, s
    if r.random() < 0.3:
        e, s = "nulo", "nulo"
    p.add(f"{n}: {t}? = {e}")
    return t + "?", n, s


def values(i, out, run):
    r = c.rng("v", i)
    p = Prog(r)
    for _ in range(10):
        t, e, s = value(p)
        out.n["printed " + re.sub(r"[PU]\d+_", "object", t)] += 1
        n = p.name()
        p.add(f"{n}: {t} = {e}")
        for how in HOW:
            p.show(r.choice([n, e]) if "fim" not in e else n, s, how)
        if t in ("int", "real", "bool", "texto"):
            x = r.choice([n, e])
            p.show(f"({x} :> texto)", s)
            p.show(f"tam({n} :> texto) == tam(f\"{{{n}}}\")", "verdadeiro")
            q = r.choice("'\"")
            a, b = "".join(some(r)), "".join(some(r))
            if "\\" not in a + b:
                p.show(f"f{q}{cl.literal(a, r, q, fstring=True)[2:-1]}{{{n}}}{cl.literal(b, r, q, fstring=True)[2:-1]}{{{n} }}{q}", a + s + b + s)
        # the same value by way of an undefined one and of a vector
        m = p.name()
        if not t.endswith("?"):
            p.add(f"{m}: indef = {n}")
            p.show(m, s)
        p.show(f"[{t}: {n}, {n}]", f"[{s}, {s}]")
        p.add(f"func f{m}(x: {t}): {t}\n  retorna x\nfim")
        p.show(f"f{m}({n})", s)
    same(out, run, p, "value")


def fstrings(i, out, run):
    """f-strings with every kind of expression between texts"""
    r = c.rng("f", i)
    p = Prog(r)
    p.add('registo P\n  x: int\n  t: texto\nfim\nuniao U\n  A(int), B\nfim\nmet P::dobro(alvo, n: int): int\n  retorna alvo.x * n\nfim\nmet int::mais(alvo): int\n  retorna alvo + 1\nfim\nfunc f(a: int, b: texto): texto\n  retorna f"<{a}{b}>"\nfim\na: int = 7\nb: real = 2.5\nc: bool = verdadeiro\nd: texto = "ol\u00e1"\nv: [int] = [int: 4, 5]\nvt: [texto] = [texto: "p", "q"]\np: P = P(x: 3, t: "tt")\no: int? = 9\nn: int? = nulo')
    E = [("a", "7"), ("b", "2.5"), ("c", "verdadeiro"), ("d", "olá"), ("a + 1", "8"), ("a*2-1", "13"), ("(a + 1) * 2", "16"), ("-a", "-7"), ("a / 2", "3.5"), ("a // 2", "3"), ("a % 4", "3"), ("nao c", "falso"), ("a < 3", "falso"), ("a >= 7 == c", "verdadeiro"), ("v[0]", "4"), ("v[tam(v) - 1] + v[0]", "9"), ("vt[1]", "q"), ("p.x", "3"), ("p.t", "tt"), ("p.dobro(a)", "21"), ("a.mais()", "8"), ("a.mais().mais()", "9"), ("o.valor", "9"), ("n.valor_ou(1)", "1"), ("tam(d)", "3"), ("d[2]", "á"), ("f(a, d)", "<7olá>"), ("f(1, 'x')", "<1x>"), ('f(1, "x")', "<1x>"), ("5 :> texto", "5"), ("2.9 :> int", "2"), ("'12' :> int", "12"), ("5", "5"), ("1.0", "1.0"), ("verdadeiro", "verdadeiro"), ("d == 'olá'", "verdadeiro"), ("txt_contem(d, 'l')", "verdadeiro"), ("a ", "7"), (" a", "7"), ("\ta\t", "7"), ("o == nulo", "falso"), ("P(x: 4, t: d).x", "4"), ("[int: a, 1][0]", "7"), ("c e nao c ou c", "verdadeiro")]
    for _ in range(25):
        q = r.choice("'\"")
        src, want = "", ""
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            if r.random() < 0.6:
                s = "".join(some(r))
                if "\\" not in s:
                    src += cl.literal(s, r, q, fstring=True)[2:-1]
                    want += s
            e, w = r.choice(E)
            if q in e:
                e = e.replace(q, "'" if q == '"' else '"')
            src += "{" + e + "}"
            want += w
            out.n["expressions in f-strings"] += 1
        if r.random() < 0.4:
            s = "".join(some(r))
            if "\\" not in s:
                src += cl.literal(s, r, q, fstring=True)[2:-1]
                want += s
        expr = f"f{q}{src}{q}"
        k = r.randrange(3)
        if k == 0:
            p.show(expr, want)
        elif k == 1:
            n = p.name()
            p.add(f"{n}: texto = {expr}")
            p.show(n, want)
        else:
            p.show(f"f(0, {expr})", f"<0{want}>")
    same(out, run, p, "f-string")


def anytext(i, out, run):
    """Any characters at all: printed and compared exactly"""
    r = c.rng("a", i)
    p = Prog(r)
    for _ in range(20):
        s = ""
        for _ in range(r.choice([1, 3, 10, 60])):
            k = r.random()
            x = r.choice([r.randrange(1, 0x80), r.randrange(0x80, 0x800), r.randrange(0x800, 0x10000), r.randrange(0x10000, 0x110000), r.choice([0x2028, 0x85, 0xC, 0xB, 0x1C, 0x1D, 0x1E, 0xFEFF, 0x200D, 0xFFFE, 0xFFFF, 0x10FFFF, 0xAD])])
            if not 0xD800 <= x < 0xE000 and x != 13:
                s += chr(x)
        if not cl.writable(s):
            continue
        n = p.name()
        p.add(f"{n}: texto = {cl.literal(s, r)}")
        p.show(n, s)
        p.show(cl.literal(s, r, fstring=r.random() < 0.5), s)
        p.show(f"{n} == {cl.literal(s, r, fstring=True)}", "verdadeiro")
        p.show(f"{n} == {cl.literal(s + 'x', r)}", "falso")
        p.show(f"txt_contem({cl.literal('a' + s + 'b', r, quote=None)}, {n})", "verdadeiro")
    same(out, run, p, "any text")


if c.thorough:
    N = dict(t=40000, b=12000, v=30000, f=15000, a=15000)
else:
    N = dict(t=1100, b=500, v=700, f=350, a=350)
import os
K = float(os.environ.get("AMV_SCALE", "1"))
for k, job in (("t", texts), ("b", bounds), ("v", values), ("f", fstrings), ("a", anytext)):
    c.pmap(job, int(N[k] * K), label=k)
c.assumptions = ["the division into characters is known by construction for the clusters of rt/clusters.py; other sequences are only printed, compared and searched"]


def probe(e, run):
    r = run.run({"main.ama": e["program"]})
    return r.out.decode("utf-8", "replace") != e["expected"]


c.probe_known(probe)
c.finish()
