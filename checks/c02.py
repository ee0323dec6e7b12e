"""C02: the structure programs are read with. Each program is compiled from
several spellings that mean the same (explicit grouping, other layouts,
expanded compound assignments); the code the compiler hands to the machine
must not depend on the spelling, and what it does must be what the reference
interpreter says."""
import _boot
import os
from rt.check import Check
from rt import bdoc, diff, lang, lexref, progs
from rt.forms import COMBOS, combo, KINDS, big
from rt.gen import Gen
from rt.lang import Layout, Printer
from rt.mods import World
from rt.run import parse_rterr
import random
import re

c = Check("C02", "operator trees spelled with the fewest and with all parentheses; random programs, every expression form in every context, and modules, each in several layouts (spacing, blank lines, comments, ';', line breaks inside brackets, CR LF); compound assignments next to their expansions; instructions separated by line ends and by ';'; the recorded modules are compared with line tables left out, and programs are run against the reference interpreter; non-trivial: distinct pairs of different spellings whose modules were compared")
c.system()


def norm(b):
    """The module without what depends on lines"""
    def strip(m):
        m = dict(m)
        m.pop("src_map", None)
        m["imports"] = [strip(x) for x in m["imports"]]
        # reals that are not numbers are not equal to themselves
        return repr(sorted(m.items(), key=lambda x: x[0]))

    return strip(bdoc.loads(b))


def compiled(run, files):
    r = run.run(files, norun=True, cpu=40)
    if not r.module:
        return None, r
    try:
        return norm(r.module), r
    except bdoc.Bad:
        return "", r


def behaviour(r):
    e = parse_rterr(r.err) if r.kind == "rterr" else None
    return r.kind, r.rc, r.out, e[2] if e else None, [f for _, f in e[0]] if e else None


def same(out, run, a, b, what, strict=True):
    """Two spellings of the same program"""
    if a == b:
        return True
    out.n["evaluations"] += 1
    ma, ra = compiled(run, a)
    if ma is None:
        out.n["first spelling not compiled (not judged)"] += 1
        return None
    mb, rb = compiled(run, b)
    out.n["pairs: " + what] += 1
    out.seen("\0".join([*a.values(), *b.values()]))
    if mb is None:
        out.violation(what + " rejected", f"{what}: one spelling is compiled, the other is not\n" + rb.brief(), {**{"a_" + k: v for k, v in a.items()}, **{"b_" + k: v for k, v in b.items()}})
        return False
    if ma == mb:
        return True
    if not strict:
        ra, rb = run.run(a), run.run(b)
        if behaviour(ra) == behaviour(rb):
            out.n["different code with the same behaviour"] += 1
            return True
    out.violation(what, f"{what}: the spellings were not read as the same program\n" + (ra.brief() + rb.brief() if not strict else ""), {**{"a_" + k: v for k, v in a.items()}, **{"b_" + k: v for k, v in b.items()}})
    return False


# --------------------------------------------------------- operator trees
LEVEL = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}
DECL = """registo P
  x: int
  y: real
  b: bool
fim
met P::m(alvo, k: int): int
  retorna alvo.x + k
fim
met int::d(alvo): int
  retorna alvo * 2
fim
met bool::nega(alvo): bool
  retorna nao alvo
fim
func f(a: int): int
  retorna a - 1
fim
func h(a: bool): bool
  retorna a
fim
i: int = 7
j: int = 3
r: real = 2.5
s: real = 0.5
b: bool = verdadeiro
c: bool = falso
v: [int] = [int: 4, 9]
w: [real] = [real: 1.5, 8.0]
q: [bool] = [bool: verdadeiro, falso]
p: P = P(x: 5, y: 0.25, b: falso)
o: int? = 6
"""
LEAF = {
    "int": ["i", "j", "1", "2", "10", "v[0]", "v[1]", "f(3)", "f(i)", "p.x", "p.m(2)", "i.d()", "o.valor", "o.valor_ou(1)", "tam(v)", "j.d().d()"],
    "real": ["r", "s", "1.5", "0.25", "w[0]", "w[1]", "p.y", "3.0"],
    "bool": ["b", "c", "verdadeiro", "falso", "q[0]", "q[1]", "p.b", "h(b)", "c.nega()", "h(c).nega()"],
}


def tree(r, t, d):
    if d <= 0 or r.random() < 0.12:
        return r.choice(LEAF[t])
    if t == "int":
        k = r.randrange(8)
        if k < 6:
            return (r.choice(["+", "-", "*", "//", "%", "-", "*", "+"]), tree(r, t, d - 1), tree(r, t, d - 1))
        return (r.choice(["-", "-", "+"]), tree(r, t, d - 1))
    if t == "real":
        k = r.randrange(9)
        if k < 5:
            return (r.choice(["+", "-", "*", "/", "-"]), tree(r, "real", d - 1), tree(r, r.choice(["real", "int"]), d - 1))
        if k == 5:
            return ("/", tree(r, "int", d - 1), tree(r, "int", d - 1))
        if k == 6:
            return (r.choice(["+", "-", "*", "/", "%", "//"]), tree(r, "int", d - 1), tree(r, "real", d - 1))
        return ("-", tree(r, t, d - 1))
    k = r.randrange(9)
    if k < 3:
        return (r.choice(["e", "ou"]), tree(r, t, d - 1), tree(r, t, d - 1))
    if k == 3:
        return ("nao", tree(r, t, d - 1))
    if k < 6:
        return (r.choice(["<", ">", "<=", ">="]), tree(r, r.choice(["int", "real"]), d - 1), tree(r, r.choice(["int", "real"]), d - 1))
    if k == 6:
        return (r.choice(["==", "!="]), tree(r, "bool", d - 1), tree(r, "bool", d - 1))
    x = r.choice(["int", "real"])
    return (r.choice(["==", "!="]), tree(r, x, d - 1), tree(r, x, d - 1))


def fewest(t):
    """-> (text, level)"""
    if isinstance(t, str):
        return [t], 7
    if len(t) == 2:
        s, l = fewest(t[1])
        return [t[0], *(s if l >= 5 else ["(", *s, ")"])], 5
    n = LEVEL[t[0]]
    a, la = fewest(t[1])
    b, lb = fewest(t[2])
    return [*(a if la >= n else ["(", *a, ")"]), t[0], *(b if lb > n else ["(", *b, ")"])], n


def every(t):
    if isinstance(t, str):
        return ["(", t, ")"]
    if len(t) == 2:
        return ["(", t[0], *every(t[1]), ")"]
    return ["(", *every(t[1]), t[0], *every(t[2]), ")"]


def ops_of(t, n):
    if not isinstance(t, str):
        n["operator " + t[0] + (" (unary)" if len(t) == 2 else "")] += 1
        for x in t[1:]:
            ops_of(x, n)


def spaced(r, toks, tight):
    s = ""
    for k, x in enumerate(toks):
        if s:
            if s[-1].isalnum() and x[0].isalnum() or s[-1] in "<>=!/+-*:." and x[0] in "<>=!/+-*:.":
                s += " "
            elif tight == 0 or tight == 1 and r.random() < 0.5:
                s += " "
            elif tight == 2 and r.random() < 0.3:
                s += r.choice(["  ", "\t"])
        s += x
    return s


USE = ["mostra {E}", "escreva({E})", "x{n}: {T} = {E}", "x{n}: [{T}] = [{T}: {E}, {E}]", "x{n}: {T}? = {E}", "{G} = {E}"]


def trees(i, out, run):
    r = c.rng("t", i)
    a, b = [], []
    tight = r.choice([0, 1, 1, 2])
    for n in range(14):
        ty = r.choice(["int", "real", "bool", "bool"])
        t = tree(r, ty, r.choice([1, 2, 2, 3, 3, 4, 6]))
        ops_of(t, out.n)
        u = r.choice(USE)
        if ty == "bool" and r.random() < 0.3:
            u = "se {E} entao\n  mostra 1\nfim"
        if ty == "int" and r.random() < 0.2:
            u = r.choice(["mostra v[{E}]", "mostra f({E})", "mostra p.m({E})", "i = {E}", "v[{E}] = {E}"])
        few, full = spaced(r, fewest(t)[0], tight), spaced(r, every(t), 1)
        some = Printerish(r, t)
        g = {"int": "i", "real": "r", "bool": "b"}[ty]
        for l, e in ((a, full), (b, few if r.random() < 0.8 else some)):
            l.append(u.replace("{E}", e).replace("{T}", ty).replace("{n}", str(n)).replace("{G}", g))
    out.sample("\n".join(b))
    out.n["operator trees"] += 14
    same(out, run, {"main.ama": DECL + "\n".join(a) + "\n"}, {"main.ama": DECL + "\n".join(b) + "\n"}, "operator tree")


def Printerish(r, t):
    """Some redundant parentheses"""
    def go(t):
        if isinstance(t, str):
            s, l = [t], 7
        elif len(t) == 2:
            x, l = go(t[1])
            s, l = [t[0], *(x if l >= 5 else ["(", *x, ")"])], 5
        else:
            n = LEVEL[t[0]]
            (x, lx), (y, ly) = go(t[1]), go(t[2])
            s, l = [*(x if lx >= n else ["(", *x, ")"]), t[0], *(y if ly > n else ["(", *y, ")"])], n
        while r.random() < 0.25:
            s, l = ["(", *s, ")"], 7
        return s, l

    return spaced(r, go(t)[0], 1)


# ------------------------------------------------------------- layouts
BASE = dict(funcs=3, methods=2, depth=4, edepth=4, stmts=7, blk=4, trace=0.3, unsafe=0.05, free=1, shadow=0.5)
P = [BASE, {**BASE, "methods": 4, "regs": 2, "unis": 2}, {**BASE, "iguala": 3, "unis": 2, "seiguala": 3, "opts": 0}, {**BASE, "edepth": 6, "depth": 2, "stmts": 5}, {**BASE, "vecs": 3, "opts": 3, "regs": 2}]


def plain(stmts, parens=0.0):
    p = Printer(random.Random(1), parens)
    for s in stmts:
        p.s(s)
    return Layout(random.Random(1), False).render(p.o)


def programs(i, out, run):
    r = c.rng("p", i)
    prog = Gen(r, **P[i % len(P)]).program()
    base = plain(prog)
    out.sample(base)
    for k in range(3):
        src = lang.render(prog, r.random(), wild=True, parens=0)
        if r.random() < 0.4:
            src = relayout(r, src)
        if not same(out, run, {"main.ama": base}, {"main.ama": src}, "layout of a program"):
            return
    # every expression in parentheses, and some of them
    if not same(out, run, {"main.ama": base}, {"main.ama": plain(prog, 1.0 if i % 2 else 0.4)}, "parentheses in a program", strict=False):
        return
    exp, it = diff.reference([prog], "", 20000)
    if exp is None:
        out.n["too long or open to run"] += 1
        return
    src = lang.render(prog, r.random(), wild=True, parens=0.1)
    q = run.run({"main.ama": src})
    out.n["evaluations"] += 1
    out.n["programs run against the reference"] += 1
    d = diff.compare(exp, q, False)
    if d and q.kind != "crash":
        out.violation("meaning:" + d[0], "the program does not do what its structure says: " + d[1] + "\n" + q.brief(), {"main.ama": src, "plain.ama": base, "expected_stdout.txt": exp.out})


COMMENTS = ["#", "# fim", "# comentário", "#'", '# "', "# a ; b", "#)", "# senao", "#é😀", "##"]


def relayout(r, src, crlf=None):
    """Changes blanks, comments and blank lines between the tokens"""
    toks, err = lexref.scan(src)
    if err:
        return src
    pb, pc, pl = r.choice([0, 0.1, 0.5]), r.choice([0, 0.2, 0.7]), r.choice([0, 0.2, 0.6])
    s, prev, at = "", None, 0
    if r.random() < 0.4:
        s += "".join(r.choice(["\n", " \n", "\t\n", r.choice(COMMENTS) + "\n"]) for _ in range(r.choice([1, 3])))
    depth = 0
    for k, _, _, a, b in toks:
        t = src[a:b]
        gap = src[at:a]
        at = b
        if k == "nl":
            if r.random() < pc:
                s += r.choice(["", " ", "\t"]) + r.choice(COMMENTS)
            s += r.choice(["", "", " ", "\t"]) if s[-1:] != "#" and "#" not in s.rsplit("\n", 1)[-1] else ""
            s += "\n"
            while r.random() < pl:
                s += r.choice(["", " ", "\t", r.choice(COMMENTS), "  " + r.choice(COMMENTS)]) + "\n"
            prev = None
            continue
        gap = re.sub(r"#[^\n]*", "", gap)
        if prev is None:
            gap = r.choice(["", " ", "    ", "\t", gap])
        elif r.random() < pb:
            gap += r.choice([" ", "  ", "\t", "\x0c", "\u00a0"])
        elif gap and r.random() < 0.3 and not touching(prev, (k, t)):
            gap = ""
        s += gap + t
        prev = (k, t)
    end = r.randrange(4)
    s = s.rstrip("\n") + ["", "\n", "\n\n\n", "\n" + r.choice(COMMENTS)][end]
    if crlf if crlf is not None else r.random() < 0.1:
        # line ends inside of strings are line ends as well
        s = s.replace("\n", "\r\n") if r.random() < 0.7 else s.replace("\n", "\r")
    return s


def touching(a, b):
    (ka, a), (kb, b) = a, b
    w = ("kw", "id", "int", "real")
    if ka in w and (kb in w or kb in ("str", "fstr")):
        return True
    if ka in ("str", "fstr"):
        return False
    if ka in ("int", "real") and b[0] == ".":
        return True
    if a == "." and kb in ("int", "real"):
        return False
    return ka == "op" and kb == "op" and any(o != a and o.startswith(a) and (a + b).startswith(o) for o in lexref.OPS)


def forms(i, out, run):
    r = c.rng("x", i)
    a = COMBOS[(i * 7919) % len(COMBOS)]
    xs, program = combo(r, a[0], a[1], a[2])
    src = program(xs)
    if not run.run({"main.ama": src}, norun=True, cpu=40).module:
        # together they have too much: a part of them
        src = program(xs[:6])
    for _ in range(2):
        if same(out, run, {"main.ama": src}, {"main.ama": relayout(r, src)}, "layout of forms") is not True:
            return


def sizes(i, out, run):
    r = c.rng("z", i)
    k = KINDS[i % len(KINDS)]
    n = r.choice([5, 60, 257]) if k != "columns" else 6
    src = big(k, n, r)[k]() + "\n"
    same(out, run, {"main.ama": src}, {"main.ama": relayout(r, src)}, "layout of a big program")


def graphs(i, out, run):
    r = c.rng("g", i)
    w = World(r)
    files = w.files(r.random(), wild=0.0, parens=0.0)
    if "main.ama" not in files:
        return
    same(out, run, files, {k: relayout(r, v) for k, v in files.items()}, "layout of modules")
    same(out, run, files, w.files(r.random(), wild=1.0, parens=0.0), "layout of modules")


# ------------------------------------------------------ compound assignment
def compound(i, out, run):
    r = c.rng("c", i)
    pre = """registo Q
  a: int
  z: real
  q: Q?
  vs: [int]
fim
func conta(k: int): int
  mostra f"<{k}>"
  retorna k
fim
func alvo_q(x: Q): Q
  mostra "q"
  retorna x
fim
gi: int = 50
gr: real = 12.5
v: [int] = [int: 3, 5, 7]
u: [real] = [real: 1.5, 2.5]
vv: [[int]] = [[int]: v, [int: 11, 13]]
p: Q = Q(a: 17, z: 2.25, q: nulo, vs: [int: 19, 23])
"""
    T = {
        "int": ["gi", "li", "v[0]", "v[conta(1)]", "vv[1][0]", "vv[conta(0)][conta(1)]", "p.a", "p.vs[1]", "p.vs[conta(0)]", "lp.a", "p.q.valor.a", "m1", "alvo_q(p).a", "lp.vs[li - li]"],
        "real": ["gr", "lr", "u[0]", "u[conta(1)]", "p.z", "lp.z", "p.q.valor.z"],
    }
    E = {
        "int": ["1", "conta(2)", "2 + 3", "conta(4) - conta(1)", "2 * 3 - 1", "gi", "li % 5", "-2", "v[1] - 1", "(4 - 1)", "tam(v) + 1", "7 // 2", "conta(9) // conta(4) + 1", "1 - 5 * 2", "iguala li\n 1 => 2,\n k => k - 1\nfim", "p.a - v[1]", "+3"],
        "real": ["1.5", "0.5 + conta(1)", "2.0 - 0.5", "gr", "lr * 2 - 1", "3", "conta(3) / 2", "-1.5", "li", "1 + 2 * 0.25", "u[1] - p.z"],
    }
    a, b = [], []
    for _ in range(12):
        t = r.choice(["int", "int", "real"])
        l, e = r.choice(T[t]), r.choice(E[t])
        op = r.choice(["+", "-", "*"] + (["/"] if t == "real" else []))
        sp = r.choice(["", " "])
        a.append(f"{l}{sp}{op}={sp}{e}")
        b.append(f"{l} = {l} {op} ({e})")
        out.n[f"compound {op}="] += 1
        out.n["compound on " + ("element" if "[" in l.split(".")[-1] else "field" if "." in l else "variable")] += 1
        for x in (a, b):
            x.append(f"mostra f\"{{gi}} {{gr}} {{li}} {{lr}} {{p.a}} {{p.z}} {{lp.a}}\"\nmostra v\nmostra u\nmostra vv\nmostra p.vs")
    loc = "li: int = 4\nlr: real = 0.75\nm1: int = 9\nlp: Q = Q(a: 29, z: 0.5, q: p, vs: v)\np.q = Q(a: 31, z: 4.5, q: nulo, vs: v)\n"
    wrap = r.choice(["{}", "func prin()\n{}\nfim\nprin()", "se verdadeiro entao\n{}\nfim", "para k de 0..2 faca\n{}\nfim", "func prin(alvo_: int): int\n{}\nretorna li\nfim\nmostra prin(3)"])
    fa, fb = ({"main.ama": pre + wrap.replace("{}", loc + "\n".join(x)) + "\n"} for x in (a, b))
    same(out, run, fa, fb, "compound assignment", strict=False)
    qa, qb = run.run(fa), run.run(fb)
    out.n["evaluations"] += 1
    if qa.kind in ("ok", "rterr") and qb.kind in ("ok", "rterr") and behaviour(qa) != behaviour(qb):
        out.violation("compound behaviour", "compound assignments and their expansions differ\n" + qa.brief() + qb.brief(), {"a_main.ama": fa["main.ama"], "b_main.ama": fb["main.ama"]})


# ------------------------------------------------------------ instructions
INS = ["mostra 1", "x = 2", "-x", "+x", "(x)", "(x + 1)", "[int: 1, 2]", "[int: 1, 2][0]", "nao b", "f(1)", "p.m(1)", "v[0] = 3", "v[0]", "p.x = 1", "p.x", "1", "1.5", '"abc"', "f\"a{x}\"", "'a'[0]", "verdadeiro", "nulo == nulo", "x == 1", "x += 1", "y{n}: int = 1", "mostra x - 1", "mostra [int: 1]", "se b entao\n mostra 1\nfim", "enquanto c faca\n mostra 1\nfim", "para k de 0..2 faca\n mostra k\nfim", "iguala x\n _ => 1\nfim", "escolha x:\ncaso 1:\n mostra 1\nsenao:\n mostra 2\nfim", "func g{n}(): int\n retorna 1\nfim", "f(\n1\n)", "v[0] = [int:\n1,\n2\n][1]", "mostra -x", "mostra (x)"]
INS.remove("nulo == nulo")


def separated(i, out, run):
    r = c.rng("s", i)
    ins = [r.choice(INS).replace("{n}", str(n)) for n in range(14)]
    pre = "x: int = 5\nb: bool = verdadeiro\nc: bool = falso\nv: [int] = [int: 1, 2]\nregisto P\n  x: int\nfim\nmet P::m(alvo, k: int): int\n  retorna k\nfim\nfunc f(k: int): int\n  retorna k\nfim\np: P = P(x: 1)\n"
    wrap = "{}"
    if not any("func" in x for x in ins):
        wrap = r.choice(["{}", "func prin()\n{}\nfim", "se b entao\n{}\nfim", "para k2 de 0..2 faca\n{}\nfim"])
    # a 'fim' takes no end of its own; blank lines can follow it, a ';' cannot
    def block(x):
        return x.endswith("fim")

    lines, semis = ["\n", "\n\n", "  \n", " # a\n", "\n# c\n"], [";", "; ", ";\n", ";  # b\n"]
    sep = [r.choice(lines + ([" ", "  "] if block(x) else semis + semis)) for x in ins]
    a = "".join(x + ("\n" if block(x) else ";\n") for x in ins)
    b = "".join(x + s for x, s in zip(ins, sep)).rstrip(" ")
    if b.endswith("# c\n") or not b.endswith(("\n", ";")):
        b += "\n"
    same(out, run, {"main.ama": pre + wrap.replace("{}", a) + "\n"}, {"main.ama": pre + wrap.replace("{}", b) + "\n"}, "separators")
    a = "".join(x + "\n" for x in ins)
    same(out, run, {"main.ama": pre + wrap.replace("{}", a) + "\n"}, {"main.ama": pre + wrap.replace("{}", b) + "\n"}, "separators")


K = float(os.environ.get("AMV_SCALE", "1"))
c.pmap(trees, int((40000 if c.thorough else 1000) * K), label="t")
c.pmap(programs, int((12000 if c.thorough else 220) * K), label="p")
c.pmap(compound, int((10000 if c.thorough else 260) * K), label="c")
c.pmap(separated, int((10000 if c.thorough else 350) * K), label="s")
c.pmap(forms, int((len(COMBOS) * 3 if c.thorough else 120) * K), label="x")
c.pmap(sizes, int((10 * len(KINDS) if c.thorough else len(KINDS)) * K), label="z")
c.pmap(graphs, int((4000 if c.thorough else 100) * K), label="g")


def probe(e, run):
    r = run.run({"main.ama": e["program"]})
    return r.out.decode("utf-8", "replace") != e["expected"]


c.probe_known(probe)
c.assumptions = ["spellings that differ only in layout, or in the parentheses of an operator tree, have the same code; other spellings of the same program have at least the same behaviour"]
c.finish()
