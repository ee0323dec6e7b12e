"""C19: accepted programs run under crash, memory-error, undefined-behaviour and
memory-growth monitors."""
import _boot
import os
import re
import shutil
import subprocess
from rt.check import Check
from rt import diff, hist, lang, pats, shrink
from rt.forms import COMBOS, combo
from rt.gen import Gen
from rt.mods import World

c = Check("C19", "accepted programs run by the real machine: random programs with many operations that can fail, every operation over every combination of types and extreme values, deep structures, long loops; monitors: signals, panics and internal errors (native process), AddressSanitizer, Miri, and a counting allocator; non-trivial: distinct modules the machine ran")
system = c.system()
asan = system.build_asan()
miri = system.build_miri()

ASAN = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=66:abort_on_error=0:detect_stack_use_after_return=1", RUST_BACKTRACE="0")
BAD = re.compile(rb"AddressSanitizer|panicked at|Undefined Behavior|unsafe precondition|stack overflow|memory allocation of \d+ bytes failed")


def crash(r):
    """What the monitors saw in a run, or None. A diagnostic is not a run."""
    if not r.reached:
        return None
    k = r.crashed
    if k:
        m = re.search(rb"panicked at ([^\n]*)\n([^\n]*)", r.err)
        return k + (": " + re.sub(r":\d+:\d+", "", m.group(1).decode()) + " " + m.group(2).decode("utf-8", "replace")[:80] if m else "")
    if r.rc not in (0, 1):
        return f"exit status {r.rc}"
    return None


def judge(out, run, files, label="", bounded=True, stdin=b"", shrinker=None):
    r = run.run(files, stdin=stdin)
    out.n["evaluations"] += 1
    out.n["kind_" + r.kind] += 1
    if not r.reached:
        return r
    out.seen(r.module)
    k = crash(r)
    if k == "hang" and not bounded:
        out.n["not judged: may run for long"] += 1
        return r
    if k:
        msg = f"{label}{k}"
        if shrinker and not out.viol:
            f2 = shrinker(k)
            if f2:
                msg += "\nreduced:\n" + "\n".join(f2.values())
                files = {**{"reduced_" + n: v for n, v in f2.items()}, **files}
        out.violation(re.sub(r"\d+", "#", k), msg + "\n" + r.brief(), {**files, "stdin.txt": stdin})
    return r


# ------------------------------------------------------------ random programs
P = [
    dict(unsafe=0.3, depth=4, edepth=4, stmts=10, casts=3, methods=2),
    dict(unsafe=0.1, vecs=3, opts=3, regs=2, unis=2, calls=2, rec=0.6),
    dict(unsafe=0.5, reals=2, texts=2, casts=4, edepth=6),
    dict(unsafe=0.2, funcs=6, methods=4, rec=0.9, calls=3, trace=0.02),
    dict(unsafe=0.05, iguala=3, unis=3, seiguala=2, depth=5),
]


def rand(i, out, run):
    r = c.rng("p", i)
    prog = Gen(r, **P[i % len(P)]).program()
    exp, it = diff.reference([prog], "", 20000)
    seed = r.random()
    out.n["statements in the reference"] += it.steps

    def shrinker(k0):
        def bad():
            if diff.reference([prog], "", 20000)[0] is None:
                return False
            k = crash(run.run({"main.ama": lang.render(prog, seed, parens=0)}))
            return k and k[:30] == k0[:30]

        if not bad():
            return None
        shrink.shrink([prog], bad, budget=15)
        return {"main.ama": lang.render(prog, seed, parens=0)}

    src = lang.render(prog, seed, wild=r.random() < 0.3, parens=0.08)
    out.sample(src)
    judge(out, run, {"main.ama": src}, bounded=exp is not None, shrinker=shrinker)


def graph(i, out, run):
    r = c.rng("g", i)
    w = World(r, profile=dict(unsafe=0.2, methods=2, calls=2))
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.join(run.dir, "sub"))
    judge(out, run, w.files(r.random()), bounded=False, label="modules: ")


def combos(i, out, run):
    r = c.rng("x", i)
    t, f, pl = COMBOS[(i + c.seed * 7919) % len(COMBOS)] if c.thorough else r.choice(COMBOS)
    xs, program = combo(r, t, f, pl)
    # every context alone: what follows a runtime error is not run
    for x in xs if c.thorough else r.sample(xs, 6):
        judge(out, run, {"main.ama": program([x])}, label=f"form {f!r} type {t} context {x!r}: ", bounded=False, stdin=b"1\n2\n")


# ------------------------------------------------------------ every operation
MATRIX_PRE = """registo P
  x: int
  o: P?
fim
uniao U
  A, B(int), C(U)
fim
func fid(x: int): int
  retorna x
fim
met int::dobro(alvo): int
  retorna alvo
fim
met texto::dobro(alvo): int
  retorna 1
fim
met P::dobro(alvo): int
  retorna alvo.x
fim
met U::dobro(alvo): int
  retorna 1
fim
p: P = P(x: 1, o: nulo)
q: P = P(x: -9223372036854775807, o: p)
ciclo: [indef] = [indef: 1]
anexa(ciclo, ciclo)
vi: [int] = [int: 3, -1, 9223372036854775807]
vv: [[int]] = [[int]: vi, [int: ], vi]
"""
VALUES = {
    "int": ["0", "1", "-1", "9223372036854775807", "(-9223372036854775807 - 1)", "vi[2]", "tam(vi)", "4611686018427387904"],
    "real": ["0.0", "1.5", "-0.5", "179769313486231570000000000000000000000000000.0 * 1.5", "(0.1 - 0.1) * (-1)", "9.3 * 1000000000000000000", "('NaN' :> real)", "('inf' :> real)", "('-inf' :> real)", "('1e-320' :> real)"],
    "bool": ["verdadeiro", "falso"],
    "texto": ["\"\"", "\"ação\"", "\"12\"", "f\"{vi}\"", "\"\\n\\\"\"", "(5 :> texto)", "\"nulo\"", "\"1e999\""],
    "indef": ["5", "1.5", "\"a\"", "verdadeiro", "p", "U::B(1)", "vi", "ciclo", "ciclo[1]", "U::A"],
    "int?": ["nulo", "5", "q.o.valor.x"],
    "real?": ["nulo", "5", "1.5"],
    "texto?": ["nulo", "\"x\""],
    "P": ["p", "q", "q.o.valor", "P(o: q, x: 0)"],
    "P?": ["nulo", "p", "q.o"],
    "U": ["U::A", "U::B(3)", "U::C(U::C(U::A))"],
    "U?": ["nulo", "U::B(2)"],
    "[int]": ["vi", "[int: ]", "vec(int, 0)", "vec(int, 3)", "vv[1]"],
    "[real]": ["[real: 1, 2.5]", "vec(real, 2)"],
    "[texto]": ["[texto: \"a\"]", "vec(texto, 2)"],
    "[[int]]": ["vv", "vec(int, 2, 3)", "vec(int, 0, 9223372036854775807)"],
    "[indef]": ["ciclo", "[indef: 1, p, vi, ciclo]", "[indef: ]"],
    "[P]": ["[P: p, q]"],
    "[int]?": ["nulo", "vi"],
}
BIN = ["+", "-", "*", "/", "//", "%", "==", "!=", "<", ">", "<=", ">=", "e", "ou"]
UNARY = ["-a", "+a", "nao a", "a.valor", "a.x", "a.o", "a.o.valor.x", "a.dobro()", "tam(a)", "a[0]", "a[1]", "a[0][0]", "a[-1]", "a[9223372036854775807]", "remova(a, 0)", "remova(a, -1)", "remova(a, 9223372036854775807)", "fid(a)", "f\"{a}\"", "[indef: a]", "P(x: a, o: nulo)", "P(x: 1, o: a)", "U::B(a)", "U::C(a)", "vec(int, a)", "vec(texto, 2, a)", "txt_contem(a, a)", "int", "fid", "mostra", "P", "escreva(a)", "leia(a)", "leia_int(a)", "leia_real(a)", "a = a", "anexa(a, a)"]
STMT = ["escolha a:\ncaso 1:\n mostra 1\ncaso a:\n mostra 2\nsenao:\n mostra 3\nfim", "escolha a:\ncaso a:\n mostra 2\nfim", "mostra iguala a\n 1 => 1,\n 0 => 2,\n z => 3\nfim", "mostra iguala a\n \"\" => 1,\n _ => 3\nfim", "iguala a\n U::A => mostra_(1),\n U::B(n) => faca\n mostra n\n fim,\n U::C(U::C(k)) => faca\n mostra 5\n fim,\n _ => faca\n mostra 2\n fim\nfim", "mostra iguala a\n U::A => 1,\n U::B(n) => n,\n U::C(U::C(k)) => 5,\n _ => 7\nfim", "se iguala a => U::B(n) entao\n mostra n\nfim", "para i de a..a faca\n mostra i\nfim", "para i de 0..3 inc a faca\n mostra i\n quebra\nfim", "para i de a..a - 1 inc -1 faca\n mostra i\n quebra\nfim", "se a entao\n mostra 1\nfim", "a[0] = a[1]\nmostra a", "a += a\nmostra a", "a -= 1\nmostra a", "a *= a\nmostra a", "a /= 0\nmostra a", "a //= 0", "a %= 0", "a.x = 5\nmostra a.x", "a.o = a\nmostra a.o.valor.x", "a.x += a.x", "a[0] += 9223372036854775807", "escrevaln(a)", "anexa(a, 1)", "mostra a\nmostra a", "a = nulo", "func f(): int\n retorna a\nfim\nmostra f()", "func f(z: {T}): {T}\n retorna z\nfim\nmostra f(a)", "func f(): {T}?\n retorna a\nfim\nmostra f() == nulo", "z: {T}? = a\nmostra z == nulo\nmostra z.valor == a", "z: [{T}] = [{T}: a, a]\nmostra z\nmostra remova(z, 1)\nmostra remova(z, 0)\nmostra remova(z, 0)"]
GLOBALS_2 = ["anexa(a, b)", "a[b]", "a[b] = 1", "remova(a, b)", "a = b", "a == b", "a[0] = b", "a.valor_ou(b)", "txt_contem(a, b)", "vec(int, a, b)", "[int: a, b]", "[real: a, b]", "para i de a..b faca\n mostra i\n quebra\nfim", "se iguala a => b entao\n mostra 1\nfim", "escolha a:\ncaso b:\n mostra 1\nfim", "a += b", "a -= b", "a *= b", "a /= b", "a //= b", "a %= b"]


USA = 'usa "mat"\n'


def operations():
    """-> (key, program) of every operation over every combination of values;
    the types of the operands and the operation make the key"""
    vals = [(t, v) for t in VALUES for v in VALUES[t]]
    for t, v in vals:
        d = f"a: {t} = {v}\n"
        for u in UNARY:
            yield (t, u), d + f"mostra {u}\n"
            if "(" in u:
                yield (t, u, ";"), d + u + "\n"
        for s in STMT:
            yield (t, s), d + s.replace("{T}", t) + "\n"
        for t2 in [*VALUES, "vazio"]:
            yield (t, 1, t2), d + f"b: {t2} = a :> {t2}\nmostra b\n"
            yield (t, 2, t2), d + f"mostra a :> {t2}\n"
            yield (t, 3, t2), d + f"b: {t2} = a\nmostra b\n"
        for m in ("abs", "raizqd", "piso", "teto", "arredonda", "sen", "cos", "tan", "grausprad", "radpgraus"):
            yield (t, m), USA + d + f"mostra {m}(a)\n"
    for t, v in vals:
        for t2, v2 in vals:
            d = f"a: {t} = {v}\nb: {t2} = {v2}\n"
            for o in BIN:
                yield (t, t2, o), d + f"mostra a {o} b\n"
            for s in GLOBALS_2:
                yield (t, t2, s), d + (s + "\nmostra a\n" if " = " in s or "fim" in s or "= b" in s else f"mostra {s}\n" if not s.startswith("anexa") else s + "\nmostra tam(a)\n")
            yield (t, t2, "mat"), USA + d + "mostra expoente(a, b)\nmostra log(a, b)\n"


OPS = {}
for key, src in operations():
    OPS.setdefault(key, []).append(src)
KEYS = list(OPS)


def place(s):
    usa = ""
    if s.startswith(USA):
        usa, s = USA, s[len(USA):]
    # in a function too: the operands are locals
    if len(s) % 3 == 0 and "func" not in s:
        s = "func prin()\n" + s + "fim\nprin()\n"
    return usa + MATRIX_PRE + s


def learn(i, out, run):
    for k in range(i * 50, min(len(KEYS), i * 50 + 50)):
        r = run.run({"main.ama": place(OPS[KEYS[k]][0])}, norun=True)
        out.n["operations offered to the compiler"] += 1
        if r.reached:
            out.vals.setdefault("accepted", set()).add(k)


def ops(i, out, run):
    for s in RUN[i * 20 : i * 20 + 20]:
        r = judge(out, run, {"main.ama": place(s)}, label="operation: " + s, stdin=b"12\nabc\n")
        out.n["operations run"] += r.reached


# ------------------------------------------------------------ deep structures
def deep_programs(n, rec):
    reg = "registo No\n  v: int\n  p: No?\nfim\n"
    uni = "uniao L\n  F, N(int, L)\nfim\n"
    fill = f"para i de 0..{n} faca\n  cab = No(v: i, p: cab)\nfim\n"
    yield "list dropped at the end", reg + "cab: No? = nulo\n" + fill + "mostra cab.valor.v\n"
    yield "list dropped by an assignment", reg + "cab: No? = nulo\n" + fill + "cab = nulo\nmostra 1\n"
    yield "list dropped with a frame", reg + "func f(): int\ncab: No? = nulo\n" + fill + "retorna cab.valor.v\nfim\nmostra f()\n"
    yield "list dropped from a vector", reg + "func f(): No\ncab: No? = nulo\n" + fill + "retorna cab.valor\nfim\nv: [No] = [No: f(), No(v: 1, p: nulo)]\nv[0] = v[1]\nremova(v, 0)\nmostra tam(v)\n"
    yield "list dropped from a field", reg + "func f(): No\ncab: No? = nulo\n" + fill + "retorna cab.valor\nfim\nk: No = No(v: 1, p: f())\nk.p = nulo\nmostra k.v\n"
    yield "list as an instruction", reg + "func f(): No\ncab: No? = nulo\n" + fill + "retorna cab.valor\nfim\nf()\nmostra 1\n"
    yield "list walked", reg + "cab: No? = nulo\n" + fill + "s: int = 0\nenquanto cab != nulo faca\n  s += cab.valor.v\n  cab = cab.valor.p\nfim\nmostra s\n"
    yield "list and a runtime error", reg + "cab: No? = nulo\n" + fill + "mostra cab.valor.v // 0\n"
    yield "variants dropped at the end", uni + f"l: L = L::F\npara i de 0..{n} faca\n  l = L::N(i, l)\nfim\nmostra 2\n"
    yield "variants dropped by an assignment", uni + f"l: L = L::F\npara i de 0..{n} faca\n  l = L::N(i, l)\nfim\nl = L::F\nmostra 2\n"
    yield "variants taken apart", uni + f"l: L = L::F\npara i de 0..{n} faca\n  l = L::N(i, l)\nfim\ns: int = 0\npara i de 0..{n} faca\n  l = iguala l\n    L::N(k, r) => r,\n    L::F => L::F\n  fim\n  s += 1\nfim\nmostra s\n"
    yield "vectors of vectors", f"u: [indef] = [indef: 0]\npara i de 0..{n} faca\n  u = [indef: u, i]\nfim\nmostra tam(u)\n"
    yield "vectors of vectors printed", f"u: [indef] = [indef: 0]\npara i de 0..{n} faca\n  u = [indef: u, i]\nfim\nmostra u\nu = [indef: 0]\nmostra u\n"
    yield "records in variants in vectors", "uniao L\n  F, N(indef)\nfim\nregisto R\n  x: indef\nfim\n" + f"u: [indef] = [indef: 0]\npara i de 0..{n} faca\n  u = [indef: R(x: L::N(u))]\nfim\nmostra tam(u)\nu = [indef: 1]\nmostra u\n"
    yield "long vector", f"v: [int] = [int: ]\npara i de 0..{n} faca\n  anexa(v, i)\nfim\npara i de 0..{min(n, 2000)} faca\n  remova(v, 0)\nfim\nmostra tam(v)\n"
    yield "long text", f"t: texto = \"a\"\npara i de 0..16 faca\n  t = f\"{{t}}{{t}}\"\nfim\nmostra tam(t)\nmostra t\n"
    for loc in (0, 1, 7, 40, 300):
        ls = "".join(f"  l{k}: int = n\n" for k in range(loc))
        yield f"recursion with {loc} locals", f"func f(n: int): int\n{ls}  se n == 0 entao\n    retorna 0\n  fim\n  retorna 1 + f(n - 1)\nfim\nmostra f({rec})\nmostra f({rec})\n"
        yield f"unlimited recursion with {loc} locals", f"func f(n: int): int\n{ls}  retorna 1 + f(n + 1)\nfim\nmostra f(0)\n"
    yield "unlimited recursion in a method", "registo P\n  x: int\nfim\nmet P::m(alvo, n: int): int\n  retorna alvo.m(n + 1) + alvo.x\nfim\nmostra P(x: 1).m(0)\n"
    yield "recursion over operands", f"func f(n: int): int\n  se n == 0 entao\n    retorna 0\n  fim\n  retorna 1 + 2 * (3 - (4 + f(n - 1)))\nfim\nmostra f({rec})\n"
    yield "recursion over a vector", f"func f(v: [int], n: int): int\n  se n == 0 entao\n    retorna tam(v)\n  fim\n  anexa(v, n)\n  retorna f([int: n, f(v, 0)], n - 1)\nfim\nmostra f([int: 1], {rec})\n"


def deep(i, out, run):
    n = 300000 if c.thorough else 60000
    for k, (what, src) in enumerate(deep_programs(n, 990)):
        if k % 8 == i:
            r = judge(out, run, {"main.ama": src}, label=f"{what}: ", bounded=False)
            out.n["deep programs run"] += r.reached


# ------------------------------------------------------------ memory
MEM_PRE = """registo No
  v: int
  t: texto
  p: No?
fim
uniao L
  F, N(int, L), T(texto)
fim
met No::m(alvo, x: int): No
  retorna No(v: x, t: alvo.t, p: nulo)
fim
met int::mi(alvo): int
  y: int = alvo * 2
  retorna y
fim
func soma(a: int, b: int): int
  c: int = a + b
  retorna c
fim
func nada()
  d: int = 1
fim
func nada2()
  retorna
fim
func txt(n: int): texto
  retorna f"valor {n}"
fim
func lista(n: int): [int]
  v: [int] = vec(int, 3)
  retorna v
fim
func opc(n: int): int?
  se n % 2 == 0 entao
    retorna nulo
  fim
  retorna n
fim
func un(n: int): L
  se n % 3 == 0 entao
    retorna L::F
  fim
  retorna L::N(n, L::T("a"))
fim
func cedo(n: int): int
  para j de 0..10 faca
    enquanto verdadeiro faca
      se j == n % 5 entao
        retorna j + soma(j, 1)
      fim
      quebra
    fim
  fim
  retorna 0
fim
func rec(n: int): int
  v: [int] = [int: n, n]
  se n <= 0 entao
    retorna tam(v)
  fim
  retorna rec(n - 1) + 1
fim
gt: texto = ""
gv: [int] = [int: 1, 2, 3]
gn: No = No(v: 1, t: "x", p: nulo)
go: int? = nulo
gl: L = L::F
gi: int = 0
gr: real = 0.0
gb: bool = falso
"""
BODIES = ["x: int = i", "mostra i", "i", "soma(i, 1)", "gi = i", "gi += i % 7", "gv[0] = i", "gv[i % 3] += 1", "gn.v = i", "gn.t = f\"{i}\"", "gn.v += 1", "gn = No(v: i, t: txt(i), p: gn.p)", "gn.p = No(v: i, t: \"a\", p: nulo)", "go = i", "go = nulo", "go = opc(i)", "gl = un(i)", "gl = L::N(i, L::N(i, L::F))", "x: int = soma(i, soma(i, 2))", "nada()", "nada2()", "txt(i)", "gt = txt(i)", "x: texto = f\"{i} {i} {gr}\"", "lista(i)", "x: [int] = lista(i)", "gv = [int: i, i, i]", "x: [[int]] = vec(int, 2, 2)\nx[1][1] = i", "vec(int, 4)", "[int: i, i]", "opc(i)", "mostra opc(i) == nulo", "opc(i).valor_ou(3)", "x: int = opc(i * 2 + 1).valor", "un(i)", "x: L = un(i)", "cedo(i)", "x: int = cedo(i) + cedo(i + 1)", "rec(i % 20)", "gn.m(i)", "gn.m(i).m(2).v", "i.mi()", "x: int = i.mi().mi()", "anexa(gv, i)\nremova(gv, 3)", "anexa(gv, i)\nx: int = remova(gv, 0)", "se i % 2 == 0 entao\nx: int = i\nsenaose i % 3 == 0 entao\ny: texto = txt(i)\nsenao\ni\nfim", "enquanto gi < 3 faca\ngi += 1\nx: int = gi\nfim\ngi = 0", "para j de 0..3 faca\nx: int = j\nfim", "para j de 0..9 inc 2 faca\nse j > 4 entao\nquebra\nfim\nfim", "para j de 0..9 faca\nse j > 2 entao\ncontinua\nfim\ntxt(j)\nfim", "para j de 9..0 inc -3 faca\npara k de 0..2 faca\nse k == 1 entao\ncontinua\nfim\nquebra\nfim\nfim", "enquanto verdadeiro faca\ngi += 1\nse gi > 3 entao\nquebra\nfim\ncontinua\nfim\ngi = 0", "escolha i % 4:\ncaso 0:\nmostra 1\ncaso 1:\nx: int = 3\ncaso 2:\ntxt(i)\nsenao:\ni\nfim", "escolha txt(i % 3):\ncaso \"valor 1\":\nmostra 1\ncaso txt(2):\nsoma(1, 2)\nfim", "escolha i:\ncaso -1:\nmostra 1\nfim", "x: int = iguala un(i)\nL::N(a, L::T(t)) => a + tam(t),\nL::N(a, _) => a,\nL::T(t) => tam(t),\nL::F => 0\nfim", "iguala un(i)\nL::N(a, _) => faca\nx: int = a\nsoma(x, a)\nfim,\n_ => faca\nmostra 1\nfim\nfim", "iguala i % 5\n0 => faca\nx: int = 1\nfim,\n1 => faca\nfim,\nk => faca\ny: int = k\nfim\nfim", "mostra iguala txt(i % 2)\n\"valor 1\" => 1,\nt => tam(t)\nfim", "x: int = iguala i % 3\n0 => faca\ny: int = i\nproduz y\nfim,\nz => soma(z, iguala z\n1 => 2,\n_ => 3\nfim)\nfim", "soma(iguala i % 2\n0 => i,\n_ => faca\nw: int = i\nproduz w\nfim\nfim, iguala i % 3\n1 => 1,\n_ => 2\nfim)", "se iguala un(i) => L::N(a, b) entao\nx: int = a\nsenao\nnada()\nfim", "se iguala opc(i).valor_ou(0) => 3 entao\nmostra 3\nfim", "iguala un(i)\nL::N(a, _) => soma(a, 1),\n_ => 0\nfim", "gi = gi = i", "gv[0] = gv[1] = i", "gn.v = gi = gv[2] = i", "gr = i / 3", "gr += 1", "x: real = i", "x: real? = i", "x: bool = nao gb e (i > 3) ou gb", "gb = i == 3", "x: texto = i :> texto", "x: int = \"12\" :> int", "x: indef = i\ny: int = x :> int", "x: int? = i :> int?", "gt[0] == \"a\"" , "x: texto = \"ação\"[i % 4]", "tam(gt)", "txt_contem(txt(i), \"9\")", "escreva(i)", "escrevaln(txt(i))", "x: texto = leia(\"\")", "x: int = leia_int(\"\")", "-i", "x: int = -i + +i", "No(v: i, t: \"a\", p: nulo)", "x: No = No(t: txt(i), p: gn, v: i)", "x: indef = [indef: i, gn, txt(i)]", "x: int = mat.piso(mat.raizqd(i))", "mat.abs(i)", "x: [No] = [No: gn, gn.m(i)]\nremova(x, 0)\nx[0].v = 3", "x: [[int]] = [[int]: gv, lista(i), gv]\nremova(x, 1)", "mostra gv", "mostra gn", "mostra gl", "mostra f\"{gi}{gt}{gb}{{\"", "mostra gn.m(i) == gn", "mostra go == nulo", "mostra go != nulo", "mostra go == 3"]
BODIES = [b for b in BODIES if not b.startswith("gt[0]")]
# the loop (or the calls) that repeats a body
REPEAT = {
    "para": "para i de 0..NNN faca\n{S}\nfim\n",
    "enquanto": "i: int = 0\nenquanto i < NNN faca\n{S}\ni += 1\nfim\n",
    "function": "func passo(i: int)\n{S}\nfim\npara i de 0..NNN faca\npasso(i)\nfim\n",
    "function with a value": "func passo(i: int): int\n{S}\nretorna i\nfim\npara i de 0..NNN faca\npasso(i)\nfim\n",
    "method": "met No::passo(alvo, i: int): No?\n{S}\nse i % 2 == 0 entao\nretorna nulo\nfim\nretorna alvo\nfim\npara i de 0..NNN faca\ngn.passo(i)\nfim\n",
    "loop in a function": "func todos(n: int)\npara i de 0..n faca\n{S}\nfim\nfim\ntodos(NNN)\n",
    "blocks": "para i de 0..NNN faca\nse i >= 0 entao\npara w de 0..1 faca\nescolha w:\ncaso 0:\n{S}\nfim\nfim\nfim\nfim\n",
    "continua": "para i de 0..NNN faca\n{S}\nse i % 2 == 0 entao\ncontinua\nfim\nmostra 0\nfim\n",
    "quebra": "para i de 0..NNN faca\nenquanto verdadeiro faca\n{S}\nquebra\nfim\nfim\n",
    "alternative": "para i de 0..NNN faca\niguala i\n-1 => faca\nfim,\n_ => faca\n{S}\nfim\nfim\nfim\n".replace("-1", "7"),
    "recursion": "func desce(n: int, i: int)\nse n == 0 entao\n{S}\nretorna\nfim\ndesce(n - 1, i)\nfim\npara i de 0..NNN faca\ndesce(i % 9, i)\nfim\n",
}
LOW, HIGH, SLACK = 500, 4500, 1500


def peak(run, src, n, out):
    s = 'usa "mat" => mat\n' + MEM_PRE + src.replace("NNN", str(n))
    r = run.run({"main.ama": s}, norun=True)
    if not r.module:
        return None, None
    p = os.path.join(run.dir, "m.bin")
    with open(p, "wb") as f:
        f.write(r.module)
    q = subprocess.run([system.runmod, p], input=b"12\n" * n, capture_output=True, env=dict(os.environ, AMV_PEAK="1", RUST_BACKTRACE="0"), timeout=120)
    out.n["modules run under the counting allocator"] += 1
    m = re.search(rb"PEAK (\d+) LIVE (\d+) CALLS (\d+)\n", q.stderr)
    if not m:
        return -1, q
    out.n["allocations counted"] += int(m.group(3))
    return int(m.group(1)), q


def grows(run, src, out):
    a, qa = peak(run, src, LOW, out)
    if a is None:
        return None
    b, qb = peak(run, src, HIGH, out)
    if a < 0 or b < 0:
        q = qa if a < 0 else qb
        return f"the machine ended abnormally: {q.returncode} {q.stderr[-500:]}"
    if qb.returncode != 0:
        return None
    out.n["loops measured"] += 1
    return f"{LOW} repetitions need {a} bytes, {HIGH} repetitions need {b} bytes" if b - a > SLACK else ""


def memory(i, out, run):
    r = c.rng("m", i)
    how = list(REPEAT)[i % len(REPEAT)] if c.thorough else r.choice(list(REPEAT))
    one = BODIES[(i // len(REPEAT) if c.thorough else i) % len(BODIES)]
    body = one if i < len(BODIES) * (len(REPEAT) if c.thorough else 1) else "\n".join(["se verdadeiro entao\n" + b + "\nfim" for b in r.sample(BODIES, 4)])
    src = REPEAT[how].replace("{S}", body)
    g = grows(run, src, out)
    if g is None:
        out.n["memory: not judged"] += 1
        return
    out.seen(src)
    if g:
        out.violation("memory", f"memory grows with the repetitions ({how}) of\n{body}\n{g}", {"main.ama": 'usa "mat" => mat\n' + MEM_PRE + src.replace("NNN", str(HIGH))})


# ------------------------------------------------------------ sanitizers
def some_program(r, i):
    k = i % 4
    if k == 0:
        return place(r.choice(RUN))
    if k == 1:
        t, f, pl = r.choice(COMBOS)
        xs, program = combo(r, t, f, pl)
        return program(xs)
    prog = Gen(r, **P[r.randrange(len(P))]).program()
    if diff.reference([prog], "", 4000)[0] is None:
        return None
    return lang.render(prog, r.random(), parens=0)


def record(run, src):
    if src is None:
        return None
    return run.run({"main.ama": src}, norun=True, cpu=30).module or None


def sanitized(i, out, run):
    r = c.rng("a", i)
    src = some_program(r, i)
    m = record(run, src)
    if not m:
        return
    p = os.path.join(run.dir, "a.bin")
    with open(p, "wb") as f:
        f.write(m)
    try:
        q = subprocess.run([asan, p], input=b"12\nabc\n", capture_output=True, env=ASAN, timeout=60)
    except subprocess.TimeoutExpired:
        out.n["not judged: may run for long"] += 1
        return
    out.n["modules run under AddressSanitizer"] += 1
    out.seen(m)
    if q.returncode not in (0, 1) or BAD.search(q.stderr):
        w = BAD.search(q.stderr)
        out.violation("asan:" + (w.group(0).decode() if w else str(q.returncode)), f"under AddressSanitizer: status {q.returncode}\n{q.stderr[-3000:].decode('utf-8', 'replace')}", {"main.ama": src, "module.bin": m})


def interpreted(i, out, run):
    r = c.rng("i", i)
    ms = []
    for k in range(400):
        src = some_program(r, r.randrange(4))
        m = record(run, src)
        if m and len(m) < (30000 if c.thorough else 9000):
            p = os.path.join(run.dir, f"i{k}.bin")
            with open(p, "wb") as f:
                f.write(m)
            ms.append((p, src))
        if len(ms) >= (40 if c.thorough else 4):
            break
    q = miri([p for p, _ in ms], 600 if c.thorough else 60)
    if q is None:
        out.n["not judged: may run for long"] += 1
        return
    out.n["modules run under Miri"] += len(ms)
    if q.returncode != 0 or BAD.search(q.stderr):
        w = BAD.search(q.stderr)
        out.violation("miri:" + (w.group(0).decode() if w else str(q.returncode)), f"under Miri: status {q.returncode}\n{q.stderr[-3000:].decode('utf-8', 'replace')}", {f"main{k}.ama": s for k, (_, s) in enumerate(ms)})


c.pmap(deep, 8, label="d")
c.pmap(memory, c.scale(len(BODIES) + 40, len(BODIES) * len(REPEAT) + 3000), label="m")
o = c.pmap(learn, len(KEYS) // 50 + 1, label="l")
KEPT = sorted(o.vals.pop("accepted", ()))
c.out.vals.pop("accepted", None)
RUN = [s for k in KEPT for s in OPS[KEYS[k]]]
c.rng("ops").shuffle(RUN)
c.pmap(ops, c.scale(160, len(RUN) // 20 + 1), label="o")
c.pmap(rand, c.scale(600, 60000), label="p")
c.pmap(graph, c.scale(80, 3000), label="g")
c.pmap(combos, c.scale(60, len(COMBOS)), label="x")
c.pmap(sanitized, c.scale(300, 15000), label="a")
if miri:
    c.pmap(interpreted, 8, label="i")
else:
    c.out.n["Miri not available here"] = 1
c.extra["operations in the matrix"] = sum(map(len, OPS.values()))
c.extra["operations accepted"] = len(RUN)
c.out.n["operations accepted by the compiler (kinds)"] = len(KEPT)
c.assumptions = ["memory is what the machine's allocator hands out; cycles of records are outside the memory part (see known findings)", "a program that the reference finishes within 20000 steps ends within the CPU limit"]


def probe(e, run):
    if e.get("kind") == "memory":
        return bool(grows(run, e["program"], c.out))
    r = run.run({"main.ama": e["program"]})
    return crash(r) is not None


c.probe_known(probe)
c.finish()
