"""C03: whatever the input is, the command gives a module or one diagnostic.
Odd, mutated, truncated, random and huge inputs go through the real command;
a monitor judges everything it did."""
import _boot
import os
import random
import re
from rt.check import Check
from rt.diag import wrong
from rt import lang, lexref, recog
from rt.forms import COMBOS, combo, KINDS, big
from rt.gen import Gen
from rt.mods import World
from rt.wild import Wild, ENV, MOD

c = Check("C03", "odd programs the grammar can write (any expression, type, pattern and declaration anywhere), programs with mutated tokens, characters and lines, truncated programs, random characters, bytes and tokens, deep and huge inputs, malformed modules behind imports; each must end in time, as a module with no diagnostic or as exactly one diagnostic that names a file of the program, a line of it and quotes that line, with nothing run; texts that an independent recogniser finds malformed must be diagnosed; non-trivial: distinct inputs judged")
c.system()

def reduced(run, files, sig, bad, norun):
    """Fewer lines with the same signature"""
    files = dict(files)
    left = 150
    for name in list(files):
        if isinstance(files[name], bytes):
            continue
        ls = files[name].split("\n")
        n = max(1, len(ls) // 2)
        while n and left > 0:
            i, any_ = 0, False
            while i < len(ls) and left > 0:
                t = ls[:i] + ls[i + n :]
                f = {**files, name: "\n".join(t)}
                b = recog.malformed(f["main.ama"]) if bad else None
                left -= 1
                if bad and not b:
                    i += n
                    continue
                w = wrong(f, run.run(f, norun=norun, cpu=20), b)
                if w and w[0] == sig:
                    ls, any_ = t, True
                    files = f
                else:
                    i += n
            if not any_ or n == 1:
                n //= 2
    return files


def judge(out, run, files, what, norun=True, cpu=20):
    bad = None
    t = files["main.ama"]
    if isinstance(t, str) and len(t) < 200000 and "\0" not in t:
        try:
            t.encode("utf-8")
            bad = recog.malformed(t)
        except UnicodeEncodeError:
            bad = ("not UTF-8", 1)
    r = run.run(files, norun=norun, cpu=cpu, wall=120)
    out.n["evaluations"] += 1
    out.n[what] += 1
    out.seen("\0".join(x if isinstance(x, str) else x.decode("latin-1") for kv in files.items() for x in kv))
    if bad:
        out.n["surely malformed"] += 1
    w = wrong(files, r, bad)
    if r.kind == "diag":
        out.n["diagnosed"] += 1
        m = re.search(r"^Erro.*", r.err.decode("utf-8", "replace"), re.M)
        if m:
            out.vals.setdefault("messages", set()).add(re.sub(r"'[^']*'|\d+", "#", m.group())[:70])
    elif not w:
        out.n["compiled"] += 1
    if w:
        if len(out.viol) < 2 and not r.timeout:
            f2 = reduced(run, files, w[0], bad, norun)
            if f2 != files:
                files = {**f2, **{"whole_" + k: v for k, v in files.items()}}
        out.violation(w[0], f"{what}: {w[1]}\n" + r.brief(), files)
        return False
    return True


# -------------------------------------------------------- sources of inputs
def wild(i, out, run):
    r = c.rng("w", i)
    w = Wild(r, mod=i % 3 == 0)
    f = {"main.ama": w.program()}
    if w.mod:
        f["mod.ama"] = MOD
    if i % 40 == 0:
        out.sample(f["main.ama"][-300:])
    judge(out, run, f, "odd program")


SMALL = dict(funcs=2, methods=1, depth=3, edepth=3, stmts=5, blk=3, trace=0.2, unsafe=0.02, free=1, shadow=0.3)
PR = [SMALL, {**SMALL, "regs": 1, "unis": 1, "iguala": 3, "seiguala": 3}, {**SMALL, "vecs": 2, "opts": 2, "regs": 2, "unis": 1}]


def source_text(r):
    k = r.randrange(6)
    if k < 3:
        return lang.render(Gen(r, **r.choice(PR)).program(), r.random(), wild=r.random() < 0.3, parens=0.05)
    if k == 3:
        a = r.choice(COMBOS)
        xs, program = combo(r, *a)
        return program(xs[:6])
    if k == 4:
        return ENV + Wild(r, False).wrap(Wild(r, False).st(2)) + "\n"
    k = r.choice([x for x in KINDS if x != "columns"])
    return big(k, 5, r)[k]() + "\n"


VOCAB = lexref.OPS + sorted(lexref.KEYWORDS) + ["x", "int", "real", "texto", "bool", "1", "0", "2.5", '"a"', "''", 'f"{x}"', 'f"{"', 'f"}"', "\n", ";", "_", "tam", "vec", "P", "9" * 25, "1" * 5000, "#", "$", "\\n", "é", "'", '"']
ODDCH = list("(){}[].,:;=<>+-*/%?@#'\"\\ \n\t_aZ09fé") + ["\r", "\r\n", "\0", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u00a0", "٣", "²", "½", "😀", "\ufeff", "\u200b", "a\u0301", "𝐱", "ª", "$", "!", "&", "|", "^", "~", "`", "ǆ"]


def mutate(r, src):
    toks, _ = lexref.scan(src)
    if not toks:
        return src + r.choice(VOCAB)
    n = len(toks)

    def at(k):
        return toks[k][3], toks[k][4]

    k = r.randrange(17)
    i = r.randrange(n)
    a, b = at(i)
    t = src[a:b]
    if k == 0:
        return src[:a] + src[b:]
    if k == 1:
        return src[:b] + " " + t + src[b:]
    if k == 2 and i + 1 < n:
        x, y = at(i + 1)
        return src[:a] + src[x:y] + src[b:x] + t + src[y:]
    if k in (3, 4):
        # another token of the program in its place
        ks = [j for j in range(n) if toks[j][0] == toks[i][0] and j != i] or list(range(n))
        x, y = at(r.choice(ks))
        return src[:a] + src[x:y] + src[b:]
    if k in (5, 6):
        return src[:a] + r.choice(VOCAB) + src[b:]
    if k == 7:
        return src[:a] + r.choice(VOCAB) + " " + src[a:]
    if k == 8:
        return src[: r.randrange(len(src) + 1)]
    if k == 9:
        return src[:b]
    ls = src.split("\n")
    i = r.randrange(len(ls))
    if k == 10:
        del ls[i]
    elif k == 11:
        ls.insert(r.randrange(len(ls) + 1), ls[i])
    elif k == 12:
        ls.insert(r.randrange(len(ls)), ls.pop(i))
    elif k == 13:
        ls = ls[:i] + source_text(r).split("\n")[r.randrange(3) :]
    elif k == 14:
        j = r.randrange(len(ls))
        del ls[min(i, j) : max(i, j)]
    else:
        p = r.randrange(len(src) + 1)
        if k == 15:
            return src[:p] + r.choice(ODDCH) + src[p:]
        return src[:p] + r.choice(ODDCH) + src[p + 1 :]
    return "\n".join(ls)


def mutated(i, out, run):
    r = c.rng("m", i)
    src = source_text(r)
    for _ in range(4):
        s = src
        for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
            s = mutate(r, s)
        # the programs are not meant to be run: they may not end
        judge(out, run, {"main.ama": s}, "mutated program")


def garbage(i, out, run):
    r = c.rng("g", i)
    k = i % 5
    n = r.choice([1, 2, 3, 5, 10, 40, 200])
    if k == 0:
        s = "".join(r.choice(ODDCH) for _ in range(n))
    elif k == 1:
        s = bytes(r.randrange(256) for _ in range(n))
    elif k == 2:
        s = "".join(chr(r.choice([r.randrange(128), r.randrange(0x250), r.randrange(0x2000, 0x2100), r.randrange(0x10000, 0x10FFFF)])) for _ in range(n))
        s = re.sub("[\ud800-\udfff]", "?", s)
    elif k == 3:
        s = r.choice([" ", "", "\n"]).join(r.choice(VOCAB) for _ in range(n))
    else:
        s = "".join(r.choice(["mostra ", "x", " = ", "1", "\n", " + ", "(", ")", "fim\n", "se ", " entao ", "iguala ", " => ", "f\"{", "}\"", "'", "[int:", "]", ": int", "func f(", "registo P\n", "uniao U ", "::", ".", "A"]) for _ in range(n))
    if isinstance(s, str):
        s = s.encode("utf-8", "surrogatepass")
    r2 = judge(out, run, {"main.ama": s}, "random input", norun=False)
    return r2


def truncated(i, out, run):
    """Every prefix of a program, token by token"""
    r = c.rng("u", i)
    src = source_text(r)
    toks, _ = lexref.scan(src)
    ends = [t[4] for t in toks]
    if not c.thorough and len(ends) > 40:
        ends = r.sample(ends, 40)
    for e in ends:
        s = src[:e] + r.choice(["", "", "\n", "\n\n", "  ", "#", " # x\n"])
        if not judge(out, run, {"main.ama": s}, "truncated program"):
            return


DEEP = {
    "open (": lambda n: "mostra " + "(" * n,
    "( )": lambda n: "mostra " + "(" * n + "1" + ")" * (n - 1),
    "open [": lambda n: "x: int = " + "[int: " * n,
    "type [": lambda n: "x: " + "[" * n + "int" + "]" * n,
    "type [ open": lambda n: "x: " + "[" * n + "int",
    "index": lambda n: "x: int = 1\nmostra x" + "[0]" * n,
    "calls": lambda n: "x: int = 1\nmostra x" + "()" * n,
    "fields": lambda n: "x: int = 1\nmostra x" + ".a" * n,
    "casts": lambda n: "mostra " + "(" * n + "1" + " :> real)" * n,
    "unary": lambda n: "mostra " + "-" * n + "verdadeiro",
    "nao": lambda n: "mostra " + "nao " * n + "1",
    "binary": lambda n: "mostra 1" + " + 1" * n + " + 'a'",
    "binary right": lambda n: "mostra " + "1 + (" * n + "'a'" + ")" * n,
    "e": lambda n: "mostra verdadeiro" + " e verdadeiro" * n + " e 1",
    "assign": lambda n: "x: int = 1\n" + "x = " * n + "'a'",
    "se": lambda n: "se verdadeiro entao\n" * n + "mostra zz",
    "senaose": lambda n: "se falso entao\n" + "senaose falso entao\nmostra 1\n" * n + "senao\nmostra zz\nfim",
    "senao": lambda n: "se falso entao\nsenao\n" * n + "mostra zz\n" + "fim\n" * n,
    "para": lambda n: "".join(f"para i{k} de 0..1 faca\n" for k in range(n)) + "mostra zz\n" + "fim\n" * n,
    "enquanto": lambda n: "enquanto falso faca\n" * n + "mostra zz\n" + "fim\n" * n,
    "func": lambda n: "func f()\n" * n + "fim\n" * n,
    "iguala": lambda n: "mostra " + "iguala 1\n1 => " * n + "2,\n_ => 'a'\nfim" + ",\n_ => 3\nfim" * (n - 1),
    "iguala faca": lambda n: "iguala 1\n_ => faca\n" * n + "mostra zz\n" + "fim\nfim\n" * n,
    "se iguala": lambda n: "se iguala 1 => x entao\n" * n + "mostra zz\n" + "fim\n" * n,
    "pattern": lambda n: "uniao U A, B(U) fim\nu: U = U::A\niguala u\n" + "U::B(" * n + "zz::x" + ")" * n + " => 1\nfim",
    "pattern deep": lambda n: "uniao U A, B(U) fim\nu: U = U::A\nmostra iguala u\n" + "U::B(" * n + "x" + ")" * n + " => 1\nfim",
    "path": lambda n: "x: int = a" + "::b" * n,
    "type path": lambda n: "x: a" + ".b" * n,
    "generic": lambda n: "registo G[T]\n x: T\nfim\nx: " + "G[" * n + "int" + "]" * n + " = 1",
    "optional": lambda n: "x: int" + "?" * n + " = 1",
    "params": lambda n: "func f(" + ", ".join(f"a{k}: int" for k in range(n)) + ")\nfim\nf(" + ", ".join(["1"] * n) + ")",
    "args": lambda n: "func f(a: int)\nfim\nf(" + ", ".join(["1"] * n) + ")",
    "vec dims": lambda n: "x: int = vec(int" + ", 2" * n + ")",
    "escolha": lambda n: "escolha 1:\ncaso 1:\n" * n + "mostra zz\n" + "fim\n" * n,
    "cases": lambda n: "escolha 1:\n" + "".join(f"caso {k}:\nmostra 1\n" for k in range(n)) + "senao:\nmostra zz\nfim",
    "variants": lambda n: "uniao U\n" + ",\n".join(f"A{k}" for k in range(n)) + "\nfim\nu: U = U::A0\niguala u\nU::A0 => 1\nfim",
    "fields decl": lambda n: "registo R\n" + "".join(f"a{k}: int\n" for k in range(n)) + "fim\nr: R = R(a0: 1)",
    "list": lambda n: "x: [int] = [int: " + ", ".join(["1"] * n) + ", 'a']",
    "fstr": lambda n: "mostra f'" + "{1}" * n + "{zz}'",
    "one line": lambda n: "mostra 1;" * n + "mostra zz",
    "lines": lambda n: "mostra 1\n" * n + "mostra zz",
    "blank lines": lambda n: "\n" * n + "mostra zz" + "\n" * n,
    "comments": lambda n: "# x\n" * n + "mostra zz",
    "name": lambda n: "mostra " + "z" * n,
    "int": lambda n: "mostra " + "1" * n,
    "real": lambda n: "mostra 1." + "1" * n + " + 'a'",
    "string": lambda n: "x: int = '" + "a" * n + "'",
    "open string": lambda n: "x: texto = '" + "a\n" * n,
    "annotations": lambda n: "@a\n" * n + "mostra 1",
    "names": lambda n: "".join(f"x{k}: int = {k}\n" for k in range(n)) + "mostra zz",
    "multi": lambda n: ", ".join(f"x{k}" for k in range(n)) + ": zz",
    "usa": lambda n: 'usa "mod" => [' + ", ".join(["mf"] * n) + "]",
    "usas": lambda n: "".join(f'usa "mod" => m{k}\n' for k in range(n)) + "mostra zz",
    "fim": lambda n: "fim\n" * n,
    "ops": lambda n: "mostra 1 " + "* " * n + "1",
    "nested list": lambda n: "x: " + "[" * n + "int" + "]" * n + " = " + "".join("[" + "[" * (n - k - 1) + "int" + "]" * (n - k - 1) + ": " for k in range(n)) + "'a'" + "]" * n if n <= 60 else "mostra zz",
    "methods": lambda n: "".join(f"met int::m{k}(alvo): int\n retorna alvo\nfim\n" for k in range(n)) + "mostra zz",
}


def deep(i, out, run):
    r = c.rng("d", i)
    k = list(DEEP)[i % len(DEEP)]
    n = [r.choice([3, 40]), r.choice([150, 260, 400]), r.choice([1000, 3000])][(i // len(DEEP)) % 3]
    if c.thorough and r.random() < 0.15:
        n = r.choice([12000, 40000])
    s = DEEP[k](n)
    if len(s) > (4000000 if c.thorough else 150000):
        out.n["too long"] += 1
        return
    judge(out, run, {"main.ama": s + r.choice(["", "\n"]), "mod.ama": MOD}, "deep or long: " + k, cpu=60 if c.thorough else 30)


def modules(i, out, run):
    r = c.rng("o", i)
    files = World(r).files(r.random(), wild=0.2, parens=0.0)
    if "main.ama" not in files:
        return
    k = r.choice([x for x in files])
    m = r.randrange(6)
    if m < 3:
        files[k] = mutate(r, files[k])
    elif m == 3:
        # what is imported
        us = re.findall(r'usa "[^"\n]*".*', files[k])
        if us:
            u = r.choice(us)
            files[k] = files[k].replace(u, r.choice([re.sub(r'"[^"]*"', r.choice(['"nada"', '""', '"."', '"/"', '"main"', '"../x"', '"a/"', '"\\n"', '"é"', '"a b"', f'"{"x" * 300}"', '"x.ama/y"', '"main.ama"']), u), u + "\n" + u, re.sub(r"=>.*", r.choice(["=> [nada]", "=> nada", "=> [tam]", "=> int", "=> [mg, mg]", "=> []", "=>"]), u), u.replace("usa", "usa usa")]), 1)
    elif m == 4 and len(files) > 1:
        del files[r.choice([x for x in files if x != "main.ama"])]
    else:
        files[k] = r.choice([b"\xff\xfe", b"", "fim", "mostra", "x", "@@embutido", "usa", b"\xc3", "\ufeffmostra 1", "# só\n", files[k] + "\nse"])
    for x in files:
        p = os.path.join(run.dir, x)
        if os.path.isdir(p):
            return
    clean(run, files)
    judge(out, run, files, "modules")


def clean(run, files):
    """Only these modules exist"""
    for root, _, names in os.walk(run.dir):
        for n in names:
            if n.endswith(".ama") and os.path.relpath(os.path.join(root, n), run.dir) not in files:
                os.unlink(os.path.join(root, n))


def spawned(i, out, run):
    """The same through processes of their own, with the machine"""
    r = c.rng("s", i)
    s = ("mostra 'run'\n" + mutate(r, source_text(r))) if i % 2 else DEEP[r.choice(list(DEEP))](r.choice([30, 300, 1000]))
    files = {"main.ama": s, "mod.ama": MOD}
    run.write(files)
    bad = recog.malformed(s)
    q = run.cli(["main.ama"], timeout=60, env={"AMV_NORUN": "1"})
    out.n["evaluations"] += 1
    out.n["processes"] += 1
    out.seen(s)
    w = wrong(files, q, bad)
    if w:
        out.violation(w[0], "as a process: " + w[1] + "\n" + q.brief(), files)


K = float(os.environ.get("AMV_SCALE", "1"))
T = c.thorough
c.pmap(wild, int((250000 if T else 6500) * K), label="w")
c.pmap(mutated, int((40000 if T else 900) * K), label="m")
c.pmap(garbage, int((60000 if T else 1500) * K), label="g")
c.pmap(truncated, int((1500 if T else 40) * K), label="u")
c.pmap(deep, int((len(DEEP) * 12 if T else len(DEEP) * 3) * K), label="d")
c.pmap(modules, int((12000 if T else 500) * K), label="o")
c.pmap(spawned, int((400 if T else 40) * K), label="s")


def probe(e, run):
    f = {"main.ama": e["program"]}
    return wrong(f, run.run(f, norun=True, cpu=20)) is not None


c.probe_known(probe)
c.assumptions = ["a line end at the end of the file does not start another line", "programs are compiled, not run: what running them does is judged by other properties"]
c.finish()
