"""C14: modules, by differential monitoring of random module graphs."""
import _boot
import os
import shutil
from rt.check import Check
from rt import progs, diff
from rt.mods import World
from rt.lang import *

c = Check("C14", "random graphs of up to seven modules joined by plain, alias and item imports written in different ways (folders, './', '..', '.ama'), diamonds and repetitions included, with equal names in different modules; each module's top level code prints when it runs, uses what it imported and its own globals, functions, types and methods; plus programs that must be rejected: cycles, names outside what was requested, assignments to another module's variables, items that do not exist; non-trivial: distinct graph with at least two modules besides the main one")
c.system()


def clean(run):
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.join(run.dir, "sub"))


def good(i, out, run):
    rng = c.rng("g", i)
    w = World(rng)
    exp, it = diff.reference(w.programs(), "", 30000)
    out.n["evaluations"] += 1
    if exp is None:
        out.n["discarded_too_long_or_open"] += 1
        return
    files = w.files(rng.random())
    clean(run)
    if len(w.order()) > 2:
        out.seen("\0".join(f"{k}\0{v}" for k, v in files.items()))
    out.n["modules"] += len(w.order())
    for m in w.order():
        for _, form, _, _ in m.imports:
            out.n["import " + form] += 1
    out.sample("\n".join(f"== {k}\n{v}" for k, v in files.items()))
    progs.judge(c, out, run, None, exp, files, lines=False)


# ------------------------------------------------------------ rejections
def reject(out, run, files, what, want=(), inside=None):
    """the program is diagnosed, in one of the given files and lines, and
    nothing of it runs"""
    clean(run)
    r = run.run(files)
    out.n["evaluations"] += 1
    out.n["rejections"] += 1
    out.n["reject " + what] += 1
    out.seen("\0".join(f"{k}\0{v}" for k, v in files.items()))
    e = r.err.decode("utf-8", "replace")
    bad = None
    if r.kind in ("ok", "rterr"):
        bad = "accepted"
    elif r.kind == "crash":
        bad = "crashed instead of diagnosed"
    elif r.out:
        bad = "diagnosed, but something ran"
    elif want and not any(w in e for w in want):
        bad = f"diagnosed without naming {want}"
    elif inside:
        at = [f'Ficheiro "{f}", linha {l}' for f, l in inside]
        if not any(a + x in e for a in at for x in (":", "\n", "\r")):
            bad = f"not diagnosed at {at}"
    if bad:
        out.violation(what + ":" + bad[:30], f"{what}: {bad}\n{r.brief()}", files)


def form(rng, path, name):
    """an import of a module in any form"""
    k = rng.choice(["plain", "alias", "items"])
    if k == "plain":
        return f'usa "{path}"'
    if k == "alias":
        return f'usa "{path}" => ap_{name}'
    return f'usa "{path}" => [v_{name}]'


def cycle(i, out, run):
    rng = c.rng("cycle", i)
    n = rng.randint(1, 5)
    lead = rng.randint(0, 2)
    names = [f"m{k}" for k in range(lead + n)]
    dirs = {m: rng.choice(["", "", "sub/"]) for m in names}
    # the main file may be part of the cycle
    if lead == 0 and rng.random() < 0.5:
        names[0] = "main"
        dirs["main"] = ""
    files = {}
    for k, m in enumerate(names):
        nxt = names[k + 1] if k + 1 < len(names) else names[lead]
        p = dirs[nxt] + nxt
        if rng.random() < 0.2:
            p = "./" + p
        if rng.random() < 0.2:
            p += ".ama"
        files[dirs[m] + m + ".ama"] = f'{form(rng, p, nxt)}\nv_{m}: int = {k}\nmostra "corre {m}"\n'
    if "main.ama" not in files:
        files["main.ama"] = f'{form(rng, dirs[names[0]] + names[0], names[0])}\nmostra "principal"\n'
    reject(out, run, files, "cycle of modules", ["cíclica"])


DECLS = {
    "v": ("v{k}: {t} = {x}", "mostra {n}"),
    "f": ("func f{k}(a: int): int\n  retorna a + {k}\nfim", "mostra {n}(1)"),
    "p": ("func p{k}()\n  mostra {k}\nfim", "{n}()"),
    "R": ("registo R{k}\n  x: int\nfim", "mostra {n}(x: 1).x"),
    "U": ("uniao U{k}\n  A{k}(int), B{k}\nfim", "mostra {n}::A{k}(1)"),
}


def module(rng, tag, n=None):
    """(text, [(name, use of it)])"""
    txt, names = [], []
    for j in range(n or rng.randint(2, 6)):
        kind = rng.choice(list(DECLS))
        k = f"{tag}{j}"
        d, use = DECLS[kind]
        if kind in "fp":
            d = d.replace("+ {k}", "+ 1").replace("mostra {k}", "mostra 1")
        t, x = rng.choice([("int", "7"), ("texto", '"t"'), ("real", "1.5"), ("bool", "falso"), ("[int]", "[int: 1, 2]")])
        txt.append(d.format(k=k, t=t, x=x))
        names.append((kind + k, use.replace("{k}", k)))
    txt.append(f'mostra "carregado {tag}"')
    return "\n".join(txt) + "\n", names


def wrap(rng, s):
    """an instruction somewhere in a program"""
    k = rng.randint(0, 6)
    pad = "\n".join(f"z{j}: int = {j}" for j in range(rng.randint(0, 2)))
    if k == 0:
        s2 = f"se verdadeiro entao\n  {s}\nfim"
    elif k == 1:
        s2 = f"func local()\n  {s}\nfim\nlocal()"
    elif k == 2:
        s2 = f"para ii de 0..2 faca\n  {s}\nfim"
    elif k == 3:
        s2 = f"enquanto falso faca\n  {s}\nfim"
    elif k == 4:
        s2 = f"escolha 1:\n caso 1:\n  {s}\n senao:\n  mostra 1\nfim"
    else:
        s2 = s
    return pad + "\n" + s2 + "\n"


def at(files, name, text, sub):
    """the line of a file where a text stands"""
    src = files[name]
    return [(name, src[: src.index(sub)].count("\n") + 1)]


def hidden(i, out, run):
    """names that were not asked for are not visible"""
    rng = c.rng("hidden", i)
    txt, names = module(rng, "a")
    files = {"a.ama": txt}
    kind = rng.choice(["items", "items", "alias", "importer", "sibling", "alias of dep", "through", "through alias", "unloaded"])
    n, use = rng.choice(names)
    bad = use.replace("{n}", n)
    others = [x for x in names if x[0] != n]
    if kind == "items":
        keep = [x[0] for x in rng.sample(others, rng.randint(1, len(others)))]
        main = f'usa "a" => [{", ".join(keep)}]\n'
        files["main.ama"] = main + wrap(rng, bad)
    elif kind == "alias":
        # under an alias nothing is visible by its own name
        files["main.ama"] = 'usa "a" => q\n' + wrap(rng, bad)
    elif kind == "importer":
        # an imported module does not see what imports it
        t2, n2 = module(rng, "b")
        x, use = rng.choice(n2)
        bad = use.replace("{n}", x)
        files["a.ama"] = txt + wrap(rng, bad)
        files["main.ama"] = rng.choice(['usa "a"\n', 'usa "a" => q\n']) + t2
    elif kind == "sibling":
        # nor another module imported before it
        t2, n2 = module(rng, "b")
        files["b.ama"] = t2 + wrap(rng, bad)
        files["main.ama"] = 'usa "a"\n' + rng.choice(['usa "b"\n', 'usa "b" => q\n'])
    elif kind == "alias of dep":
        # the alias that a module gave is its own
        files["b.ama"] = 'usa "a" => q\nw: int = 1\n'
        bad = use.replace("{n}", "q." + n)
        files["main.ama"] = 'usa "b"\n' + wrap(rng, bad if "::" not in bad else f"mostra q.v")
        if "::" in bad:
            bad = "mostra q.v"
    elif kind == "through":
        # what a module imported by an alias is not visible through it
        files["b.ama"] = 'usa "a" => q\nw: int = 1\n'
        files["main.ama"] = rng.choice(['usa "b"\n', 'usa "b" => [w]\n']) + wrap(rng, bad)
    elif kind == "through alias":
        files["b.ama"] = 'usa "a" => q\nw: int = 1\n'
        n0 = next((x for x in names if x[0][0] == "v"), None)
        bad = f"mostra m.{(n0 or names[0])[0]}"
        files["main.ama"] = 'usa "b" => m\n' + wrap(rng, bad)
    else:
        # a module that is loaded by another one but was not imported here
        files["b.ama"] = 'usa "a"\nw: int = 1\n'
        files["main.ama"] = 'usa "b" => [w]\n' + wrap(rng, bad)
    f = next(k for k in files if bad in files[k] and (k != "a.ama" or kind == "importer"))
    reject(out, run, files, "name not requested (" + kind + ")", inside=at(files, f, None, bad))


def foreign_assign(i, out, run):
    """no assignment to a variable of another module"""
    rng = c.rng("assign", i)
    t, x, y = rng.choice([("int", "7", "8"), ("texto", '"t"', '"u"'), ("real", "1.5", "2"), ("bool", "falso", "verdadeiro"), ("[int]", "[int: 1]", "[int: 2]"), ("int?", "nulo", "3"), ("R", "R(x: 1)", "R(x: 2)")])
    reg = "registo R\n  x: int\nfim\n" if t == "R" else ""
    files = {"a.ama": f"{reg}v: {t} = {x}\nmostra v\n" if t not in ("int?", "R", "[int]") else f"{reg}v: {t} = {x}\n"}
    dep = "a"
    if rng.random() < 0.3:
        dep = "b"
        files["b.ama"] = 'usa "a"\nw: int = 1\n'
    k = rng.choice(["plain", "alias", "items"])
    n = "v"
    imp = f'usa "{dep}"\n'
    if k == "alias":
        imp, n = f'usa "{dep}" => m\n', "m.v"
    elif k == "items":
        imp = f'usa "{dep}" => [v{", R" if t == "R" else ""}]\n'
    if t == "R":
        y = "m.R(x: 2)" if k == "alias" else y
    op = "="
    if t in ("int", "real") and rng.random() < 0.5:
        op, y = rng.choice(["+=", "-=", "*="]), "2"
    s = f"{n} {op} {y}"
    if op == "=" and rng.random() < 0.3 and t in ("int", "texto", "real", "bool"):
        s = f"loc = {s}"
        imp2 = f"loc: {t} = {x}\n"
    else:
        imp2 = ""
    body = wrap(rng, s)
    files["main.ama"] = imp + imp2 + body
    reject(out, run, files, f"assignment to another module's variable ({k})", inside=at(files, "main.ama", None, s))


def missing(i, out, run):
    """modules and items that do not exist, names requested twice"""
    rng = c.rng("missing", i)
    txt, names = module(rng, "a")
    files = {"a.ama": txt}
    kind = rng.choice(["file", "item", "member", "clash", "clash own", "alias twice", "folder"])
    pre = "# nada\n" * rng.randint(0, 3)
    if kind == "file":
        u = form(rng, rng.choice(["nada", "sub/a", "a.b", "../a/zz", "A"]), "x")
    elif kind == "folder":
        files["sub/x.ama"] = "v: int = 1\n"
        u = form(rng, "sub", "x")
    elif kind == "item":
        l = [rng.choice(names)[0] for _ in range(rng.randint(0, 2))]
        l = list(dict.fromkeys(l)) + ["nada"]
        rng.shuffle(l)
        u = f'usa "a" => [{", ".join(l)}]'
    elif kind == "member":
        u = "mostra " + rng.choice(["q.nada", "q.nada(1)", "1 + q.nada"])
        pre = 'usa "a" => q\n' + pre
    elif kind == "clash":
        n = names[0][0]
        files["b.ama"] = f"{n}: int = 1\n" if n[0] == "v" else DECLS[n[0]][0].replace("+ {k}", "+ 1").replace("mostra {k}", "mostra 1").replace("{k}", n[1:]) + "\n"
        u = f'usa "b" => [{n}]'
        pre = f'usa "a" => [{n}]\n' + pre
    elif kind == "clash own":
        n = rng.choice(names)[0]
        u = rng.choice([f"{n}: int = 3", f"func {n}()\nfim", f"registo {n}\n x: int\nfim"])
        pre = rng.choice([f'usa "a" => [{n}]\n']) + pre
    else:
        files["b.ama"] = "w: int = 1\n"
        u = 'usa "b" => q'
        pre = 'usa "a" => q\n' + pre
    files["main.ama"] = pre + u + "\nmostra 1\n"
    reject(out, run, files, "import that can't be resolved (" + kind + ")", inside=at(files, "main.ama", None, u))


NEG = [cycle, hidden, foreign_assign, missing]
c.pmap(good, c.scale(1100, 30000))
c.pmap(lambda i, o, r: NEG[i % 4](i, o, r), c.scale(1200, 12000), label="n")
c.assumptions = ["the reference interpreter (rt/lang.py) runs the modules in the order of the imports, each with its own declarations"]
c.finish()
