"""C05: every program that follows the rules is accepted, by monitoring the
compiler on generated well-typed programs."""
import _boot
import os
import re
import shutil
from rt.check import Check
from rt import lang, shrink
from rt.gen import Gen
from rt.mods import World
from rt.forms import COMBOS, combo, KINDS, big
from rt.lang import *

c = Check("C05", "random well-typed programs over all constructs, with free nesting (any expression in any position), shadowing, unusual legal names, loose layouts, large sizes, graphs of modules; and every expression form in every context at every placement; each must be compiled without a diagnostic; non-trivial: distinct source accepted or wrongly rejected")
c.system(vm="shim")


def judge(out, run, files, label="", shrinker=None):
    r = run.run(files, norun=True, cpu=40)
    out.n["evaluations"] += 1
    out.seen("\0".join(f"{k}\0{v}" for k, v in files.items()))
    out.n["source_bytes"] += sum(len(v) for v in files.values())
    out.n["module_bytes"] += len(r.module)
    if r.kind == "ok" and not r.err and not r.out:
        return True
    msg = "a program that follows the rules was not compiled: " + label + "\n" + r.brief()
    tail = re.sub(r"[0-9]+|'[^']*'|_r\S+", "#", r.err.decode("utf-8", "replace")[-70:])
    if shrinker and not out.viol:
        f2 = shrinker(tail)
        if f2:
            msg += "\nreduced:\n" + "\n".join(f2.values())
            files = {**{"reduced_" + k: v for k, v in f2.items()}, **files}
    out.violation(r.kind + tail, msg, files)
    return False


BASE = dict(funcs=4, methods=2, depth=4, edepth=4, stmts=9, blk=4, trace=0.1, unsafe=0.05, free=1, shadow=0.5, extreme=0.05)
P = [
    BASE,
    {**BASE, "methods": 5, "regs": 2, "unis": 2, "funcs": 2},
    {**BASE, "iguala": 3, "unis": 2, "seiguala": 3, "opts": 0},
    {**BASE, "depth": 6, "blk": 3, "funcs": 2, "edepth": 2},
    {**BASE, "edepth": 7, "depth": 2, "stmts": 5, "blk": 2},
    {**BASE, "vecs": 3, "opts": 3, "regs": 2},
]


def rand(i, out, run):
    r = c.rng("p", i)
    g = Gen(r, **P[i % len(P)])
    prog = g.program()
    for f in g.features:
        out.n["feature " + f] += 1
    w, seed = r.random() < 0.4, r.random()
    src = lang.render(prog, seed, wild=w, parens=0.08)
    out.sample(src)

    def shrinker(tail):
        def bad():
            q = run.run({"main.ama": lang.render(prog, seed, parens=0)}, norun=True, cpu=40)
            return q.kind != "ok" and re.sub(r"[0-9]+|'[^']*'|_r\S+", "#", q.err.decode("utf-8", "replace")[-70:]) == tail

        if not bad():
            return None
        shrink.shrink([prog], bad, budget=15)
        return {"main.ama": lang.render(prog, seed, parens=0)}

    judge(out, run, {"main.ama": src}, shrinker=shrinker)


def graph(i, out, run):
    r = c.rng("g", i)
    w = World(r, profile=dict(free=1, shadow=0.5, methods=2))
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.join(run.dir, "sub"))
    out.n["modules"] += len(w.order())
    judge(out, run, w.files(r.random()), "modules")


def combos(i, out, run):
    r = c.rng("x", i)
    t, f, pl = COMBOS[(i + c.seed * 7919) % len(COMBOS)] if c.thorough else r.choice(COMBOS)
    xs, program = combo(r, t, f, pl)
    out.n["contexts x forms"] += len(xs)

    def shrinker(tail):
        ys = list(xs)
        for x in list(ys):
            zs = [y for y in ys if y is not x]
            if run.run({"main.ama": program(zs)}, norun=True).kind != "ok":
                ys = zs
        return {"main.ama": program(ys)}

    judge(out, run, {"main.ama": program(xs)}, f"form {f!r} type {t} placement {pl}", shrinker)


def sizes(i, out, run):
    r = c.rng("s", i)
    k = KINDS[i % len(KINDS)]
    n = r.choice([2, 10, 200, 255, 256, 257, 300, 700]) if not c.thorough else r.choice([255, 256, 257, 300, 1000, 3000])
    if k == "columns":
        n = min(n, 10)
    src = big(k, n, r)[k]() + "\n"
    out.n["size job " + k] += 1
    judge(out, run, {"main.ama": src}, f"{k} of size {n}")


if os.environ.get("ONLY") == "s":
    c.pmap(sizes, c.scale(4 * len(KINDS), 20 * len(KINDS)), label="s")
    c.finish()
if os.environ.get("ONLY") != "x":
    c.pmap(rand, c.scale(1500, 60000))
    c.pmap(sizes, c.scale(3 * len(KINDS), 20 * len(KINDS)), label="s")
    c.pmap(graph, c.scale(300, 8000), label="g")
c.pmap(combos, c.scale(int(os.environ.get("NX", "250")), len(COMBOS)), label="x")
c.assumptions = ["programs come from a typed generator and from templates that follow the documented rules"]
c.finish()
