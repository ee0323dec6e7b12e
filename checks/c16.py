"""C16: the modules handed to the machine are recorded and followed along
every path by a bytecode verifier."""
import _boot
import os
import shutil
from rt.check import Check
from rt import bdoc, bcode, lang, shrink
from rt.forms import COMBOS, combo, KINDS, big
from rt.gen import Gen
from rt.mods import World

c = Check("C16", "modules recorded from the real compiler, for random programs over all constructs, every expression form in every context, large programs and graphs of modules; each is decoded independently and every path of every body is followed with an abstract operand stack; non-trivial: distinct module bytes verified")
c.system(vm="shim")
bcode.renumber()


def lines(files):
    out = {}
    for p, s in files.items():
        n = os.path.basename(p)[: -len(".ama")]
        out[n] = max(out.get(n, 0), s.count("\n") + 1)
    return out


def check(files, r, exact):
    """-> (signature, message) or None, and what was observed"""
    try:
        v = bcode.Verifier(bdoc.module(r.module), lines(files), exact_return=exact)
        return None, v.run()
    except bcode.Bad as e:
        return (e.sig, str(e)), None
    except bdoc.Bad as e:
        return ("document", str(e)), None


def judge(out, run, files, exact=False, shrinker=None, label=""):
    r = run.run(files, norun=True, cpu=60)
    out.n["evaluations"] += 1
    if not r.module:
        out.n["not compiled"] += 1
        return
    out.seen(r.module)
    bad, n = check(files, r, exact)
    if not bad:
        out.n.update(n)
        return
    msg = f"{label}{bad[0]}: {bad[1]}"
    if shrinker and not out.viol:
        f2 = shrinker(bad[0])
        if f2:
            msg += "\nreduced:\n" + "\n".join(f2.values())
            files = {**{"reduced_" + k: v for k, v in f2.items()}, **files}
    out.violation(bad[0], msg, {**files, "module.bin": r.module})


BASE = dict(funcs=4, methods=2, depth=4, edepth=4, stmts=9, blk=4, trace=0.1, unsafe=0.05, free=1, shadow=0.5)
NOIG = dict(iguala=0)
P = [
    BASE,
    {**BASE, "methods": 5, "regs": 2, "unis": 2, "funcs": 2},
    {**BASE, "iguala": 3, "unis": 2, "seiguala": 3, "opts": 0},
    {**BASE, "depth": 6, "blk": 3, "funcs": 2, "edepth": 2, "loops": 2},
    {**BASE, "edepth": 7, "depth": 2, "stmts": 5, "blk": 2},
    {**BASE, "vecs": 3, "opts": 3, "regs": 2},
    {**BASE, **NOIG, "rec": 0.5, "calls": 2},
    {**BASE, **NOIG, "depth": 6, "blk": 3, "edepth": 2, "loops": 2, "escolha": 2},
]


def rand(i, out, run):
    r = c.rng("p", i)
    p = P[i % len(P)]
    g = Gen(r, **p)
    prog = g.program()
    for f in g.features:
        out.n["feature " + f] += 1
    seed = r.random()
    exact = p.get("iguala") == 0 and not any(n.k == "iguala" for n in shrink.allnodes(prog, []))
    if exact:
        out.n["programs with exact returns"] += 1

    def shrinker(sig):
        def bad():
            f = {"main.ama": lang.render(prog, seed, parens=0)}
            q = run.run(f, norun=True, cpu=60)
            b = check(f, q, exact)[0] if q.module else None
            return b and b[0] == sig

        if not bad():
            return None
        shrink.shrink([prog], bad, budget=15)
        return {"main.ama": lang.render(prog, seed, parens=0)}

    src = lang.render(prog, seed, wild=r.random() < 0.4, parens=0.08)
    out.sample(src)
    judge(out, run, {"main.ama": src}, exact, shrinker)


def graph(i, out, run):
    r = c.rng("g", i)
    w = World(r, profile=dict(free=1, shadow=0.5, methods=2))
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.join(run.dir, "sub"))
    judge(out, run, w.files(r.random()))


def combos(i, out, run):
    r = c.rng("x", i)
    t, f, pl = COMBOS[(i + c.seed * 7919) % len(COMBOS)] if c.thorough else r.choice(COMBOS)
    xs, program = combo(r, t, f, pl)
    judge(out, run, {"main.ama": program(xs)}, label=f"form {f!r} type {t} placement {pl}: ")


def sizes(i, out, run):
    r = c.rng("s", i)
    k = KINDS[i % len(KINDS)]
    n = r.choice([2, 200, 256, 257, 300, 700, 2000]) if not c.thorough else r.choice([255, 256, 257, 300, 1000, 5000])
    if k == "columns":
        n = min(n, 10)
    judge(out, run, {"main.ama": big(k, n, r)[k]() + "\n"}, exact="iguala" not in k and "arm" not in k and k not in ("columns", "variants", "variant arguments", "nested patterns"), label=f"{k} of size {n}: ")


c.pmap(rand, c.scale(1300, 50000))
c.pmap(sizes, c.scale(2 * len(KINDS), 12 * len(KINDS)), label="s")
c.pmap(graph, c.scale(250, 8000), label="g")
c.pmap(combos, c.scale(150, len(COMBOS)), label="x")
c.assumptions = ["rt/bcode.py states the effect of each instruction on the operand stack as the machine implements it", "programs are those the generators produce"]


def probe(e, run):
    f = {"main.ama": e["program"]}
    r = run.run(f, norun=True)
    return bool(r.module) and check(f, r, False)[0] is not None


c.probe_known(probe)
c.finish()
