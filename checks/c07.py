"""C07: control flow, by differential monitoring of traced programs."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs

c = Check("C07", "random programs dense in se/escolha/enquanto/para/iguala, quebra, continua and retorna, whose conditions, operands and arguments print a trace; non-trivial: distinct source that executes at least 15 statements and prints something")
c.system()
base = dict(funcs=2, regs=0, unis=1, methods=0, globals_=3, depth=5, edepth=2, stmts=8, blk=4, reals=0, texts=0.3, vecs=0, opts=0, trace=0.5, loops=3, escolha=3, casts=0, fstr=0, unsafe=0, chain=0.3, shadow=0.1)
P = [
    base,
    {**base, "unis": 0, "iguala": 0, "seiguala": 0, "depth": 6, "trace": 0.3},
    {**base, "funcs": 4, "loops": 4, "trace": 0.3, "rec": 0.6},
    {**base, "iguala": 3, "vecs": 1, "texts": 1},
]
progs.campaign(c, c.scale(2200, 60000), P, budget=None, nontrivial=lambda p, it, e: it.steps >= 15 and e.out)
c.pmap(wide.job(c, ["jumps"], "w"), c.scale(3, 7), label="w")
c.assumptions = ["the reference interpreter (rt/lang.py), written from the language's documentation, is the oracle"]
c.finish()
