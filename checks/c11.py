"""C11: records and optional values, by differential monitoring of histories."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs
from rt.hist import Hist

c = Check("C11", "random histories of record operations (creation with fields in any order, aliasing, field writes, compound and chained writes, through nested fields, elements and functions) and of options (nulo, valor, valor_ou, comparisons), with everything printed after each few operations, some ended by the value of a null option; non-trivial: distinct history with at least 10 operations whose contents were printed")
c.system()


def job(i, out, run):
    rng = c.rng("h", i)
    h = Hist(rng, vecs=rng.random() < 0.5, regs=rng.choice([1, 2, 3, 4]), opts=rng.random() < 0.8, nest=2, unsafe=0.3, ops=rng.choice([12, 25, 40]))
    prog = h.program()
    for k, n in h.kinds.items():
        out.n["op " + k] += n
    progs.single(c, i, out, run, prog, rng, wild=0.15, limit=60000, nontrivial=lambda p, it, e: it.steps > 60 and e.out)


c.pmap(job, c.scale(1500, 40000))
# records and options in ordinary programs
base = dict(regs=2, unis=0, opts=3, vecs=0.6, methods=2, funcs=3, iguala=0, seiguala=0, escolha=0.3, trace=0, chain=2, casts=0.2, fstr=0.5)
progs.campaign(c, c.scale(500, 15000), [base], label="g", nontrivial=lambda p, it, e: it.steps >= 15 and e.out)
c.pmap(wide.job(c, ["fields", "records"], "w"), c.scale(4, 14), label="w")
c.assumptions = ["the reference interpreter (rt/lang.py), written from the language's documentation, is the oracle"]
c.finish()
