"""C10: vectors, by differential monitoring of histories of operations."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs
from rt.hist import Hist

c = Check("C10", "random histories of vector operations (creation, aliasing, reads, writes, compound and chained writes, anexa, remova, tam, loops, through functions and records) over shared and nested vectors of every element type, with everything printed after each few operations, half of them ended by an invalid index; non-trivial: distinct history with at least 10 operations whose contents were printed")
c.system()


def job(i, out, run):
    rng = c.rng("h", i)
    h = Hist(rng, vecs=True, regs=rng.choice([0, 0, 1, 2]), opts=rng.random() < 0.2, nest=rng.choice([1, 2, 2, 3]), unsafe=0.5, ops=rng.choice([12, 25, 40]))
    prog = h.program()
    for k, n in h.kinds.items():
        out.n["op " + k] += n
    progs.single(c, i, out, run, prog, rng, wild=0.15, limit=60000, nontrivial=lambda p, it, e: it.steps > 60 and e.out)


c.pmap(job, c.scale(1500, 40000))
c.pmap(wide.job(c, ["elements", "texts"], "w"), c.scale(4, 14), label="w")
c.assumptions = ["the reference interpreter (rt/lang.py), written from the language's documentation, is the oracle"]
c.finish()
