"""C08: variables and scopes, by differential monitoring of programs that give
writes unique values and print every visible variable at the end of blocks."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs

c = Check("C08", "random programs with nested blocks, shadowing declarations, loops, functions and pattern bindings; literal writes carry unique values and the visible variables are printed at the ends of blocks; non-trivial: distinct source, at least 15 statements executed, prints something")
c.system()
base = dict(rename=0.6, shadow=0.9, unique=1, dump=0.7, funcs=3, regs=1, unis=1, methods=0, globals_=6, depth=6, edepth=1, stmts=9, blk=5, reals=0, texts=0.4, vecs=0.3, opts=0, trace=0, loops=2.5, escolha=1, casts=0, fstr=0, unsafe=0, chain=1, seiguala=2, iguala=2)
P = [
    base,
    {**base, "funcs": 0, "globals_": 2, "depth": 7},
    {**base, "funcs": 5, "rec": 0.7, "calls": 2, "methods": 2, "regs": 1},
    {**base, "shadow": 0.5, "blk": 9, "stmts": 16, "texts": 1, "reals": 1},
    {**base, "iguala": 4, "seiguala": 4, "loops": 1.5},
]
progs.campaign(c, c.scale(2400, 60000), P, nontrivial=lambda p, it, e: it.steps >= 15 and e.out)

# Many variables: more slots than one byte can number, at the top level's
# blocks, in functions and in globals
from rt.lang import *
from rt import diff, lang


def many(i, out, run):
    rng = c.rng("many", i)
    n = rng.choice([3, 60, 120, 254, 255, 256, 257, 300, 600])
    kind = ["global", "topblock", "func", "param", "nest"][i % 5]
    st = []
    ds = []
    val = 0

    def decl(name, glob):
        nonlocal val
        val += 1
        d = Decl(name, INT, glob=glob)
        ds.append(d)
        return N("decl", None, [N("lit", INT, x=val)], d)

    def shows():
        o = []
        for k in range(0, len(ds), 8):
            parts = []
            for d in ds[k : k + 8]:
                parts += [" ", N("var", INT, x=d)]
            o.append(N("mostra", None, [N("fstr", TXT, ["@"] + parts[1:], '"')]))
        return o

    def writes():
        nonlocal val
        o = []
        for d in rng.sample(ds, min(len(ds), 20)):
            val += 1
            o.append(N("assign", None, [N("var", INT, x=d), N("lit", INT, x=val)]))
        return o

    if kind == "global":
        st = [decl(f"g{k}", True) for k in range(n)] + writes() + shows()
    elif kind == "topblock":
        body = [decl(f"l{k}", False) for k in range(n)] + writes() + shows()
        st = [N("se", None, [], ([(N("lit", BOOL, x=True), body)], None))]
    elif kind == "func":
        f = Func("f", [], VOID)
        f.body = [decl(f"l{k}", False) for k in range(n)] + writes() + shows()
        st = [N("func", None, [], f), N("expr", None, [N("call", VOID, [], f)]), N("expr", None, [N("call", VOID, [], f)])]
    elif kind == "param":
        n = min(n, 254)
        f = Func("f", [Decl(f"p{k}", INT) for k in range(n)], INT)
        ds.extend(f.params)
        f.body = writes() + [decl(f"l{k}", False) for k in range(40)] + shows() + [N("retorna", None, [N("var", INT, x=f.params[-1])], INT)]
        st = [N("func", None, [], f), N("mostra", None, [N("call", INT, [N("lit", INT, x=7000 + k) for k in range(n)], f)])]
    else:
        # nested blocks, each with its own variables of the same names
        depth = rng.choice([3, 8, 15])

        def blk(k):
            saved = list(ds)
            names = ["a", "b", "c"]
            b = [decl(x, False) for x in names]
            keep = list(ds)
            if k:
                b.append(N("se", None, [], ([(N("lit", BOOL, x=True), blk(k - 1))], None)))
            ds[:] = keep[-3:]
            b += shows() + writes() + shows()
            ds[:] = saved
            return b

        st = [N("se", None, [], ([(N("lit", BOOL, x=True), blk(depth))], None))]
    out.n["many_" + kind] += 1
    progs.single(c, i, out, run, st, rng, wild=0)


c.pmap(many, c.scale(60, 600), label="m")
c.pmap(wide.job(c, ["globals", "locals"], "w"), c.scale(4, 14), label="w")
c.assumptions = ["the reference interpreter (rt/lang.py), written from the language's documentation, is the oracle"]
c.finish()
