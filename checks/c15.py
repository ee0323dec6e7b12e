"""C15: runtime errors, by differential monitoring of programs that are made
to fail at a random place."""
import _boot
import os
import shutil
from rt.check import Check
from rt import progs, diff, shrink, lang
from rt.gen import Gen
from rt.mods import World
from rt.lang import *

c = Check("C15", "random programs (one file, or graphs of modules) in which a random expression or instruction, at any nesting and call depth, was replaced by one that fails: every kind of runtime error, in loose random layouts, after up to thousands of lines; the error's message, the list of active functions and every line are compared with the reference interpreter's, as are the output kept and the exit status; non-trivial: distinct program that stopped with an error")
c.system()


def L(v):
    return N("lit", INT, x=v) if v >= 0 else N("un", INT, [N("lit", INT, x=-v)], "-")


def T(s):
    return N("lit", TXT, x=s)


def V(d):
    return N("var", d.ty, x=d)


def vec(r, n):
    return N("veclit", VEC(INT), [L(r.randint(0, 9)) for _ in range(n)])


class Faults:
    """Declarations and expressions that fail"""

    def __init__(self, r, tag=""):
        self.r = r
        self.decls = []
        # descends without end
        n = Decl("n", INT)
        f = Func("sem_fim" + tag, [n], INT)
        f.body = [N("retorna", None, [N("bin", INT, [N("call", INT, [N("bin", INT, [V(n), L(1)], "+")], f), L(1)], "+")], INT)]
        self.deep = f
        # fails after some calls
        n, k = Decl("n", INT), Decl("k", INT)
        g = Func("desce" + tag, [n, k], INT)
        g.body = [
            N("se", None, [], ([(N("bin", BOOL, [V(n), L(0)], "<="), [N("retorna", None, [N("bin", INT, [L(7), V(k)], "//")], INT)])], None)),
            N("mostra", None, [V(n)]),
            N("retorna", None, [N("bin", INT, [N("call", INT, [N("bin", INT, [V(n), L(1)], "-"), V(k)], g), V(n)], "+")], INT),
        ]
        self.down = g
        al = Decl("alvo", INT, ro=True)
        m = Func("falha" + tag, [Decl("p", TXT)], INT, recv=INT)
        m.alvo = al
        m.body = [
            N("mostra", None, [V(m.params[0])]),
            N("retorna", None, [N("bin", INT, [N("alvo", INT, x=al), N("cast", INT, [V(m.params[0])])], "+")], INT),
        ]
        self.met = m
        self.opt = Decl("vazio_o" + tag, OPT(INT), glob=True)
        self.decls = [N("func", None, [], f), N("func", None, [], g), N("func", None, [], m), N("decl", None, [N("lit", "nulo", x=None)], self.opt)]

    def make(self, r, inner=None):
        """an int expression that fails; inner: an expression it can use"""
        e = inner or L(r.randint(0, 9))
        k = r.randrange(15)
        if k == 0:
            return N("bin", INT, [e, N("bin", INT, [L(3), L(3)], "-")], "//")
        if k == 1:
            return N("bin", INT, [e, L(0)], "%")
        if k == 2:
            return N("bin", INT, [L(I_MAX), N("bin", INT, [N("bin", INT, [L(3), L(1)], "*"), L(1)], "+")], "+")
        if k == 3:
            return N("bin", INT, [L(I_MAX), L(r.randint(2, 9))], "*")
        if k == 4:
            return N("bin", INT, [L(-I_MAX), L(r.randint(2, 9))], "-")
        if k == 5:
            return N("idx", INT, [vec(r, 3), L(r.choice([3, 4, 100]))])
        if k == 6:
            return N("idx", INT, [vec(r, 2), L(-r.randint(1, 9))])
        if k == 7:
            return N("remova", INT, [vec(r, 2), L(r.choice([2, 9, -1]))])
        if k == 8:
            return N("cast", INT, [T(r.choice(["abc", "", "1.5", "9" * 19, " 1", "--1"]))])
        if k == 9:
            return N("valor", INT, [V(self.opt)])
        if k == 10:
            return N("tam", INT, [N("idx", TXT, [T("olá"), L(r.choice([3, 8, -2]))])])
        if k == 11:
            return N("cast", INT, [N("bin", REAL, [e, N("lit", REAL, x=0.0)], r.choice(["/", "//", "%"]))])
        if k == 12:
            return N("call", INT, [L(r.randint(0, 12)), L(0)], self.down)
        if k == 13:
            return N("mcall", INT, [L(r.randint(0, 9)), T("x")], self.met)
        if r.random() < 0.4:
            return N("call", INT, [L(0)], self.deep)
        return N("tam", INT, [N("vecnew", VEC(INT), [L(-r.randint(1, 5))], INT)])


def places(body):
    """(statement lists, (parent, index) of replaceable int expressions)"""
    ls = []
    shrink.lists(body, ls)
    args = {id(n.a) for n in shrink.allnodes(body, [])}
    ls = [l for l in ls if l and l[0].k in shrink.STMT and id(l) not in args]
    es = []
    for p in shrink.allnodes(body, []):
        if p.k.startswith("p_") or p.k in ("decl_x",):
            continue
        for i, ch in enumerate(p.a):
            if isinstance(ch, N) and ch.ty == INT:
                if p.k == "assign" and i < len(p.a) - 1:
                    continue
                if p.k == "fstr" or ch.k.startswith("p_"):
                    continue
                es.append((p, i))
    return ls, es


def plant(r, body, fl):
    ls, es = places(body)
    es = [x for x in es if not inside_fstr(body, x)]
    if es and r.random() < 0.65:
        p, i = r.choice(es)
        p.a[i] = fl.make(r, p.a[i] if r.random() < 0.5 else None)
        return "expression"
    l = r.choice(ls)
    e = fl.make(r)
    k = r.randrange(4)
    if k == 0:
        s = N("expr", None, [e])
    elif k == 1:
        s = N("mostra", None, [e])
    elif k == 2:
        s = N("decl", None, [e], Decl("nova_zz", INT))
    else:
        s = N("se", None, [], ([(N("bin", BOOL, [e, L(1)], "=="), [N("mostra", None, [L(1)])])], None))
    # not after what leaves the block
    end = len(l)
    for j, x in enumerate(l):
        if x.k in ("retorna", "quebra", "continua", "produz"):
            end = j
            break
    l.insert(r.randint(0, end), s)
    return "instruction"


FS = {}


def inside_fstr(body, x):
    key = id(body)
    if FS.get("k") != key:
        ids = set()
        for n in shrink.allnodes(body, []):
            if n.k == "fstr":
                for m in shrink.allnodes(n.a, []):
                    ids.add(id(m))
        FS["k"], FS["v"] = key, ids
    return id(x[0]) in FS["v"]


OWN = ("error-location", "error-format", "missing-error", "wrong-error", "spurious-error", "stderr", "crash")


def own(d, r):
    return d[0].split(":")[0] in OWN or (d[0] == "output" and b"Erro na linha" in r.err)


P = [
    dict(funcs=4, depth=3, edepth=3, stmts=8, unsafe=0.02),
    dict(funcs=6, methods=2, calls=3, rec=0.5, depth=2, stmts=7, unsafe=0.01, trace=0.25),
    dict(funcs=2, depth=4, blk=4, loops=1.5, iguala=1.5, escolha=1.5, stmts=6, unsafe=0.01),
    dict(funcs=1, depth=1, edepth=4, stmts=12, unsafe=0.03, regs=1),
]


def one(i, out, run):
    r = c.rng("p", i)
    FS.clear()
    g = Gen(r, **P[i % len(P)])
    prog = g.program()
    fl = Faults(r)
    for _ in range(r.choice([1, 2, 3, 5])):
        FS.clear()
        where = plant(r, prog, fl)
    if i % 19 == 0:
        # far into a long file
        pad = [N("assign", None, [V(fl_pad), L(k)], None) for k in range(r.choice([300, 2000, 9000]))]
        prog = [N("decl", None, [L(0)], fl_pad)] + pad + prog
    prog = fl.decls + prog
    k = progs.single(c, i, out, run, prog, r, wild=0.7, only=own, nontrivial=lambda p, it, e: e.err is not None, limit=40000)
    out.n["planted in an " + where] += 1


fl_pad = Decl("enche", INT, glob=True)


def graph(i, out, run):
    r = c.rng("g", i)
    FS.clear()
    w = World(r, profile=dict(trace=0.05))
    order = w.order()
    m = r.choice(order)
    fl = Faults(r, "_z")
    for _ in range(r.choice([1, 2, 3])):
        FS.clear()
        plant(r, m.body, fl)
    m.body[:0] = fl.decls
    exp, it = diff.reference(w.programs(), "", 40000)
    out.n["evaluations"] += 1
    if exp is None:
        out.n["discarded_too_long_or_open"] += 1
        return
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    os.makedirs(os.path.join(run.dir, "sub"))
    files = w.files(r.random(), wild=0.5)
    if exp.err:
        out.seen("\0".join(files.values()))
        out.n["errors in graphs of modules"] += 1
        out.n["error while " + ("an imported module" if m is not order[-1] else "the main module") + " had the fault"] += 1
    progs.judge(c, out, run, None, exp, files, only=own)


c.pmap(one, c.scale(1500, 40000))
c.pmap(graph, c.scale(420, 10000), label="g")
c.assumptions = ["a construct written over several lines may be attributed to any of them", "the reference interpreter rt/lang.py"]
c.finish()
