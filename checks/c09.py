"""C09: calls, by differential monitoring of call-heavy programs."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs
from rt.lang import *

c = Check("C09", "random programs dense in functions, methods and recursion called from inside expressions; calls with 0 to 255 arguments; several types with methods of the same names; recursion around the limit of 1000 activations; non-trivial: distinct source in which at least 4 calls were executed")
c.system()
base = dict(funcs=6, methods=3, regs=1, unis=1, calls=4, rec=0.4, globals_=4, depth=3, edepth=3, stmts=9, blk=3, trace=0.15, unsafe=0, loops=0.8, iguala=0.6, casts=0.5, shadow=0.4)
P = [
    base,
    {**base, "methods": 6, "funcs": 2},
    {**base, "opts": 0, "vecs": 0, "texts": 0.2, "edepth": 4, "rec": 0.6},
    {**base, "methods": 0, "regs": 0, "unis": 0, "funcs": 9, "edepth": 4},
]
progs.campaign(c, c.scale(1700, 50000), P, nontrivial=lambda p, it, e: it.calls >= 4)


def L(v):
    return N("lit", INT, x=v) if v >= 0 else N("un", INT, [N("lit", INT, x=-v)], "-")


def V(d):
    return N("var", d.ty, x=d)


def fshow(tag, *es):
    parts = [tag]
    for e in es:
        parts += [" ", e]
    return N("mostra", None, [N("fstr", TXT, parts, '"')])


def arity(i, out, run):
    """every parameter gets the argument of its position, whatever is pending"""
    rng = c.rng("arity", i)
    n = [0, 1, 2, 3, 5, 8, 16, 31, 64, 127, 128, 200, 253, 254][i % 14]
    meth = i % 3 == 2
    tys = [rng.choice([INT, INT, TXT, BOOL, REAL]) for _ in range(n)]
    ps = [Decl(f"p{k}", t) for k, t in enumerate(tys)]
    f = Func("f", ps, INT)
    body = []
    for k in range(rng.choice([0, 1, 7, 40])):
        d = Decl(f"l{k}", INT)
        body.append(N("decl", None, [L(900 + k)], d))
        if rng.random() < 0.3:
            body.append(fshow("l", V(d)))
    st = []
    if meth:
        T = Reg("R", [("w", INT)])
        f.recv = T
        f.alvo = Decl("alvo", T, ro=True)
        st.append(N("reg", None, [], T))
        body.append(fshow("alvo", N("fld", INT, [N("alvo", T, x=f.alvo)], "w")))
    for k in range(0, n, 6):
        body.append(fshow(f"p{k}", *[V(d) for d in ps[k : k + 6]]))
    ints = [d for d in ps if d.ty == INT]
    ret = L(5)
    for d in ints[:12]:
        ret = N("bin", INT, [N("bin", INT, [ret, L(3)], "*"), V(d)], "+")
    body.append(N("retorna", None, [N("bin", INT, [ret, L(1000003)], "%")], INT))
    f.body = body
    st.append(N("func", None, [], f))
    cnt = [0]

    def lit(t):
        cnt[0] += 1
        k = cnt[0]
        if t == REAL and rng.random() < 0.5:
            return L(k)
        return {INT: L(k), REAL: N("lit", REAL, x=k + 0.5), TXT: N("lit", TXT, x=f"t{k}"), BOOL: N("lit", BOOL, x=k % 3 == 0)}[t]

    def call(depth):
        args = []
        for t in tys:
            if t == INT and depth and rng.random() < 3 / (n + 1):
                args.append(N("bin", INT, [L(rng.randint(1, 9)), call(depth - 1)], "+"))
            else:
                args.append(lit(t))
        if meth:
            cnt[0] += 1
            recv = N("new", f.recv, [L(cnt[0])], (f.recv, ["w"]))
            return N("mcall", INT, [recv, *args], f)
        return N("call", INT, args, f)

    g = Decl("g", INT, glob=True)
    st.append(N("decl", None, [call(2 if n < 40 else 1)], g))
    st.append(N("mostra", None, [V(g)]))
    # from within a vector, an f-string, a condition and another call
    st.append(N("mostra", None, [N("veclit", VEC(INT), [L(1), call(0), L(2), call(1), L(3)])]))
    st.append(N("se", None, [], ([(N("bin", BOOL, [call(0), call(0)], "<"), [N("mostra", None, [L(1)])])], [N("mostra", None, [L(2)])])))
    st.append(N("expr", None, [call(0)]))
    w = Decl("w", INT)
    st.append(N("para", None, [L(0), L(2)], (w, [N("assign", None, [V(g), N("bin", INT, [N("bin", INT, [V(g), call(0)], "+"), V(w)], "-")]), N("mostra", None, [V(g)])])))
    out.n["arity_cases"] += 1
    progs.single(c, i, out, run, st, rng, wild=0.2, limit=100000)


def names(i, out, run):
    """methods of the same name on several types, and a function and fields
    of that name: the receiver's type selects"""
    rng = c.rng("names", i)
    st = []
    types = []
    for k in range(rng.randint(2, 4)):
        if rng.random() < 0.6:
            t = Reg(f"T{k}", [("w", INT), (rng.choice(["soma", "ver", "z"]) + "x", INT)])
            st.append(N("reg", None, [], t))
        else:
            t = Uni(f"U{k}", [("A", [INT]), ("B", [])])
            st.append(N("uni", None, [], t))
        types.append(t)
    types += rng.sample([INT, REAL, BOOL, TXT], rng.randint(1, 3))
    mnames = ["soma", "ver", "dobro"][: rng.randint(1, 3)]
    fn = {}
    ms = {}
    order = []
    for m in mnames:
        if rng.random() < 0.7:
            order.append(("f", m, None))
        for t in types:
            if rng.random() < 0.85:
                order.append(("m", m, t))
    rng.shuffle(order)
    tag = 0
    for kind, m, t in order:
        tag += 1
        d = Decl("k", INT)
        f = Func(m, [d], INT)
        if kind == "m":
            f.recv, f.alvo = t, Decl("alvo", t, ro=True)
            al = N("alvo", t, x=f.alvo)
            b = []
            if isinstance(t, Reg):
                b.append(fshow(f"{m}@{t.name}", N("fld", INT, [al], "w"), V(d)))
            elif isinstance(t, Uni):
                x = Decl("q", INT)
                pa = N("p_var", t, [N("p_bind", INT, x=x)], "A")
                pb = N("p_var", t, [], "B")
                pa.tag = pb.tag = t
                b.append(N("iguala", None, [al], [(pa, "block", [fshow(f"{m}@{t.name}.A", V(x), V(d))]), (pb, "block", [fshow(f"{m}@{t.name}.B", V(d))])]))
            else:
                b.append(fshow(f"{m}@{t}", al, V(d)))
            ms[m, t] = f
        else:
            b = [fshow(f"{m}@func", V(d))]
            fn[m] = f
        # sometimes calls one already declared, on another receiver
        f.body = b
        b.append(N("retorna", None, [N("bin", INT, [V(d), L(tag)], "+")], INT))
        st.append(N("func", None, [], f))
    n = [10]

    def value(t):
        n[0] += 1
        if isinstance(t, Reg):
            return N("new", t, [L(n[0]), L(n[0] + 500)], (t, [x for x, _ in t.fields]))
        if isinstance(t, Uni):
            return N("variant", t, [L(n[0])], (t, "A")) if rng.random() < 0.6 else N("variant", t, [], (t, "B"))
        return {INT: L(n[0]), REAL: N("lit", REAL, x=n[0] + 0.25), BOOL: N("lit", BOOL, x=True), TXT: N("lit", TXT, x=f"s{n[0]}")}[t]

    vs = {}
    for t in types:
        d = Decl(f"v{len(vs)}", t, glob=True)
        st.append(N("decl", None, [value(t)], d))
        vs[t] = d

    def anycall(depth):
        n[0] += 1
        a = anycall(depth - 1) if depth and rng.random() < 0.5 else L(n[0])
        ks = list(fn) + list(ms)
        k = rng.choice(ks)
        if isinstance(k, tuple):
            t = k[1]
            recv = V(vs[t]) if rng.random() < 0.6 or isinstance(t, str) else value(t)
            return N("mcall", INT, [recv, a], ms[k])
        return N("call", INT, [a], fn[k])

    if not fn and not ms:
        return
    for _ in range(rng.randint(6, 14)):
        e = anycall(3)
        st.append(N("mostra", None, [N("bin", INT, [L(1), e], "+")]))
    out.n["same_name_cases"] += 1
    progs.single(c, i, out, run, st, rng, wild=0.3)


def depth(i, out, run):
    """recursion around the limit, from different frames"""
    rng = c.rng("depth", i)
    n = Decl("n", INT)
    variant = ["plain", "operand", "method", "via", "locals", "loop"][i % 6]
    d = [900, 990, 995, 996, 997, 998, 999, 1000, 1001, 1500][(i // 6) % 10]
    f = Func("f", [n], INT)
    st = []
    stop = N("se", None, [], ([(N("bin", BOOL, [V(n), L(0)], "<="), [N("retorna", None, [L(0)], INT)])], None))
    less = N("bin", INT, [V(n), L(1)], "-")
    rec = N("call", INT, [less], f)
    if variant == "plain":
        f.body = [stop, N("retorna", None, [N("bin", INT, [rec, L(1)], "+")], INT)]
    elif variant == "operand":
        f.body = [stop, N("retorna", None, [N("bin", INT, [L(1), N("bin", INT, [rec, N("bin", INT, [L(2), L(3)], "*")], "+")], "+")], INT)]
    elif variant == "locals":
        k = rng.choice([3, 30, 200])
        ls = [Decl(f"l{j}", INT) for j in range(k)]
        r = Decl("r", INT)
        f.body = [N("decl", None, [N("bin", INT, [V(n), L(j)], "+")], x) for j, x in enumerate(ls)]
        f.body += [stop, N("decl", None, [rec], r), N("retorna", None, [N("bin", INT, [V(r), N("bin", INT, [V(ls[0]), V(ls[-1])], "-")], "+")], INT)]
    elif variant == "loop":
        w = Decl("w", INT)
        acc = Decl("acc", INT)
        f.body = [stop, N("decl", None, [L(0)], acc), N("para", None, [L(0), L(1)], (w, [N("assign", None, [V(acc), rec], "+")])), N("retorna", None, [N("bin", INT, [V(acc), L(1)], "+")], INT)]
    elif variant == "method":
        T = Reg("R", [("w", INT)])
        st.append(N("reg", None, [], T))
        f.recv, f.alvo = T, Decl("alvo", T, ro=True)
        rec = N("mcall", INT, [N("alvo", T, x=f.alvo), less], f)
        f.body = [stop, N("retorna", None, [N("bin", INT, [rec, N("fld", INT, [N("alvo", T, x=f.alvo)], "w")], "+")], INT)]
    else:
        f.body = [stop, N("retorna", None, [N("bin", INT, [rec, L(1)], "+")], INT)]
    st.append(N("func", None, [], f))

    def start(k):
        if variant == "method":
            return N("mcall", INT, [N("new", f.recv, [L(1)], (f.recv, ["w"])), L(k)], f)
        return N("call", INT, [L(k)], f)

    if variant == "via":
        # a chain of other functions on top of it
        h = f
        for j in range(rng.choice([1, 3, 10])):
            m = Decl("m", INT)
            h2 = Func(f"h{j}", [m], INT)
            h2.body = [N("retorna", None, [N("bin", INT, [N("call", INT, [V(m)], h), L(1)], "+")], INT)]
            st.append(N("func", None, [], h2))
            h = h2
        st.append(N("mostra", None, [N("call", INT, [L(d)], h)]))
    else:
        # the limit is about active calls, not about the calls made
        for _ in range(3):
            st.append(N("mostra", None, [start(min(d, 600))]))
        st.append(N("mostra", None, [N("bin", INT, [L(7), start(d)], "+")]))
    st.append(N("mostra", None, [start(10)]))
    out.n["depth_cases"] += 1
    progs.single(c, i, out, run, st, rng, wild=0, limit=3000000)


c.pmap(arity, c.scale(84, 1400), label="a")
c.pmap(names, c.scale(300, 8000), label="n")
c.pmap(depth, c.scale(60, 240), label="d")
c.pmap(wide.job(c, ["functions", "methods"], "w"), c.scale(2, 8), label="w")
c.assumptions = ["the reference interpreter (rt/lang.py), written from the language's documentation, is the oracle"]
c.finish()
