"""C06: expressions, by differential monitoring over boundary operands."""
import _boot
import os
import struct
from rt.check import Check
from rt import progs, diff, lang
from rt.gen import Gen
from rt.lang import *

c = Check("C06", "every operator over pairs of boundary and random operands (ints around the limits, reals including infinities, NaN, both zeros, denormals and halves, texts that look like numbers), which reach the operator as literals, variables, fields, elements, results and parameters, alone and inside larger expressions; every conversion; every place where an int becomes a real; random expression trees; non-trivial: distinct source")
c.system()

INTS = [0, 1, -1, 2, -2, 3, 7, 9, 10, -10, 127, 128, 255, 256, 2**15, 2**16, 2**31 - 1, 2**31, -(2**31), 2**32, 2**32 + 1, 2**52, 2**53 - 1, 2**53, 2**53 + 1, -(2**53) - 1, 2**62, -(2**62), 2**62 + 1, 3037000499, 3037000500, -3037000500, I_MAX, I_MAX - 1, -I_MAX, I_MIN, I_MIN + 1, I_MAX // 2, I_MAX // 2 + 1, I_MAX // 3, 10**18, 999999999999999999]
REALS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 0.2, 0.3, 1 / 3, 2.0, 3.0, 7.0, -7.0, 10.0, 1e15, 1e16, 123456789.125, 2.0**31, 2.0**53, 2.0**53 + 2, 2.0**62, 2.0**63, -(2.0**63), 2.0**64, 1e18, 9.3e18, 1e19, 1e100, -1e100, 1e308, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324, 1e-7, 1e-5, float("inf"), float("-inf"), float("nan"), 0.9999999999999999, 4.35, 2.675]
NUMTXT = ["0", "12", "-7", "+3", "007", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "1.5", "-2", "1e3", ".5", "7.", "", " 1", "1 ", "abc", "--1", "+", "-", "1_000", "inf", "-inf", "NaN", "infinity", "1e400", "1e-400", "0x10", "verdadeiro", "falso", "٣", "1,5", "½", "e5", "1e", "-0", "-0.0", "00.10", " ", "   ", "\t", "\u00a0", "\u200b", "\n", "0 ", "\t7", "1\n", "true", "nulo", "nao", "0.0", "+inf", "iNf", "1e+5", "1E5", "+.5", "1.e2", "١٢", "12a", "0b1", "_1", "1 2", "९"]


def L(v):
    if isinstance(v, bool):
        return N("lit", BOOL, x=v)
    if isinstance(v, str):
        return N("lit", TXT, x=v)
    if isinstance(v, int):
        if v == I_MIN:
            return N("bin", INT, [L(-I_MAX), L(1)], "-")
        return N("lit", INT, x=v) if v >= 0 else N("un", INT, [N("lit", INT, x=-v)], "-")
    if v != v or abs(v) == math.inf or (v and not 1e-6 < abs(v) < 1e20) or struct.pack("d", v) == struct.pack("d", -0.0):
        return N("cast", REAL, [N("lit", TXT, x="nan" if v != v else repr(v))])
    return N("lit", REAL, x=v) if v >= 0 else N("un", REAL, [N("lit", REAL, x=-v)], "-")


def V(d):
    return N("var", d.ty, x=d)


def ty(v):
    return BOOL if isinstance(v, bool) else INT if isinstance(v, int) else REAL if isinstance(v, float) else TXT


class Prog:
    """Collects declarations that carry values to where they are used"""

    def __init__(self, r):
        self.r = r
        self.decls, self.k = [], 0
        self.funcs = {}
        self.regs = {}
        for t in (INT, REAL, BOOL, TXT):
            p = Decl("p", t)
            f = Func(f"id_{t}", [p], t)
            f.body = [N("retorna", None, [V(p)], t)]
            self.funcs[t] = f
            R = Reg(f"C_{t}", [("c", t)])
            self.regs[t] = R
            self.decls += [N("func", None, [], f), N("reg", None, [], R)]

    def name(self):
        self.k += 1
        return f"v{self.k}"

    def glob(self, t, e):
        d = Decl(self.name(), t, glob=True)
        self.decls.append(N("decl", None, [e], d))
        return d

    def val(self, v, t=None):
        """an expression with that value"""
        t = t or ty(v)
        k = self.r.randrange(9)
        e = L(v)
        if k <= 2:
            return e
        if k == 3:
            return V(self.glob(t, e))
        if k == 4:
            return N("call", t, [e], self.funcs[t])
        if k == 5:
            R = self.regs[t]
            return N("fld", t, [V(self.glob(R, N("new", R, [e], (R, ["c"]))))], "c")
        if k == 6:
            return N("idx", t, [V(self.glob(VEC(t), N("veclit", VEC(t), [e])))], None) if False else N("idx", t, [V(self.glob(VEC(t), N("veclit", VEC(t), [e]))), L(0)])
        if k == 7:
            return N("valor", t, [V(self.glob(OPT(t), e))])
        x = Decl(self.name(), t)
        return N("iguala", t, [L(1)], [(N("p_any", INT), "expr", e)])


def binops(a, b):
    ta, tb = ty(a), ty(b)
    if ta in (INT, REAL) and tb in (INT, REAL):
        return ["+", "-", "*", "/", "//", "%", "<", "<=", ">", ">=", "==", "!="]
    if ta == tb == BOOL:
        return ["e", "ou", "==", "!="]
    if ta == tb == TXT:
        return ["==", "!="]
    return []


def outcome(op, a, b):
    """error category or None; 'open' when the language leaves it open"""
    try:
        show(Interp().binop(op, a, b, ty(a), ty(b), None))
    except RtErr as e:
        return e.cat
    except (Unspecified, OverflowError):
        return "open"
    return None


def operand(r, t):
    x = r.random()
    if t == INT:
        if x < 0.75:
            return r.choice(INTS)
        if x < 0.9:
            return max(I_MIN, min(I_MAX, r.choice(INTS) + r.randint(-3, 3)))
        return r.randint(I_MIN, I_MAX)
    if t == REAL:
        if x < 0.75:
            return r.choice(REALS)
        if x < 0.85:
            return r.randint(-10000, 10000) / r.choice([1, 2, 4, 10, 100, 3])
        v = struct.unpack("d", struct.pack("Q", r.getrandbits(64)))[0]
        return v
    if t == BOOL:
        return r.random() < 0.5
    if x < 0.15:
        return "".join(r.choice("0123456789+-.eE_ \txinfNa") for _ in range(r.randint(1, 7)))
    if x < 0.25:
        s = r.choice(NUMTXT) or "5"
        k = r.randint(0, len(s))
        return s[:k] + r.choice(" \t+-.0e\u00a0\n") + s[k:]
    return r.choice(NUMTXT + ["a", "b", "ab", "olá", "ola", "Á", "A"])


def finish(c, i, out, run, P, body, label):
    r = P.r
    prog = P.decls + body
    if r.random() < 0.4:
        # everything inside of a function
        f = Func("tudo", [], VOID)
        f.body = body
        prog = P.decls + [N("func", None, [], f), N("expr", None, [N("call", VOID, [], f)])]
    progs.single(c, i, out, run, prog, r, wild=0.15, parens=0.15, lines=False, limit=200000)


def table(i, out, run):
    """one kind of operands, all its operators"""
    r = c.rng("t", i)
    P = Prog(r)
    body = []
    ts = [(INT, INT), (INT, INT), (INT, REAL), (REAL, INT), (REAL, REAL), (BOOL, BOOL), (TXT, TXT)][i % 7]
    err = i % 3 == 2
    bad = []
    for _ in range(40):
        a, b = operand(r, ts[0]), operand(r, ts[1])
        if r.random() < 0.2 and ts[0] == ts[1]:
            b = a
        for op in binops(a, b):
            o = outcome(op, a, b)
            if o == "open":
                continue
            if o:
                bad.append((op, a, b))
                continue
            e = N("bin", bin_type(op, ts[0], ts[1]), [P.val(a), P.val(b)], op)
            out.n[f"op {op} {ts[0]} {ts[1]}"] += 1
            form = r.random()
            if form < 0.75 or e.ty in (BOOL, TXT):
                body.append(N("mostra", None, [e]))
            elif op in "+-*/" and (ts[0] == e.ty) and e.ty != BOOL:
                d = Decl(P.name(), e.ty)
                body += [N("decl", None, [e.a[0]], d), N("assign", None, [V(d), e.a[1]], op), N("mostra", None, [V(d)])]
                out.n["compound " + op] += 1
            else:
                body.append(N("mostra", None, [N("cast", TXT, [e])]))
    if err and bad:
        op, a, b = r.choice(bad)
        out.n["error case " + op] += 1
        body.append(N("mostra", None, [N("bin", bin_type(op, ty(a), ty(b)), [P.val(a), P.val(b)], op)]))
        body.append(N("mostra", None, [L("não chega aqui")]))
    finish(c, i, out, run, P, body, "table")


def error_case(i, out, run):
    """an operation with no value"""
    r = c.rng("e", i)
    P = Prog(r)
    for _ in range(300):
        t1, t2 = r.choice([(INT, INT), (INT, INT), (INT, REAL), (REAL, INT), (REAL, REAL)])
        a, b = operand(r, t1), operand(r, t2)
        if r.random() < 0.3:
            b = r.choice([0, 0.0, -0.0]) if t2 == REAL else 0
            if t2 == INT:
                b = 0
            else:
                b = float(b)
        op = r.choice(binops(a, b))
        o = outcome(op, a, b)
        if o and o != "open":
            break
    else:
        return
    out.n[f"error case {op} {t1} {t2}"] += 1
    e = N("bin", bin_type(op, ty(a), ty(b)), [P.val(a), P.val(b)], op)
    if r.random() < 0.15:
        e = N("un", INT, [P.val(I_MIN, INT)], "-")
    k = r.random()
    if k < 0.5:
        s = [N("mostra", None, [e])]
    elif k < 0.7:
        s = [N("expr", None, [e])]
    elif k < 0.85 or e.k == "un":
        d = Decl(P.name(), e.ty)
        s = [N("decl", None, [e], d)]
    else:
        d = Decl(P.name(), e.ty)
        if op in ("+", "-", "*", "/") and t1 == e.ty:
            s = [N("decl", None, [e.a[0]], d), N("assign", None, [V(d), e.a[1]], op)]
        else:
            s = [N("mostra", None, [e])]
    body = [N("mostra", None, [L("antes")]), *s, N("mostra", None, [L("depois")])]
    finish(c, i, out, run, P, body, "error")


def casts(i, out, run):
    r = c.rng("c", i)
    P = Prog(r)
    body = []
    last = None
    for _ in range(60):
        t = r.choice([INT, REAL, BOOL, TXT, TXT])
        v = operand(r, t)
        to = r.choice([x for x in (INT, REAL, BOOL, TXT) if x != t and not (t == BOOL and x in (INT, REAL)) or x == TXT and t != TXT])
        e = N("cast", to, [P.val(v)])
        try:
            Interp().do_cast(v, to, None)
        except RtErr:
            last = e
            continue
        except Unspecified:
            continue
        out.n[f"cast {t} to {to}"] += 1
        body.append(N("mostra", None, [e]))
        if r.random() < 0.2 and t in (INT, REAL):
            body.append(N("mostra", None, [N("un", t, [P.val(v)], "-")])) if v != I_MIN else None
            body.append(N("mostra", None, [N("un", t, [P.val(v)], "+")]))
        if r.random() < 0.2 and t == BOOL:
            body.append(N("mostra", None, [N("un", BOOL, [P.val(v)], "nao")]))
    if last is not None and r.random() < 0.6:
        out.n["invalid cast"] += 1
        body.append(N("mostra", None, [last]))
        body.append(N("mostra", None, [L("não chega aqui")]))
    finish(c, i, out, run, P, body, "casts")


def promote(i, out, run):
    """an int where a real is expected"""
    r = c.rng("r", i)
    P = Prog(r)
    body = []
    F = Reg("F", [("a", REAL), ("o", OPT(REAL)), ("v", VEC(REAL))])
    U = Uni("U", [("Um", [REAL]), ("Dois", [INT, REAL])])
    p, q = Decl("p", REAL), Decl("q", INT)
    f = Func("f", [p, q], REAL)
    f.body = [N("mostra", None, [V(p)]), N("se", None, [], ([(N("bin", BOOL, [V(q), L(0)], "<"), [N("retorna", None, [V(q)], REAL)])], None)), N("retorna", None, [N("iguala", INT, [V(q)], [(N("p_any", INT), "expr", V(q))])], REAL)]
    op_ = Decl("p", OPT(REAL))
    fo = Func("fo", [op_], OPT(REAL))
    fo.body = [N("mostra", None, [V(op_)]), N("retorna", None, [L(3)], OPT(REAL))]
    al = Decl("alvo", REAL, ro=True)
    mp = Decl("x", REAL)
    m = Func("m", [mp], REAL, recv=REAL)
    m.alvo = al
    m.body = [N("mostra", None, [V(mp)]), N("retorna", None, [N("bin", REAL, [V(mp), N("alvo", REAL, x=al)], "+")], REAL)]
    P.decls += [N("reg", None, [], F), N("uni", None, [], U)] + [N("func", None, [], x) for x in (f, fo, m)]

    def iv():
        v = r.choice([0, 1, -1, 3, 100, 2**53, 2**53 + 1, -(2**60), I_MAX, 10**15, 10**16, 123456])
        return P.val(v, INT)

    def show(e):
        body.append(N("mostra", None, [e]))
        # being a real shows in the division and in the text
        if isinstance(e.ty, str):
            body.append(N("mostra", None, [N("bin", REAL, [e, N("lit", REAL, x=2.0)], "//")]))

    for k in r.sample(range(14), 9):
        out.n[f"promotion {k}"] += 1
        if k == 0:
            d = Decl(P.name(), REAL)
            body.append(N("decl", None, [iv()], d))
            show(V(d))
        elif k == 1:
            d = Decl(P.name(), REAL)
            body += [N("decl", None, [], d), N("assign", None, [V(d), iv()], None)]
            show(V(d))
        elif k == 2:
            body.append(N("mostra", None, [N("call", REAL, [iv(), iv()], f)]))
        elif k == 3:
            d = Decl(P.name(), F)
            body.append(N("decl", None, [N("new", F, [iv(), iv(), N("veclit", VEC(REAL), [iv(), L(1.5), iv()])], (F, ["a", "o", "v"]))], d))
            show(N("fld", REAL, [V(d)], "a"))
            show(N("fld", VEC(REAL), [V(d)], "v"))
            show(N("valor", REAL, [N("fld", OPT(REAL), [V(d)], "o")]))
            body.append(N("assign", None, [N("fld", REAL, [V(d)], "a"), iv()], None))
            show(N("fld", REAL, [V(d)], "a"))
            body.append(N("assign", None, [N("fld", OPT(REAL), [V(d)], "o"), iv()], None))
            show(N("valor", REAL, [N("fld", OPT(REAL), [V(d)], "o")]))
            body.append(N("assign", None, [N("idx", REAL, [N("fld", VEC(REAL), [V(d)], "v"), L(1)]), iv()], None))
            show(N("idx", REAL, [N("fld", VEC(REAL), [V(d)], "v"), L(1)]))
        elif k == 4:
            d = Decl(P.name(), OPT(REAL))
            body.append(N("decl", None, [iv()], d))
            show(N("valor", REAL, [V(d)]))
            body.append(N("assign", None, [V(d), iv()], None))
            show(N("valor", REAL, [V(d)]))
            body.append(N("assign", None, [V(d), N("lit", "nulo", x=None)], None))
            show(N("valor_ou", REAL, [V(d), iv()]))
        elif k == 5:
            d = Decl(P.name(), VEC(REAL))
            body.append(N("decl", None, [N("veclit", VEC(REAL), [])], d))
            body.append(N("expr", None, [N("anexa", VOID, [V(d), iv()])]))
            show(V(d))
            body.append(N("assign", None, [N("idx", REAL, [V(d), L(0)]), iv()], None))
            show(V(d))
        elif k == 6:
            d, x = Decl(P.name(), U), Decl("xx", REAL)
            y = Decl("yy", REAL)
            e = N("variant", U, [iv()], (U, "Um")) if r.random() < 0.5 else N("variant", U, [L(1), iv()], (U, "Dois"))
            body.append(N("decl", None, [e], d))
            p1 = N("p_var", U, [N("p_bind", REAL, x=x)], "Um")
            p1.tag = U
            p2 = N("p_var", U, [N("p_any", INT), N("p_bind", REAL, x=y)], "Dois")
            p2.tag = U
            body.append(N("mostra", None, [N("iguala", REAL, [V(d)], [(p1, "expr", V(x)), (p2, "expr", V(y))])]))
        elif k == 7:
            body.append(N("mostra", None, [N("call", OPT(REAL), [iv()], fo)]))
        elif k == 8:
            body.append(N("mostra", None, [N("mcall", REAL, [L(0.5), iv()], m)]))
        elif k == 9:
            d = Decl(P.name(), REAL)
            body += [N("decl", None, [L(0.5)], d), N("assign", None, [V(d), iv()], r.choice("+-*"))]
            show(V(d))
        elif k == 10:
            show(N("bin", REAL, [iv(), L(r.choice([0.5, 2.0, -1.5]))], r.choice("+-*/")))
        elif k == 11:
            show(N("bin", REAL, [L(r.choice([0.5, 2.0, -1.5])), iv()], r.choice("+-*")))
        elif k == 12:
            d, d2 = Decl(P.name(), REAL), Decl(P.name(), REAL)
            body += [N("decl", None, [], d), N("decl", None, [], d2), N("assign", None, [V(d), V(d2), iv()], None)]
            show(V(d))
            show(V(d2))
        elif k == 13:
            d = Decl(P.name(), VEC(VEC(REAL)))
            body.append(N("decl", None, [N("veclit", VEC(VEC(REAL)), [N("veclit", VEC(REAL), [iv(), iv()])])], d))
            show(V(d))
    finish(c, i, out, run, P, body, "promotion")


def tree(i, out, run):
    """one large expression over boundary values; a few per program"""
    r = c.rng("x", i)
    P = Prog(r)

    def mk(t, d):
        if d <= 0 or r.random() < 0.15:
            v = operand(r, t)
            if r.random() < 0.5 and t == INT:
                v = r.randint(-20, 20)
            return P.val(v, t)
        k = r.random()
        if t == BOOL:
            if k < 0.5:
                a, b = r.choice([INT, REAL]), r.choice([INT, REAL])
                return N("bin", BOOL, [mk(a, d - 1), mk(b, d - 1)], r.choice(["<", "<=", ">", ">=", "==", "!="]))
            if k < 0.75:
                return N("bin", BOOL, [mk(BOOL, d - 1), mk(BOOL, d - 1)], r.choice(["e", "ou", "==", "!="]))
            if k < 0.9:
                return N("un", BOOL, [mk(BOOL, d - 1)], "nao")
            return N("cast", BOOL, [mk(r.choice([INT, REAL, TXT]), d - 1)])
        if t == TXT:
            return N("cast", TXT, [mk(r.choice([INT, REAL, BOOL]), d - 1)])
        if k < 0.1:
            return N("un", t, [mk(t, d - 1)], r.choice("-+"))
        if k < 0.2:
            return N("cast", t, [mk(REAL if t == INT else INT, d - 1)])
        if t == INT:
            return N("bin", INT, [mk(INT, d - 1), mk(INT, d - 1)], r.choice(["+", "-", "*", "//", "%"]))
        a, b = r.choice([(REAL, REAL), (INT, REAL), (REAL, INT)])
        op = r.choice(["+", "-", "*", "/", "//", "%"])
        if op == "/" and r.random() < 0.4:
            a, b = INT, INT
        return N("bin", REAL, [mk(a, d - 1), mk(b, d - 1)], op)

    body = []
    for _ in range(12):
        t = r.choice([INT, REAL, REAL, BOOL, TXT])
        e = mk(t, r.randint(2, 5))
        # those that fail are kept once in a while
        it = Interp()
        try:
            ds = list(P.decls)
            err = it.run_modules([ds + [N("mostra", None, [e])]])
        except (Unspecified, Limit, OverflowError):
            continue
        if err is not None:
            out.n["tree that fails"] += 1
            if r.random() < 0.1:
                body.append(N("mostra", None, [e]))
                break
            continue
        out.n["tree with a value"] += 1
        body.append(N("mostra", None, [e]))
    finish(c, i, out, run, P, body, "tree")


JOBS = [table, table, error_case, casts, promote, tree, tree]
c.pmap(lambda i, o, q: JOBS[i % 7](i // 7, o, q), c.scale(2100, 60000))
PR = dict(funcs=3, depth=2, edepth=5, stmts=9, unsafe=0.1, extreme=0.3, trace=0, iguala=0.3, regs=1)


def only(d, r):
    return True


progs.campaign(c, c.scale(500, 15000), [PR, {**PR, "reals": 3}], wild=0.1, lines=False, label="g")
c.assumptions = ["reals follow IEEE double arithmetic as Python's do", "% of the smallest int by -1 is left open", "the reference interpreter rt/lang.py"]
c.finish()
