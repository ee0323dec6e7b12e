"""Histories of operations over shared vectors, records and optional values.
The generator mirrors the objects it builds so that most operations are valid;
what is expected comes from the reference interpreter."""
from .lang import *


def L(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, float)):
        return N("lit", {bool: BOOL, str: TXT, float: REAL, type(None): "nulo"}[type(v)], x=v)
    return N("lit", INT, x=v) if v >= 0 else N("un", INT, [N("lit", INT, x=-v)], "-")


def V(d):
    return N("var", d.ty, x=d)


class Obj:
    """mirror of a record"""

    def __init__(self, f):
        self.f = f


class Hist:
    def __init__(self, rng, vecs=True, regs=0, opts=False, nest=2, unsafe=0.5, ops=25, infunc=None):
        self.r = rng
        self.vecs, self.opts, self.nest, self.unsafe = vecs, opts, nest, unsafe
        self.nops = ops
        self.regs = []
        self.vars = []  # (Decl, mirror)
        self.out = []
        self.uid = 0
        self.val = 0
        self.funcs = {}
        self.decls = []
        self.nregs = regs
        self.kinds = {}
        self.infunc = rng.random() < 0.3 if infunc is None else infunc

    def name(self, b):
        self.uid += 1
        return f"{b}{self.uid}"

    def count(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    # ------------------------------------------------------------ types
    def prim(self):
        return self.r.choice([INT, INT, INT, REAL, TXT, BOOL])

    def elem(self, depth):
        x = self.r.random()
        if depth > 0 and self.vecs and x < 0.35:
            return VEC(self.elem(depth - 1))
        if self.regs and x < 0.55:
            return self.r.choice(self.regs)
        if self.opts and x < 0.65:
            return OPT(self.r.choice([INT, TXT]))
        return self.prim()

    def mkregs(self):
        for _ in range(self.nregs):
            t = Reg(self.name("P"), [])
            n = self.r.randint(1, 5)
            for k in range(n):
                x = self.r.random()
                if self.regs and x < 0.35:
                    ft = self.r.choice(self.regs)
                elif self.vecs and x < 0.55:
                    ft = VEC(self.elem(1))
                elif self.opts and x < 0.8:
                    ft = OPT(self.r.choice([INT, TXT, REAL] + self.regs))
                else:
                    ft = self.prim()
                t.fields.append((self.r.choice(["a", "b", "c", "nome", "dado"]) + str(k), ft))
            self.regs.append(t)
            self.decls.append(N("reg", None, [], t))

    # ------------------------------------------------------------ values
    def fresh(self, ty, depth=3):
        """(expression that builds a new value, its mirror)"""
        r = self.r
        if ty == INT:
            self.val += 1
            return L(self.val), self.val
        if ty == REAL:
            self.val += 1
            if r.random() < 0.3:
                return L(self.val), float(self.val)
            return L(self.val + 0.5), self.val + 0.5
        if ty == TXT:
            self.val += 1
            s = r.choice(["t", "é", ""]) + str(self.val)
            return L(s), s
        if ty == BOOL:
            v = r.random() < 0.5
            return L(v), v
        if is_opt(ty):
            if r.random() < 0.35 or (depth <= 0 and not isinstance(ty[1], str)):
                return L(None), None
            return self.value(ty[1], depth - 1)
        if is_vec(ty):
            n = r.randint(0, 3) if depth > 0 else r.randint(0, 1)
            el = ty[1]
            if isinstance(el, str) and r.random() < 0.25:
                n = r.randint(0, 4)
                return N("vecnew", ty, [L(n)], el), [zero(el)] * n
            if is_vec(el) and isinstance(el[1], str) and r.random() < 0.4:
                n, m = r.randint(1, 3), r.randint(0, 3)
                return N("vecnew", ty, [L(n), L(m)], el[1]), [[zero(el[1])] * m for _ in range(n)]
            if is_vec(el) and is_vec(el[1]) and isinstance(el[1][1], str) and r.random() < 0.6:
                n, m, q = r.randint(1, 2), r.randint(1, 2), r.randint(0, 2)
                return N("vecnew", ty, [L(n), L(m), L(q)], el[1][1]), [[[zero(el[1][1])] * q for _ in range(m)] for _ in range(n)]
            es = [self.value(el, depth - 1) for _ in range(n)]
            return N("veclit", ty, [e for e, _ in es]), [m for _, m in es]
        if isinstance(ty, Reg):
            names = [n for n, _ in ty.fields]
            r.shuffle(names)
            ft = dict(ty.fields)
            vs = {n: self.value(ft[n], depth - 1) for n in names}
            return N("new", ty, [vs[n][0] for n in names], (ty, names)), Obj({n: m for n, (_, m) in vs.items()})
        raise ValueError(ty)

    def value(self, ty, depth=3):
        """A value: new or one that already exists, so shared"""
        r = self.r
        if r.random() < 0.5:
            c = self.places(lambda t: t == ty, rd=True)
            if c:
                e, m, _ = r.choice(c)
                return e(), m
        return self.fresh(ty, depth)

    def places(self, ok, rd=False, cap=60):
        """Existing places: (make node, mirror value, setter)"""
        out = []

        def walk(mk, ty, m, setter, depth):
            if len(out) > cap:
                return
            if ok(ty):
                out.append((mk, m, setter))
            if depth <= 0:
                return
            if is_vec(ty):
                idx = list(range(len(m)))
                self.r.shuffle(idx)
                for i in idx[:2]:

                    def st(v, m=m, i=i):
                        m[i] = v

                    walk(lambda mk=mk, i=i, ty=ty: N("idx", ty[1], [mk(), self.index(i)]), ty[1], m[i], st, depth - 1)
            elif isinstance(ty, Reg):
                for n, t in ty.fields:

                    def st(v, m=m, n=n):
                        m.f[n] = v

                    walk(lambda mk=mk, n=n, t=t: N("fld", t, [mk()], n), t, m.f[n], st, depth - 1)
            elif is_opt(ty) and m is not None and rd:
                walk(lambda mk=mk, ty=ty: N("valor", ty[1], [mk()]), ty[1], m, None, depth - 1)
            elif is_opt(ty) and m is not None and not isinstance(ty[1], str):
                # places inside of the value of an option
                walk(lambda mk=mk, ty=ty: N("valor", ty[1], [mk()]), ty[1], m, None, depth - 1)

        vs = list(self.vars)
        self.r.shuffle(vs)
        for v in vs:
            d = v[0]

            def st(x, v=v):
                v[1] = x

            walk(lambda d=d: V(d), d.ty, v[1], st, self.nest + 1)
        if not rd:
            out = [p for p in out if p[2] is not None]
        return out

    def index(self, i):
        x = self.r.random()
        if x < 0.7:
            return L(i)
        if x < 0.85:
            k = self.r.randint(0, 5)
            return N("bin", INT, [L(i + k), L(k)], "-")
        # an int that exists with that value
        for d, m in self.vars:
            if d.ty == INT and m == i and type(m) is int:
                return V(d)
        return N("bin", INT, [L(i * 3), L(3)], "//")

    # ------------------------------------------------------------ operations
    def newvar(self):
        ty = self.elem(self.nest)
        if self.regs and self.r.random() < 0.4:
            ty = self.r.choice(self.regs)
        elif self.vecs and self.r.random() < 0.6:
            ty = VEC(self.elem(self.nest - 1))
        elif self.opts and self.r.random() < 0.4:
            ty = OPT(self.r.choice([INT, TXT, BOOL, REAL] + self.regs + ([VEC(INT)] if self.vecs else [])))
        e, m = self.value(ty)
        d = Decl(self.name("v"), ty, glob=not self.infunc)
        self.vars.append([d, m])
        self.count("declare")
        return N("decl", None, [e], d)

    def op(self):
        r = self.r
        k = r.random()
        if len(self.vars) < 3 or (k < 0.12 and len(self.vars) < 12):
            return self.newvar()
        if k < 0.32:
            # assign any place
            c = self.places(lambda t: True)
            mk, m, st = r.choice(c)
            node = mk()
            e, v = self.value(node.ty)
            # evaluated in this order by both
            st(v)
            self.count("assign " + node.k)
            return N("assign", None, [node, e], None)
        if k < 0.42:
            c = self.places(lambda t: t in (INT, REAL))
            if not c:
                return self.newvar()
            mk, m, st = r.choice(c)
            node = mk()
            op = r.choice("+-*")
            x = r.randint(1, 5)
            w = m + x if op == "+" else m - x if op == "-" else m * x
            if isinstance(w, int) and abs(w) > 2**60:
                return self.newvar()
            st(w)
            self.count("compound " + node.k)
            return N("assign", None, [node, L(x)], op)
        if k < 0.47:
            # the same value stored in two places
            a = self.places(lambda t: isinstance(t, str))
            if not a:
                return self.newvar()
            mk, m, st = r.choice(a)
            n1 = mk()
            b = self.places(lambda t: t == n1.ty)
            if not b:
                return self.newvar()
            mk2, m2, st2 = r.choice(b)
            e, v = self.fresh(n1.ty)
            n2 = mk2()
            st2(v)
            st(v)
            self.count("chain")
            return N("assign", None, [n1, n2, e], None)
        if k < 0.62 and self.vecs:
            c = self.places(is_vec, rd=True)
            if not c:
                return self.newvar()
            mk, m, _ = r.choice(c)
            node = mk()
            if len(m) > 6 or (m and r.random() < 0.45):
                i = r.randrange(len(m))
                w = m.pop(i)
                call = N("remova", node.ty[1], [node, self.index(i)])
                self.count("remova")
                if r.random() < 0.5 and not self.infunc:
                    d = Decl(self.name("v"), node.ty[1], glob=True)
                    self.vars.append([d, w])
                    return N("decl", None, [call], d)
                if isinstance(node.ty[1], str):
                    return N("mostra", None, [call])
                return N("expr", None, [call])
            e, v = self.value(node.ty[1])
            if v is m or self.contains(v, m):
                e, v = self.fresh(node.ty[1], 1)
                if self.contains(v, m):
                    return self.newvar()
            m.append(v)
            self.count("anexa")
            return N("expr", None, [N("anexa", VOID, [node, e])])
        if k < 0.74:
            return self.byfunc()
        if k < 0.8 and self.vecs:
            c = self.places(lambda t: is_vec(t), rd=True)
            if c:
                mk, m, _ = r.choice(c)
                self.count("tam")
                return N("mostra", None, [N("tam", INT, [mk()])])
        if k < 0.86 and self.vecs:
            c = self.places(lambda t: t == VEC(INT), rd=True)
            if c:
                mk, m, _ = r.choice(c)
                w = Decl(self.name("i"), INT)
                node = mk()
                tgt = N("idx", INT, [mk(), V(w)])
                for j in range(len(m)):
                    m[j] += j
                self.count("loop over elements")
                return N("para", None, [L(0), N("tam", INT, [node])], (w, [N("assign", None, [tgt, V(w)], "+")]))
        if self.opts:
            c = self.places(is_opt, rd=True)
            if c:
                mk, m, _ = r.choice(c)
                node = mk()
                x = r.random()
                self.count("option test")
                if x < 0.4:
                    return N("mostra", None, [N("isnull", BOOL, [node], r.choice(["==", "!="]))])
                if isinstance(node.ty[1], str):
                    if x < 0.7:
                        e, _ = self.fresh(node.ty[1])
                        return N("mostra", None, [N("valor_ou", node.ty[1], [node, e])])
                    if m is not None:
                        return N("mostra", None, [N("valor", node.ty[1], [node])])
                return N("se", None, [], ([(N("isnull", BOOL, [node], "=="), [N("mostra", None, [L("nulo?")])])], [N("mostra", None, [L("tem")])]))
        return self.newvar()

    def contains(self, v, m):
        """m is reachable from v"""
        if v is m:
            return True
        if isinstance(v, list):
            return any(self.contains(x, m) for x in v)
        if isinstance(v, Obj):
            return any(self.contains(x, m) for x in v.f.values())
        return False

    def byfunc(self):
        """changes an object through a function's parameter, or gets back
        the very object that was passed"""
        r = self.r
        c = self.places(lambda t: is_vec(t) or isinstance(t, Reg), rd=True)
        if not c:
            return self.newvar()
        mk, m, st = r.choice(c)
        node = mk()
        ty = node.ty
        kind = r.choice(["set", "id", "id"] if isinstance(ty, Reg) else ["set", "add", "id"])
        key = (kind, repr(ty))
        if isinstance(ty, Reg):
            fields = [(n, t) for n, t in ty.fields]
            fn, ft = r.choice(fields)
            key = (kind, repr(ty), fn if kind == "set" else "")
        if key not in self.funcs:
            p = Decl("p", ty)
            if kind == "id":
                f = Func(self.name("f"), [p], ty)
                f.body = [N("retorna", None, [V(p)], ty)]
            elif kind == "add":
                q = Decl("q", ty[1])
                f = Func(self.name("f"), [p, q], VOID)
                f.body = [N("expr", None, [N("anexa", VOID, [V(p), V(q)])])]
            elif is_vec(ty):
                q, i = Decl("q", ty[1]), Decl("i", INT)
                f = Func(self.name("f"), [p, i, q], VOID)
                f.body = [N("assign", None, [N("idx", ty[1], [V(p), V(i)]), V(q)], None)]
            else:
                q = Decl("q", ft)
                f = Func(self.name("f"), [p, q], VOID)
                f.body = [N("assign", None, [N("fld", ft, [V(p)], fn), V(q)], None)]
                # changing the parameter itself changes nothing outside
                f.body.append(N("assign", None, [V(p), V(p)], None))
            self.funcs[key] = f
            self.decls.append(N("func", None, [], f))
        f = self.funcs[key]
        self.count("through function " + kind)
        if kind == "id":
            d = Decl(self.name("v"), ty, glob=not self.infunc)
            self.vars.append([d, m])
            return N("decl", None, [N("call", ty, [node], f)], d)
        if kind == "add":
            e, v = self.value(ty[1])
            if self.contains(v, m) or len(m) > 8:
                return self.newvar()
            m.append(v)
            return N("expr", None, [N("call", VOID, [node, e], f)])
        if is_vec(ty):
            if not m:
                return self.newvar()
            i = r.randrange(len(m))
            e, v = self.value(ty[1])
            if self.contains(v, m):
                return self.newvar()
            m[i] = v
            return N("expr", None, [N("call", VOID, [node, self.index(i), e], f)])
        e, v = self.value(ft)
        if self.contains(v, m):
            return self.newvar()
        m.f[fn] = v
        return N("expr", None, [N("call", VOID, [node, e], f)])

    def bad(self):
        """an operation that is a runtime error"""
        r = self.r
        self.count("invalid operation")
        opts = []
        if self.vecs:
            c = self.places(is_vec, rd=True)
            if c:
                opts.append("vec")
        if self.opts:
            c2 = [p for p in self.places(is_opt, rd=True) if p[1] is None]
            if c2:
                opts += ["nulo"]
        if not opts:
            return []
        if r.choice(opts) == "nulo":
            mk, m, _ = r.choice(c2)
            node = mk()
            return [N("expr", None, [N("valor", node.ty[1], [node])])]
        mk, m, _ = r.choice(c)
        node = mk()
        i = r.choice([-1, -2, -I_MAX, len(m), len(m) + 1, len(m) + 100, I_MAX, 2**32, 2**31])
        k = r.choice(["get", "set", "rem", "comp"])
        el = node.ty[1]
        if k == "rem":
            return [N("expr", None, [N("remova", el, [node, L(i)])])]
        ix = N("idx", el, [node, L(i)])
        if k == "set":
            return [N("assign", None, [ix, self.fresh(el, 1)[0]], None)]
        if k == "comp" and el in (INT, REAL):
            return [N("assign", None, [ix, L(1)], "+")]
        return [N("expr", None, [ix])] if not isinstance(el, str) else [N("mostra", None, [ix])]

    # ------------------------------------------------------------ display
    def show_all(self):
        out = []
        for d, m in self.vars:
            out += self.show(lambda d=d: V(d), d.ty, m, d.name, 3)
        return out

    def show(self, mk, ty, m, label, depth):
        if isinstance(ty, str) or (is_opt(ty) and isinstance(ty[1], str)) or (is_vec(ty) and self.plain(ty[1])):
            e = mk()
            if any_call(e):
                return []
            if has_str(e) or not isinstance(ty, str):
                return [N("escreva", None, [L(label + "=")]), N("mostra", None, [e])]
            return [N("mostra", None, [N("fstr", TXT, [label + "=", e], '"')])]
        if depth <= 0:
            return []
        if is_opt(ty):
            if m is None:
                return [N("escreva", None, [L(label + "=")]), N("mostra", None, [mk()])]
            return self.show(lambda: N("valor", ty[1], [mk()]), ty[1], m, label + "!", depth - 1)
        if is_vec(ty):
            out = [N("mostra", None, [N("fstr", TXT, [label + " tam ", N("tam", INT, [mk()])], '"')])] if not has_str(mk()) else []
            for i in range(len(m)):
                out += self.show(lambda i=i: N("idx", ty[1], [mk(), L(i)]), ty[1], m[i], f"{label}.{i}", depth - 1)
            return out
        out = []
        for n, t in ty.fields:
            out += self.show(lambda n=n, t=t: N("fld", t, [mk()], n), t, m.f[n], label + "." + n, depth - 1)
        return out

    def plain(self, t):
        if is_vec(t):
            return self.plain(t[1])
        if is_opt(t):
            return self.plain(t[1])
        return isinstance(t, str)

    # ------------------------------------------------------------ program
    def program(self):
        self.mkregs()
        body = []
        every = self.r.choice([1, 2, 3])
        k = 0
        while k < self.nops:
            k += 1
            body.append(self.op())
            if k % every == 0 and len(body) < 260:
                body += self.show_all()
        body += self.show_all()
        if self.r.random() < self.unsafe:
            b = self.bad()
            if b:
                body += b
                body.append(N("mostra", None, [L("depois")]))
        if self.infunc:
            f = Func("principal", [], VOID)
            f.body = body
            return self.decls + [N("func", None, [], f), N("expr", None, [N("call", VOID, [], f)])]
        return self.decls + body


def any_call(e):
    return e.k in ("call", "mcall") or any(isinstance(c, N) and any_call(c) for c in e.a)


def has_str(e):
    if not isinstance(e, N):
        return False
    return (e.k == "lit" and isinstance(e.x, str)) or any(has_str(c) for c in e.a)
