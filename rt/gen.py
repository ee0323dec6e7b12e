"""Random well-typed Amanda programs, with their expected behaviour given by
the reference interpreter of lang.py."""
import random

from .lang import *

NAMES_L = ["a", "b", "c", "n", "m", "total", "valor_x", "xpto", "ação", "número", "conta2", "_tmp", "Z", "idade", "até", "lista", "k1", "fim1", "se2", "ex", "oura"]


# words that mean something to the compiler's own implementation only
NAMES_F = ["class", "def", "len", "print", "list", "None", "True", "self", "lambda", "type", "str", "globals", "sum", "id", "import", "eval", "main", "valor", "x" * 300, "_a", "ñ", "Ω", "名前", "a_b_c_1", "tipo", "item", "para1", "vazio_", "n__"]


class Profile(dict):
    def __getattr__(self, k):
        return self.get(k, 0)


DEFAULT = dict(
    funcs=3, regs=1, unis=1, methods=1, globals_=4, depth=3, edepth=3, stmts=8, blk=4,
    reals=1, texts=1, vecs=1, opts=1, trace=0.15, iguala=1, loops=1, escolha=1, calls=1, rec=0.3,
    shadow=0.3, casts=1, fstr=1, unsafe=0.02, chain=1, seiguala=1, strong=0, ltypes=0.4,
)


class Scope:
    def __init__(self, parent=None, fn=False):
        self.parent, self.v, self.fn = parent, {}, fn

    def get(self, name):
        s = self
        while s:
            if name in s.v:
                return s.v[name]
            s = s.parent
        return None

    def visible(self):
        seen = {}
        s = self
        while s:
            for n, d in s.v.items():
                seen.setdefault(n, d)
            s = s.parent
        return seen


class Gen:
    def __init__(self, rng, **prof):
        self.r = rng
        self.p = Profile({**DEFAULT, **prof})
        self.regs, self.unis, self.funcs, self.methods = [], [], [], []
        self.glob = Scope()
        self.sc = self.glob
        self.fn = None  # function being generated
        self.uid = 0
        self.loop = 0
        self.noret = 0
        self.inig = 0
        self.reserved = set()
        self.stmt_budget = 60
        self.top = []
        self.features = set()
        self.foreign = set()  # ids of what other modules declare
        self.tag = ""

    def use(self, name, x):
        """Makes something another module declares usable, by that name"""
        self.foreign.add(id(x))
        self.reserved.add(name)
        if isinstance(x, Decl):
            self.glob.v[name] = x
        elif isinstance(x, Reg):
            self.regs.append(x)
        elif isinstance(x, Uni):
            self.unis.append(x)
        elif x.recv is not None:
            self.methods.append(x)
        else:
            self.funcs.append(x)

    # ------------------------------------------------------------ helpers
    def ch(self, p):
        return self.r.random() < p

    def pick(self, *ws):
        """weighted choice of (weight, value)"""
        ws = [w for w in ws if w[0] > 0]
        t = self.r.random() * sum(w[0] for w in ws)
        for w, v in ws:
            t -= w
            if t <= 0:
                return v
        return ws[-1][1]

    def fresh(self, base=None):
        while True:
            self.uid += 1
            n = f"{base or 'v'}{self.uid}"
            if n not in self.reserved:
                return n

    def newname(self):
        """A name for a local or global declaration: may shadow"""
        if self.sc is not self.glob and self.ch(self.p.shadow * 0.15):
            names = [f.name for f in self.funcs if not f.hidden and f is not self.fn and id(f) not in self.foreign]
            names = [n for n in names if n not in self.sc.v and n not in self.reserved]
            if names:
                n = self.r.choice(names)
                self.features.add("hides:func")
                self.funcs = [f for f in self.funcs if f.name != n]
                self.reserved.add(n)
                return n
        if self.ch(self.p.shadow):
            for _ in range(4):
                n = self.r.choice(NAMES_F if self.p.free and self.ch(0.3) else NAMES_L)
                if n not in self.sc.v and n not in self.reserved:
                    return n
        return self.fresh(self.r.choice(["v", "x", "aux", "é"]))

    def declare(self, name, ty, **kw):
        assert name not in self.sc.v
        d = Decl(name, ty, glob=(self.sc is self.glob), **kw)
        self.sc.v[name] = d
        return d

    def push(self):
        self.sc = Scope(self.sc)
        self.sc.outer = self.known()

    def pop(self):
        self.regs, self.unis, self.funcs, self.reserved = self.sc.outer
        self.sc = self.sc.parent

    def known(self):
        """What blocks can add to, or hide, until they end"""
        return list(self.regs), list(self.unis), list(self.funcs), set(self.reserved)

    # ------------------------------------------------------------ types
    def prim(self):
        return self.pick((4, INT), (2 * self.p.reals, REAL), (2, BOOL), (2 * self.p.texts, TXT))

    def type(self, depth=0):
        p = self.p
        k = self.pick(
            (8, "prim"), (2 * p.vecs if depth < 2 else 0, "vec"),
            (2 if self.regs else 0, "reg"), (2 if self.unis else 0, "uni"),
            (1.5 * p.opts if depth < 1 else 0, "opt"),
        )
        if k == "prim":
            return self.prim()
        if k == "vec":
            return VEC(self.type(depth + 1))
        if k == "reg":
            return self.r.choice(self.regs)
        if k == "uni":
            return self.r.choice(self.unis)
        return OPT(self.pick((3, self.prim()), (1 if self.regs else 0, self.r.choice(self.regs) if self.regs else None), (0.5 * p.vecs, VEC(self.prim()))))

    # ------------------------------------------------------------ literals
    def lit(self, ty):
        r = self.r
        if ty == INT and self.p.extreme and self.ch(self.p.extreme):
            v = r.choice([I_MAX, I_MAX - 1, 2**62, 2**31, 2**32, 2**53, 2**53 + 1, -I_MAX, -(2**62), -(2**31), 255, 256, 65535, 65536])
            return N("lit", INT, x=v) if v >= 0 else N("un", INT, [N("lit", INT, x=-v)], "-")
        if ty == REAL and self.p.extreme and self.ch(self.p.extreme):
            return N("lit", REAL, x=r.choice([0.0, 1e15, 123456789012345.5, 0.1, 1 / 3, 2.0**53, 4611686018427387904.0, 0.5, 1.5, 2.5]))
        if ty == INT and self.p.unique:
            self.uval = getattr(self, "uval", 1000) + r.randint(1, 9)
            return N("lit", INT, x=self.uval)
        if ty == INT:
            v = self.pick((6, r.randint(0, 9)), (3, r.randint(0, 100)), (1, r.randint(0, 100000)), (1, -r.randint(1, 50)))
            if v < 0:
                return N("un", INT, [N("lit", INT, x=-v)], "-")
            return N("lit", INT, x=v)
        if ty == REAL:
            v = self.pick((3, float(r.randint(0, 20))), (3, r.randint(0, 1000) / 4), (1, round(r.random() * 10, r.randint(1, 6))), (0.5, r.randint(1, 9) * 1e-3))
            return N("lit", REAL, x=v)
        if ty == BOOL:
            return N("lit", BOOL, x=r.random() < 0.5)
        if ty == TXT:
            return N("lit", TXT, x=self.text())
        raise ValueError(ty)

    WORDS = ["", "a", "olá", "Amanda", "x y", "123", "3.5", "verdadeiro", "nulo", "fim", "# não", "ção", "a b c", "z", "-", "{", "}", "e"]

    def text(self):
        return self.r.choice(self.WORDS)

    # ------------------------------------------------------------ expressions
    def vars_of(self, ok):
        return [d for d in self.sc.visible().values() if d.kind == "var" and ok(d)]

    def expr(self, ty, d=None, pure=False):
        """An expression that can be used where ty is expected"""
        if d is None:
            d = self.p.edepth
        # int where a real is expected
        if ty == REAL and self.ch(0.2):
            ty = INT
        if is_opt(ty):
            return self.opt_expr(ty, d, pure)
        e = self.expr_exact(ty, d, pure)
        if self.p.trace and not pure and ty in self.tracers and self.ch(self.p.trace):
            return N("call", ty, [N("lit", INT, x=self.next_id()), e], self.tracers[ty])
        return e

    tracers = {}
    tid = 0

    def next_id(self):
        self.tid += 1
        return self.tid

    def opt_expr(self, ty, d, pure):
        vs = self.vars_of(lambda x: x.ty == ty)
        fs = [] if pure else self.callable(ty)
        k = self.pick((3 if vs else 0, "var"), (1.5, "nulo"), (3, "some"), (1.5 if fs and d > 0 else 0, "call"))
        if k == "var":
            return N("var", ty, x=self.r.choice(vs))
        if k == "nulo":
            return N("lit", "nulo", x=None)
        if k == "call":
            return self.call(self.r.choice(fs), d - 1)
        return self.expr_exact(ty[1], d - 1, pure)

    def expr_exact(self, ty, d, pure=False):
        p, r = self.p, self.r
        vs = self.vars_of(lambda x: x.ty == ty)
        if d <= 0:
            if vs and self.ch(0.75):
                return N("var", ty, x=r.choice(vs))
            if isinstance(ty, str):
                return self.lit(ty)
            return self.build(ty, d, pure)
        fs = [] if pure else self.callable(ty)
        ms = [] if pure else [m for m in self.methods if m.ret == ty and self.fn is not m and (self.can_make(m.recv))]
        flds = [(v, n) for v in self.vars_of(lambda x: isinstance(x.ty, Reg)) for n, t in v.ty.fields if t == ty]
        vecs = self.vars_of(lambda x: x.ty == VEC(ty) and x.minlen > 0)
        opts = self.vars_of(lambda x: x.ty == OPT(ty))
        alts = [
            (5 if vs else 0, "var"),
            (3 * p.calls if fs else 0, "call"),
            (2.5 * p.calls if ms else 0, "mcall"),
            (2 if flds else 0, "fld"),
            (2 if vecs else 0, "idx"),
            (1.5 if opts else 0, "opt"),
            (1.2 * p.iguala if d > 1 and not pure and self.inig < 2 else 0, "iguala"),
        ]
        if isinstance(ty, str):
            alts.append((2.5, "lit"))
            alts.append((0.7 * p.casts, "cast"))
            if ty in (INT, REAL):
                alts += [(6, "arith"), (1, "neg")]
            if ty == INT:
                alts += [(0.8 * (p.texts + p.vecs), "tam")]
            if ty == BOOL:
                alts += [(3, "cmp"), (2, "eq"), (2.5, "logic"), (1, "nao"), (0.8 * p.opts, "isnull"), (0.5 * p.texts, "contem")]
            if ty == TXT:
                alts += [(2.5 * p.fstr, "fstr"), (0.4, "tidx")]
        else:
            alts.append((3, "build"))
        k = self.pick(*alts)
        self.features.add("e:" + k)
        if k == "var":
            return N("var", ty, x=r.choice(vs))
        if k == "lit":
            return self.lit(ty)
        if k == "build":
            return self.build(ty, d, pure)
        if k == "call":
            return self.call(r.choice(fs), d - 1)
        if k == "mcall":
            return self.mcall(r.choice(ms), d - 1)
        if k == "fld":
            v, n = r.choice(flds)
            return N("fld", ty, [N("var", v.ty, x=v)], n)
        if k == "idx":
            v = r.choice(vecs)
            return N("idx", ty, [N("var", v.ty, x=v), self.index(v)])
        if k == "opt":
            v = r.choice(opts)
            b = N("var", v.ty, x=v)
            if self.ch(0.15 + p.unsafe):
                return N("valor", ty, [b])
            return N("valor_ou", ty, [b, self.expr(ty, d - 1, pure)])
        if k == "iguala":
            return self.iguala_expr(ty, d - 1)
        if k == "arith":
            return self.arith(ty, d, pure)
        if k == "neg":
            return N("un", ty, [self.expr_exact(ty, d - 1, pure)], r.choice(["-", "-", "+"]))
        if k == "tam":
            if self.ch(0.5) and p.vecs:
                vv = self.vars_of(lambda x: is_vec(x.ty))
                if vv:
                    v = r.choice(vv)
                    return N("tam", INT, [N("var", v.ty, x=v)])
            return N("tam", INT, [self.expr_exact(TXT, d - 1, pure)])
        if k == "cmp":
            a, b = self.num(d - 1, pure), self.num(d - 1, pure)
            return N("bin", BOOL, [a, b], r.choice(["<", "<=", ">", ">="]))
        if k == "eq":
            t = self.prim()
            if t in (INT, REAL):
                a, b = self.num(d - 1, pure), self.num(d - 1, pure)
            else:
                a, b = self.expr_exact(t, d - 1, pure), self.expr_exact(t, d - 1, pure)
            return N("bin", BOOL, [a, b], r.choice(["==", "!="]))
        if k == "logic":
            return N("bin", BOOL, [self.expr(BOOL, d - 1, pure), self.expr(BOOL, d - 1, pure)], r.choice(["e", "ou"]))
        if k == "nao":
            return N("un", BOOL, [self.expr(BOOL, d - 1, pure)], "nao")
        if k == "isnull":
            vv = self.vars_of(lambda x: is_opt(x.ty))
            if not vv:
                return self.lit(BOOL)
            v = r.choice(vv)
            return N("isnull", BOOL, [N("var", v.ty, x=v)], r.choice(["==", "!="]))
        if k == "contem":
            return N("txtcontem", BOOL, [self.expr_exact(TXT, d - 1, pure), self.expr_exact(TXT, d - 1, pure)])
        if k == "fstr":
            return self.fstr(d, pure)
        if k == "tidx":
            s = r.choice(["abc", "olá!", "ação", "xyz w"])
            return N("idx", TXT, [N("lit", TXT, x=s), N("lit", INT, x=r.randint(0, 2))])
        if k == "cast":
            return self.cast(ty, d, pure)
        raise ValueError(k)

    def can_make(self, ty):
        return True

    def callable(self, ret):
        return [f for f in self.funcs if f.ret == ret and (f is not self.fn) and not f.hidden]

    def arg(self, d, dd):
        if d.kind == "fuel":
            return N("lit", INT, x=self.r.randint(0, 4))
        if d.minlen:
            return self.vec_min(d.ty, d.minlen, dd)
        return self.expr(d.ty, dd)

    def vec_min(self, ty, n, dd):
        vs = self.vars_of(lambda x: x.ty == ty and x.minlen >= n)
        if vs and self.ch(0.6):
            return N("var", ty, x=self.r.choice(vs))
        return self.build(ty, dd, False, n)

    def call(self, f, d):
        return N("call", f.ret, [self.arg(x, d) for x in f.params], f)

    def mcall(self, m, d):
        recv = self.recv(m.recv, d)
        return N("mcall", m.ret, [recv] + [self.arg(x, d) for x in m.params], m)

    def recv(self, ty, d):
        vs = self.vars_of(lambda x: x.ty == ty)
        if vs and self.ch(0.7):
            return N("var", ty, x=self.r.choice(vs))
        e = self.expr_exact(ty, max(0, d - 1))
        return e

    def num(self, d, pure):
        t = self.pick((3, INT), (1.5 * self.p.reals, REAL))
        return self.expr(t, d, pure)

    def arith(self, ty, d, pure):
        r = self.r
        if ty == INT:
            op = self.pick((4, "+"), (4, "-"), (2, "*"), (1.5, "//"), (1.5, "%"))
            a = self.expr_exact(INT, d - 1, pure)
            if op in ("//", "%") and not self.ch(self.p.unsafe * 2):
                b = N("lit", INT, x=r.randint(1, 9))
                if self.ch(0.3):
                    b = N("un", INT, [b], "-")
            elif op == "*" and self.ch(0.7):
                b = N("lit", INT, x=r.randint(0, 5))
            else:
                b = self.expr(INT, d - 1, pure)
            if self.ch(0.2) and op in ("+", "*"):
                a, b = b, a
            return N("bin", INT, [a, b], op)
        op = self.pick((4, "+"), (4, "-"), (3, "*"), (3, "/"), (0.7, "//"), (0.7, "%"))
        if op == "/":
            a = self.num(d - 1, pure)
            if self.ch(self.p.unsafe * 2):
                b = self.num(d - 1, pure)
            else:
                b = N("lit", *r.choice([(INT, (), r.randint(1, 9)), (REAL, (), r.randint(1, 40) / 4)]))
            return N("bin", REAL, [a, b], op)
        if op in ("//", "%"):
            a = self.expr_exact(REAL, d - 1, pure)
            b = N("lit", *r.choice([(INT, (), r.randint(1, 9)), (REAL, (), r.randint(1, 40) / 4)]))
            return N("bin", REAL, [a, b], op)
        a, b = self.expr_exact(REAL, d - 1, pure), self.num(d - 1, pure)
        if self.ch(0.5):
            a, b = b, a
        return N("bin", REAL, [a, b], op)

    def fstr(self, d, pure):
        parts = []
        q = '"'
        for _ in range(self.r.randint(1, 4)):
            if self.ch(0.5):
                parts.append(self.r.choice(["x=", " ", "!", "é ", "1", "{", "a{b", ": ", "verdadeiro", "12"]))
            else:
                e = self.expr(self.prim(), min(d - 1, 1), pure)
                if any_text(e):
                    continue
                parts.append(e)
        if not parts:
            parts = ["só texto"]
        # adjacent literal parts are one literal
        if not any(isinstance(x, N) for x in parts):
            parts.append(N("lit", INT, x=7))
        return N("fstr", TXT, parts, q)

    def cast(self, ty, d, pure):
        r = self.r
        if ty == INT:
            if self.ch(0.25):
                return N("cast", INT, [N("lit", TXT, x=r.choice(["12", "-7", "+3", "0", "007"]))])
            return N("cast", INT, [self.expr_exact(REAL, d - 1, pure)])
        if ty == REAL:
            if self.ch(0.25):
                return N("cast", REAL, [N("lit", TXT, x=r.choice(["1.5", "-2", "1e3", ".5", "7."]))])
            return N("cast", REAL, [self.expr_exact(INT, d - 1, pure)])
        if ty == BOOL:
            return N("cast", BOOL, [self.expr_exact(r.choice([INT, REAL, TXT]), d - 1, pure)])
        return N("cast", TXT, [self.expr_exact(r.choice([INT, REAL, BOOL]), d - 1, pure)])

    def index(self, v):
        r = self.r
        if self.ch(self.p.unsafe):
            return self.expr_exact(INT, 1, True)
        if self.p.free and self.ch(0.5):
            return self.expr_exact(INT, 2)
        loopvars = self.vars_of(lambda x: x.ty == INT and x.fixed and x.fixed <= v.minlen)
        if loopvars and self.ch(0.5):
            return N("var", INT, x=r.choice(loopvars))
        return N("lit", INT, x=r.randrange(v.minlen))

    def build(self, ty, d, pure, n=None):
        r = self.r
        if is_vec(ty):
            el = ty[1]
            if n is None:
                n = r.randint(0, 4)
            if isinstance(el, str) and self.ch(0.25):
                return N("vecnew", ty, [N("lit", INT, x=n)], el)
            if is_vec(el) and isinstance(el[1], str) and self.ch(0.25):
                return N("vecnew", ty, [N("lit", INT, x=n), N("lit", INT, x=r.randint(0, 3))], el[1])
            return N("veclit", ty, [self.expr(el, d - 1, pure) for _ in range(n)])
        if isinstance(ty, Reg):
            names = [f for f, _ in ty.fields]
            r.shuffle(names)
            ft = dict(ty.fields)
            return N("new", ty, [self.expr(ft[f], d - 1, pure) for f in names], (ty, names))
        if isinstance(ty, Uni):
            vs = ty.variants
            if d <= 0:
                vs = [v for v in vs if not any(t is ty for t in v[1])] or vs
            v = r.choice(vs)
            return N("variant", ty, [self.expr(t, d - 1, pure) for t in v[1]], (ty, v[0]))
        if is_opt(ty):
            return self.opt_expr(ty, d, pure)
        return self.lit(ty)

    # ------------------------------------------------------------ patterns
    def arms(self, ty, body, forced=False):
        """-> list of (pattern, scope binds) that covers ty. body(pattern)
        is called with the bindings in scope."""
        r = self.r
        out = []
        if isinstance(ty, Uni):
            kind = self.pick((3, "all"), (2, "default"))
            vs = list(ty.variants)
            r.shuffle(vs)
            if kind == "default":
                vs = vs[: r.randint(0, len(vs))]
            pats = []
            for n, ts in vs:
                if any(isinstance(t, (Uni,)) or t in (INT, TXT) for t in ts) and self.ch(0.5):
                    pats.append(("narrow", n, ts))
                pats.append(("full", n, ts))
            if kind == "default":
                pats.append(("any",))
            for p in pats:
                self.push()
                if p[0] == "any":
                    pt = self.catch_all(ty)
                else:
                    pt = N("p_var", ty, [self.sub_pat(t, p[0] == "narrow") for t in p[2]], p[1])
                    pt.tag = ty
                out.append((pt, *body()))
                self.pop()
            return out
        # int or texto: literals then a default
        lits = r.sample(range(0, 12), r.randint(0, 4)) if ty == INT else r.sample(["a", "b", "olá", "", "123", "verdadeiro", "x y"], r.randint(0, 3)) if ty == TXT else []
        for v in lits:
            self.push()
            out.append((N("p_lit", ty, x=v), *body()))
            self.pop()
        self.push()
        pt = self.catch_all(ty)
        out.append((pt, *body()))
        self.pop()
        return out

    def catch_all(self, ty):
        if self.ch(0.5):
            return N("p_any", ty)
        d = self.declare(self.newname(), ty)
        return N("p_bind", ty, x=d)

    def sub_pat(self, ty, narrow, depth=0):
        r = self.r
        if narrow and depth < 2:
            if isinstance(ty, Uni):
                n, ts = r.choice(ty.variants)
                p = N("p_var", ty, [self.sub_pat(t, self.ch(0.4), depth + 1) for t in ts], n)
                p.tag = ty
                return p
            if ty == INT:
                return N("p_lit", ty, x=r.randint(0, 6))
            if ty == TXT:
                return N("p_lit", ty, x=r.choice(["a", "", "olá", "123"]))
        return self.catch_all(ty)

    def iguala_target(self, d):
        r = self.r
        tys = [INT] + ([TXT] if self.p.texts else []) + list(self.unis) * 3
        if self.p.opts and False:
            tys.append(OPT(INT))
        ty = r.choice(tys)
        if isinstance(ty, Uni):
            t = self.recv(ty, d)
        else:
            t = self.expr_exact(ty, d)
        return ty, t

    def iguala_expr(self, ty, d):
        self.inig += 1
        t, target = self.iguala_target(d - 1)
        loop, self.loop = self.loop, 0  # no loop control inside an operand
        noret, self.noret = self.noret, 1

        def body():
            if self.ch(0.3) and self.stmt_budget > 0:
                st = self.stmts(self.r.randint(0, 2))
                e = self.expr_exact(ty, d - 1)
                return "block", [*st, N("produz", None, [e])]
            return "expr", self.expr_exact(ty, max(d - 1, 0))

        arms = self.arms(t, body)
        self.loop, self.noret = loop, noret
        self.inig -= 1
        return N("iguala", ty, [target], arms)

    # ------------------------------------------------------------ statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            if self.stmt_budget <= 0:
                break
            self.stmt_budget -= 1
            s = self.stmt()
            if isinstance(s, list):
                out += s
            else:
                out.append(s)
        if self.p.dump and self.ch(self.p.dump):
            vs = [d for d in self.sc.visible().values() if d.kind == "var" and d.ty in (INT, BOOL, TXT)]
            self.r.shuffle(vs)
            parts = []
            for d in vs[:9]:
                parts += [" ", N("var", d.ty, x=d)]
            if parts:
                out.append(N("mostra", None, [N("fstr", TXT, ["@"] + parts[1:], '"')]))
        return out

    def block(self, n=None):
        self.push()
        if n is None:
            n = self.r.randint(0 if self.ch(0.1) else 1, self.p.blk)
        out = self.stmts(n)
        self.pop()
        return out

    depth = 0

    def stmt(self):
        p = self.p
        deep = self.depth < p.depth
        k = self.pick(
            (5, "decl"), (5, "assign"), (5, "show"), (1, "mdecl"),
            (3 if deep else 0, "se"), (1.5 * p.escolha if deep else 0, "escolha"),
            (2 * p.loops if deep else 0, "para"), (1.2 * p.loops if deep else 0, "enquanto"),
            (1.5 * p.iguala if deep and self.inig < 2 else 0, "iguala"),
            (1 * p.seiguala if deep and self.unis else 0, "seiguala"),
            (1.5 * p.calls, "callst"), (1 * p.vecs, "vecop"), (0.6 * p.chain, "chain"),
            (p.ltypes * bool(p.regs + p.unis) if self.sc is not self.glob else 0, "type"),
            (1.2 if self.loop else 0, "ctl"), (0.8 if self.fn and not self.noret else 0, "ret"),
        )
        self.features.add("s:" + k)
        self.depth += 1
        s = getattr(self, "st_" + k)()
        self.depth -= 1
        return s

    def st_decl(self):
        ty = self.type()
        # the initial value is generated before the name is in scope
        minlen = 0
        if isinstance(ty, str) and self.ch(0.15):
            name = self.newname()
            d = self.declare(name, ty)
            return N("decl", None, [], d)
        if is_vec(ty) and self.ch(0.7):
            minlen = self.r.randint(1, 4)
            e = self.vec_min(ty, minlen, 2)
        else:
            e = self.expr(ty)
        name = self.newname()
        while mentions(e, name):
            name = self.fresh()
        d = self.declare(name, ty)
        d.minlen = minlen
        return N("decl", None, [e], d)

    def st_type(self):
        """A type of the block's own, that may hide a variable or a function"""
        p, r = self.p, self.r
        kind = self.pick((p.regs, "reg"), (p.unis, "uni"))
        t = self.mk_reg() if kind == "reg" else self.mk_uni()
        k = self.pick((2, "fresh"), (1, "var"), (1, "func"))
        names = []
        if k == "var":
            names = [n for n, d in self.sc.visible().items() if d.kind == "var" and n != "alvo" and id(d) not in self.foreign]
        elif k == "func":
            names = [f.name for f in self.funcs if not f.hidden and id(f) not in self.foreign]
        names = [n for n in names if n not in self.sc.v and n not in self.reserved]
        if names:
            t.name = r.choice(names)
            self.features.add("hides:" + k)
            self.funcs = [f for f in self.funcs if f.name != t.name]
            self.reserved.add(t.name)
        self.sc.v[t.name] = Decl(t.name, "", kind="type")
        (self.regs if kind == "reg" else self.unis).append(t)
        return N(kind, None, [], t)

    def st_mdecl(self):
        ty = self.prim()
        ds = []
        for _ in range(self.r.randint(2, 3)):
            ds.append(self.declare(self.newname(), ty))
        return N("mdecl", None, [], ds)

    def lvalue(self):
        """(node, type) of a pure assignable place"""
        r = self.r
        c = []
        for v in self.vars_of(lambda x: not x.ro and id(x) not in self.foreign):
            if not v.minlen:
                c.append(N("var", v.ty, x=v))
            elif is_vec(v.ty):
                c.append(N("idx", v.ty[1], [N("var", v.ty, x=v), self.index(v)]))
            if isinstance(v.ty, Reg):
                for n, t in v.ty.fields:
                    c.append(N("fld", t, [N("var", v.ty, x=v)], n))
                    if isinstance(t, Reg):
                        for n2, t2 in t.fields:
                            c.append(N("fld", t2, [N("fld", t, [N("var", v.ty, x=v)], n)], n2))
        return r.choice(c) if c else None

    def st_assign(self):
        t = self.lvalue()
        if t is None:
            return self.st_show()
        if t.ty in (INT, REAL) and self.ch(0.4):
            op = self.r.choice(["+", "-", "*"] if t.ty == INT else ["+", "-", "*", "/"])
            if op == "/":
                v = N("lit", INT, x=self.r.randint(1, 5))
            elif op == "*":
                v = N("lit", INT, x=self.r.randint(0, 3))
            elif t.ty == INT:
                v = self.expr_exact(INT, self.p.edepth)
            else:
                v = self.expr(t.ty)
            return N("assign", None, [t, v], op)
        return N("assign", None, [t, self.expr(t.ty)], None)

    def st_chain(self):
        t = self.lvalue()
        if t is None or t.ty not in (INT, REAL, TXT, BOOL):
            return self.st_assign()
        us = []
        for _ in range(self.r.randint(1, 2)):
            for _ in range(10):
                u = self.lvalue()
                if u is not None and u.ty == t.ty:
                    us.append(u)
                    break
        if not us:
            return self.st_assign()
        return N("assign", None, [t, *us, self.expr_exact(t.ty, 2)], None)

    def st_show(self):
        ty = self.pick((5, self.prim()), (1 * self.p.vecs, VEC(self.prim())), (0.5 if self.p.opts else 0, OPT(self.prim())))
        if is_opt(ty):
            vs = self.vars_of(lambda x: is_opt(x.ty) and isinstance(x.ty[1], str))
            if not vs:
                ty = INT
            else:
                v = self.r.choice(vs)
                return N(self.r.choice(["mostra", "escrevaln"]), None, [N("var", v.ty, x=v)])
        k = self.pick((4, "mostra"), (2, "escrevaln"), (1, "escreva"))
        e = self.expr(ty)
        return N(k, None, [e])

    def st_se(self):
        brs = []
        for _ in range(self.pick((6, 1), (2, 2), (1, 3))):
            c = self.expr(BOOL)
            brs.append((c, self.block()))
        els = self.block() if self.ch(0.5) else None
        return N("se", None, [], (brs, els))

    def st_escolha(self):
        p = self.p
        ty = self.pick((4, INT), (1.5 * self.p.texts, TXT))
        subj = self.expr_exact(ty, 2)
        cases = []
        for _ in range(self.r.randint(0 if self.ch(0.05) else 1, 4)):
            c = self.expr_exact(ty, self.pick((5, 0), (1, 1), (6 * p.free, 2)))
            cases.append((c, self.block()))
        els = self.block() if self.ch(0.6) or not cases else None
        return N("escolha", None, [subj], (cases, els))

    def st_para(self):
        r = self.r
        n = r.randint(0, 5)
        start = N("lit", INT, x=0)
        if self.ch(0.3):
            start = self.lit(INT) if self.ch(0.3) else N("lit", INT, x=r.randint(0, 2))
        end = N("lit", INT, x=n)
        if self.ch(0.2):
            end = N("bin", INT, [N("lit", INT, x=n), N("lit", INT, x=r.randint(0, 2))], r.choice("+-"))
        a = [start, end]
        if self.ch(0.3):
            a.append(N("lit", INT, x=r.randint(1, 3)))
        if self.p.free:
            a = [self.expr_exact(INT, 2) if self.ch(0.6) else x for x in a]
        self.push()
        d = self.declare(self.newname(), INT, ro=True)
        d.glob = False
        if start.k == "lit" and end.k == "lit":
            d.fixed = max(end.x, 1)
        self.loop += 1
        body = self.stmts(r.randint(1, self.p.blk))
        self.loop -= 1
        self.pop()
        return N("para", None, a, (d, body))

    def st_enquanto(self):
        r = self.r
        # counter declared right before, incremented first thing in the body
        name = self.fresh("cont")
        d = self.declare(name, INT, ro=True)
        k = r.randint(0, 5)
        cond = N("bin", BOOL, [N("var", INT, x=d), N("lit", INT, x=k)], "<")
        if self.ch(0.4):
            cond = N("bin", BOOL, [cond, self.expr(BOOL, 2)], "e")
        self.push()
        self.loop += 1
        body = self.stmts(r.randint(1, self.p.blk))
        self.loop -= 1
        self.pop()
        incr = N("assign", None, [N("var", INT, x=d), N("lit", INT, x=1)], "+")
        return [N("decl", None, [N("lit", INT, x=0)], d), N("enquanto", None, [cond], [incr, *body])]

    def st_iguala(self):
        self.inig += 1
        t, target = self.iguala_target(2)
        arms = self.arms(t, lambda: ("block", self.stmts(self.r.randint(1, self.p.blk))))
        self.inig -= 1
        return N("iguala", None, [target], arms)

    def st_seiguala(self):
        u = self.r.choice(self.unis)
        target = self.recv(u, 2)
        self.push()
        n, ts = self.r.choice(u.variants)
        p = N("p_var", u, [self.sub_pat(t, self.ch(0.5)) for t in ts], n)
        p.tag = u
        th = self.stmts(self.r.randint(1, self.p.blk))
        self.pop()
        el = self.block() if self.ch(0.5) else None
        return N("seiguala", None, [target], (p, th, el))

    def st_callst(self):
        fs = [f for f in self.funcs if f is not self.fn and not f.hidden]
        ms = [m for m in self.methods if m is not self.fn]
        c = fs + ms
        if not c:
            return self.st_show()
        f = self.r.choice(c)
        e = self.mcall(f, 2) if f.recv is not None else self.call(f, 2)
        return N("expr", None, [e])

    def st_vecop(self):
        vs = self.vars_of(lambda x: is_vec(x.ty))
        if not vs:
            return self.st_decl()
        v = self.r.choice(vs)
        t = N("var", v.ty, x=v)
        if v.minlen == 0 and False:
            pass
        return N("expr", None, [N("anexa", VOID, [t, self.expr(v.ty[1])])])

    def st_ctl(self):
        # a condition in front makes what follows reachable
        k = N(self.r.choice(["quebra", "continua"]))
        return N("se", None, [], ([(self.expr(BOOL, 2), [k])], None))

    def ret_stmt(self):
        f = self.fn
        if f.ret == VOID:
            return N("retorna", None, [], f.ret)
        return N("retorna", None, [self.expr(f.ret)], f.ret)

    def st_ret(self):
        return N("se", None, [], ([(self.expr(BOOL, 2), [self.ret_stmt()])], None))

    # ------------------------------------------------------------ declarations
    def mk_reg(self):
        r = self.r
        t = Reg(self.fresh("Reg"), [])
        for i in range(r.randint(1, 5)):
            if self.p.free and self.ch(0.4):
                n = r.choice(["valor", "tam", "type", "name", "class", "fields", "x", "vec", "anexa", "_f"])
                if n not in dict(t.fields):
                    t.fields.append((n, self.type()))
                continue
            t.fields.append((self.fresh("campo") if self.ch(0.7) else r.choice(["x", "y", "nome", "próximo", "id"]) + str(i), self.type()))
        return t

    def mk_uni(self):
        r = self.r
        u = Uni(self.fresh("Uni"), [])
        n = r.randint(1, 4)
        base = False
        for i in range(n):
            ts = [self.type() for _ in range(self.pick((3, 0), (3, 1), (2, 2), (1, 3)))]
            u.variants.append((self.fresh("Var") if self.ch(0.5) else f"V{i}", ts))
        return u

    def mk_func(self, recv=None):
        r = self.r
        p = self.p
        name = self.fresh(r.choice(["f", "calc", "faz_"]))
        if isinstance(recv, str):
            # the methods of these types are shared by all modules
            name += self.tag
        ret = VOID if self.ch(0.2) else self.type()
        f = Func(name, [], ret, recv=recv)
        f.hidden = False
        known = self.known()
        sc, self.sc = self.sc, Scope(self.glob)
        f.rec = self.ch(p.rec) and ret in (INT, REAL, TXT, BOOL, VOID)
        if recv is not None:
            f.alvo = Decl("alvo", recv, ro=True)
            self.sc.v["alvo"] = f.alvo
        if f.rec:
            d = Decl(self.fresh("n"), INT, ro=True)
            d.kind = "fuel"
            self.sc.v[d.name] = d
            f.params.append(d)
        for _ in range(self.pick((2, 0), (4, 1), (3, 2), (2, 3), (1, 5), (0.3, 12))):
            ty = self.type()
            d = self.declare(self.newname(), ty)
            d.glob = False
            if is_vec(ty) and self.ch(0.6):
                d.minlen = r.randint(1, 3)
            f.params.append(d)
        fn, self.fn = self.fn, f
        loop, self.loop = self.loop, 0
        depth, self.depth = self.depth, 0
        budget = self.stmt_budget
        self.stmt_budget = 14
        body = []
        if f.rec:
            fuel = f.params[0]
            self.push()
            base = [self.ret_stmt()]
            self.pop()
            body.append(N("se", None, [], ([(N("bin", BOOL, [N("var", INT, x=fuel), N("lit", INT, x=0)], "<="), base)], None)))
        body += self.stmts(r.randint(1, 5))
        if f.rec:
            for _ in range(r.randint(1, 2)):
                if recv is None:
                    c = self.call(f, 1)
                    k = 0
                else:
                    c = N("mcall", ret, [N("alvo", recv, x=f.alvo)] + [self.arg(x, 1) for x in f.params], f)
                    k = 1
                c.a[k] = N("bin", INT, [N("var", INT, x=f.params[0]), N("lit", INT, x=1)], "-")
                if ret == VOID:
                    body.append(N("expr", None, [c]))
                else:
                    d = self.declare(self.fresh("r"), ret)
                    body.append(N("decl", None, [c], d))
            if ret != VOID:
                body += self.stmts(r.randint(0, 2))
        if ret != VOID:
            body.append(self.final_ret())
        f.body = body
        self.stmt_budget = budget
        self.sc, self.fn, self.loop, self.depth = sc, fn, loop, depth
        self.regs, self.unis, self.funcs, self.reserved = known
        return f

    def final_ret(self):
        k = self.pick((5, "ret"), (1, "se"), (0.7, "escolha"), (0.8 if self.p.iguala else 0, "iguala"))
        if k == "ret":
            return self.ret_stmt()

        def blk():
            self.push()
            b = [*self.stmts(self.r.randint(0, 1)), self.ret_stmt()]
            self.pop()
            return b

        if k == "se":
            brs = [(self.expr(BOOL, 2), blk()) for _ in range(self.r.randint(1, 2))]
            return N("se", None, [], (brs, blk()))
        if k == "escolha":
            cases = [(self.expr_exact(INT, 0), blk()) for _ in range(self.r.randint(1, 2))]
            return N("escolha", None, [self.expr_exact(INT, 1)], (cases, blk()))
        self.inig += 1
        t, target = self.iguala_target(1)
        arms = self.arms(t, lambda: ("block", [*self.stmts(self.r.randint(0, 1)), self.ret_stmt()]))
        self.inig -= 1
        return N("iguala", None, [target], arms)

    def mk_tracers(self):
        out = []
        if not self.p.trace:
            return out
        self.tracers = {}
        for ty in (INT, BOOL, REAL, TXT):
            f = Func(f"t_{ty}{self.tag}", [Decl("id_t", INT), Decl("v_t", ty)], ty)
            f.hidden = True
            f.body = [
                N("escrevaln", None, [N("fstr", TXT, ["<", N("var", INT, x=f.params[0]), ">"], '"')]),
                N("retorna", None, [N("var", ty, x=f.params[1])], ty),
            ]
            self.tracers[ty] = f
            out.append(N("func", None, [], f))
        return out

    def program(self):
        """-> list of top level statements"""
        p, r = self.p, self.r
        out = self.mk_tracers()
        items = (["reg"] * r.randint(0, p.regs * 2) if p.regs else []) + (["uni"] * r.randint(0, p.unis * 2) if p.unis else []) + ["func"] * r.randint(0, p.funcs) + ["met"] * r.randint(0, 2 * p.methods) + ["glob"] * r.randint(1, p.globals_)
        r.shuffle(items)
        items.sort(key=lambda k: 0 if k in ("reg", "uni") and r.random() < 0.8 else 1)
        for it in items:
            if it == "reg":
                t = self.mk_reg()
                self.regs.append(t)
                out.append(N("reg", None, [], t))
            elif it == "uni":
                t = self.mk_uni()
                self.unis.append(t)
                out.append(N("uni", None, [], t))
            elif it == "func":
                f = self.mk_func()
                self.funcs.append(f)
                out.append(N("func", None, [], f))
            elif it == "met":
                regs = [t for t in self.regs if id(t) not in self.foreign]
                unis = [t for t in self.unis if id(t) not in self.foreign]
                rt = self.pick((3 if regs else 0, "reg"), (2 if unis else 0, "uni"), (1, "prim"))
                ty = r.choice(regs) if rt == "reg" else r.choice(unis) if rt == "uni" else self.prim()
                f = self.mk_func(recv=ty)
                self.methods.append(f)
                out.append(N("func", None, [], f))
            else:
                s = self.st_decl()
                out.append(s)
        self.stmt_budget = p.stmts * 4
        out += self.stmts(r.randint(2, p.stmts))
        # the final state of the globals
        for d in list(self.glob.v.values()):
            if isinstance(d.ty, str) and d.ty in (INT, REAL, BOOL, TXT) or (is_vec(d.ty) and isinstance(d.ty[1], str)):
                out.append(N("mostra", None, [N("var", d.ty, x=d)]))
        return out


def any_text(e):
    """contains a literal text or a nested f-string (not usable in f-strings)"""
    if not isinstance(e, N):
        return False
    if e.k in ("fstr", "iguala"):
        return True
    if e.k == "lit" and isinstance(e.x, str):
        return True
    return any(any_text(c) for c in e.a)


def mentions(e, name):
    """whether a name is used anywhere inside of e"""
    if isinstance(e, (list, tuple)):
        return any(mentions(c, name) for c in e)
    if isinstance(e, (Decl, Func)):
        return e.name == name
    if isinstance(e, N):
        return mentions(e.a, name) or mentions(e.x if not isinstance(e.x, (Reg, Uni, str)) else None, name)
    return False
