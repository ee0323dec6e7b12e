"""Typed model of Amanda programs: nodes, layout printer and a reference
interpreter, written from the language's documentation and examples and
independent of the compiler and of the virtual machine."""
import math
import random
import struct
import unicodedata
import zlib
from fractions import Fraction
from decimal import Decimal

INT, REAL, BOOL, TXT, VOID, INDEF = "int", "real", "bool", "texto", "vazio", "indef"
I_MIN, I_MAX = -(2**63), 2**63 - 1


class Reg:
    """record type"""

    def __init__(self, name, fields):
        self.name, self.fields, self.methods, self.mod = name, fields, {}, None

    def __repr__(self):
        return "Reg:" + self.name


class Uni:
    """union type: variants = [(name, [types])]"""

    def __init__(self, name, variants):
        self.name, self.variants, self.methods, self.mod = name, variants, {}, None

    def __repr__(self):
        return "Uni:" + self.name


def VEC(t):
    return ("vec", t)


def OPT(t):
    return ("opt", t)


def is_vec(t):
    return isinstance(t, tuple) and t[0] == "vec"


def is_opt(t):
    return isinstance(t, tuple) and t[0] == "opt"


def zero(t):
    return {INT: 0, REAL: 0.0, BOOL: False, TXT: ""}[t]


class Decl:
    """A variable, parameter or binding. One object per declaration."""

    __slots__ = ("name", "ty", "glob", "ro", "minlen", "mod", "kind", "fixed")

    def __init__(self, name, ty, glob=False, ro=False, kind="var"):
        self.name, self.ty, self.glob, self.ro = name, ty, glob, ro
        self.minlen = 0
        self.mod = None
        self.kind = kind
        self.fixed = False

    def __repr__(self):
        return f"<{self.name}:{self.ty}>"


class Func:
    def __init__(self, name, params, ret, body=None, recv=None, alvo=None):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.recv, self.alvo = recv, alvo  # receiver type and Decl for methods
        self.mod = None
        self.native = None
        self.rec = False
        self.pure = False

    def shown(self):
        if self.recv is not None:
            return f"{tstr(self.recv)}::{self.name}"
        return self.name


class N:
    """Node. k kind, ty type, a children, x payload, l0/l1 lines"""

    __slots__ = ("k", "ty", "a", "x", "l0", "l1", "lo", "tag")

    def __init__(self, k, ty=None, a=(), x=None):
        self.k, self.ty, self.a, self.x = k, ty, list(a), x
        self.l0 = self.l1 = 0
        self.lo = 0
        self.tag = None

    def __repr__(self):
        return f"({self.k} {self.x!r} {self.a})"


def tstr(t, q=None):
    if isinstance(t, str):
        return t
    if isinstance(t, (Reg, Uni)):
        return q(t) if q else t.name
    if t[0] == "vec":
        return "[" + tstr(t[1], q) + "]"
    if t[0] == "opt":
        return tstr(t[1], q) + "?"
    raise ValueError(t)


# ---------------------------------------------------------------- values
class Vec:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Rec:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f


class Var:
    __slots__ = ("t", "n", "a")

    def __init__(self, t, n, a):
        self.t, self.n, self.a = t, n, a


def is_tie(x):
    t = Decimal(repr(x))
    d, e = Fraction(x), Fraction(t)
    return d != e and abs(d - e) * 2 == Fraction(10) ** t.as_tuple().exponent


def show_real(x):
    if x - x == 0 and is_tie(x):
        # two shortest texts are equally near
        raise Unspecified()
    return real_text(x)


def real_text(x):
    if x != x:
        return "NaN"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    s = format(Decimal(repr(x)), "f")
    if "." in s:
        i, f = s.split(".")
        if f.strip("0") == "":
            s = i
        else:
            return s
    if s == "0" and math.copysign(1, x) < 0:
        s = "-0"
    return s + ".0"


def show(v):
    if isinstance(v, bool):
        return "verdadeiro" if v else "falso"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return show_real(v)
    if isinstance(v, str):
        return v
    if v is None:
        return "nulo"
    if isinstance(v, Vec):
        return "[" + ", ".join(show(e) for e in v.v) + "]"
    if isinstance(v, Rec):
        return f"<Instância do tipo {v.t.name}>"
    raise ValueError(v)


RI = range(0x1F1E6, 0x1F200)


def graphemes(s):
    """Grapheme clusters, for texts over the repertoire the generators use."""
    out = []
    ri = 0
    hang = ""
    for ch in s:
        o = ord(ch)
        cat = unicodedata.category(ch)
        if o in range(0x1100, 0x1160):
            h = "L"
        elif o in range(0x1160, 0x11A8):
            h = "V"
        elif o in range(0x11A8, 0x1200):
            h = "T"
        elif 0xAC00 <= o <= 0xD7A3:
            h = "LV" if (o - 0xAC00) % 28 == 0 else "LVT"
        else:
            h = ""
        ext = cat in ("Mn", "Me", "Mc") or o == 0x200D or 0x1F3FB <= o <= 0x1F3FF or o == 0x200C or 0xE0020 <= o <= 0xE007F
        join = False
        if out:
            prev = out[-1]
            if prev == "\r" and ch == "\n":
                join = True
            elif prev in ("\r", "\n") or ch in ("\r", "\n"):
                join = False
            elif ext:
                join = True
            elif h and hang and (
                (hang == "L" and h in ("L", "V", "LV", "LVT"))
                or (hang in ("LV", "V") and h in ("V", "T"))
                or (hang in ("LVT", "T") and h == "T")
            ):
                join = True
            elif o in RI and ri % 2 == 1:
                join = True
            elif prev[-1] == "\u200d" and is_pict(o) and is_pict(ord(prev.rstrip("\u200d\ufe0f\U0001f3fb\U0001f3fc\U0001f3fd\U0001f3fe\U0001f3ff")[-1:] or "a")):
                join = True
        if join:
            out[-1] += ch
        else:
            out.append(ch)
        ri = ri + 1 if o in RI else 0
        hang = h if not ext else ""
    return out


def is_pict(o):
    return 0x1F300 <= o <= 0x1F3FA or 0x1F400 <= o <= 0x1FAFF or 0x2600 <= o <= 0x27BF or o == 0x2764


class RtErr(Exception):
    def __init__(self, cat, node):
        self.cat, self.node = cat, node
        self.trace = None


class Limit(Exception):
    pass


class Unspecified(Exception):
    """The reference leaves this outcome open: the program is not used."""


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Prod(Exception):
    def __init__(self, v):
        self.v = v


# category -> fragment of the message the language reports
CATS = {
    "overflow": "fora do intervalo",
    "div0": "não pode dividir",
    "mod0": "resto da divisão",
    "vecneg": "Vectores só podem ser indexados",
    "vecidx": "O tamanho do vector é",
    "txtneg": "Strings só podem ser indexadas",
    "txtidx": "O tamanho da string é",
    "nulo": "referência nula",
    "castint": "não é um inteiro válido",
    "castreal": "não é um número real válido",
    "badint": "não é um inteiro válido",
    "badreal": "não é um número real válido",
    "castindef": "Conversão inválida",
    "vecdim": "Dimensões de um vector",
    "recursion": "Limite máximo de recursão",
    "eof": "Não há mais linhas",
}


def chk(n, node):
    if I_MIN <= n <= I_MAX:
        return n
    raise RtErr("overflow", node)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def fmul(a, b):
    return a * b


def fdiv(a, b):
    return a / b


def ffmod(a, b):
    if a != a or b != b or math.isinf(a):
        return math.nan
    if math.isinf(b):
        return a
    return math.fmod(a, b)


def ftrunc(x):
    if x != x or math.isinf(x):
        return x
    r = float(math.trunc(x))
    return math.copysign(r, x) if r == 0 else r


def f2i(x):
    if x != x:
        return 0
    if x >= 2.0**63:
        return I_MAX
    if x <= -(2.0**63):
        return I_MIN
    return int(x)


def parse_int(s):
    t = s[1:] if s[:1] in "+-" and s else s
    if t and all(c in "0123456789" for c in t):
        v = int(s)
        if I_MIN <= v <= I_MAX:
            return v
    return None


def parse_real(s):
    t = s[1:] if s[:1] in ("+", "-") else s
    sign = -1.0 if s[:1] == "-" else 1.0
    if t.lower() in ("inf", "infinity"):
        return sign * math.inf
    if t.lower() == "nan":
        return math.nan
    import re

    if re.fullmatch(r"(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?", t):
        return float(s)
    return None


class Env:
    __slots__ = ("loc", "func", "cur")

    def __init__(self, func):
        self.loc = {}
        self.func = func
        self.cur = None


class Interp:
    """Executes a program given as a list of modules (import order, main
    last); every module is a list of statements."""

    def __init__(self, stdin="", limit=20000, depth=1000):
        self.out = []
        self.g = {}
        self.steps = 0
        self.limit = limit
        self.stdin = stdin
        self.pos = 0
        self.maxdepth = depth
        self.stack = []
        self.calls = 0
        self.ev_count = {}

    # -------------------------------------------------- running
    def run_modules(self, modules):
        """-> ('ok'|'err', RtErr|None)"""
        try:
            for mod in modules:
                self.stack = [Env(None)]
                self.block(mod, self.stack[0])
            return None
        except RtErr as e:
            # innermost frame executes e.node; callers their current call
            tr = []
            for i, env in enumerate(reversed(self.stack)):
                node = e.node if i == 0 else env.cur
                tr.append((env.func.shown() if env.func else None, node))
            e.trace = tr
            return e

    def output(self):
        return "".join(self.out)

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise Limit()

    def block(self, stmts, env):
        for s in stmts:
            self.st(s, env)

    # -------------------------------------------------- statements
    def st(self, s, env):
        self.tick()
        getattr(self, "s_" + s.k)(s, env)

    def s_decl(self, s, env):
        d = s.x
        if s.a:
            v = self.conv(self.ev(s.a[0], env), s.a[0].ty, d.ty)
        else:
            v = zero(d.ty)
        self.setv(d, v, env)

    def s_mdecl(self, s, env):
        for d in s.x:
            self.setv(d, zero(d.ty), env)

    def s_nop(self, s, env):
        pass

    def s_func(self, s, env):
        pass

    s_reg = s_uni = s_usa = s_func

    def setv(self, d, v, env):
        if d.glob:
            self.g[d] = v
        else:
            env.loc[d] = v

    def s_assign(self, s, env):
        # a = targets..., value ; x = op or None. Chained targets share value
        *targets, val = s.a
        if len(targets) == 1:
            t = targets[0]
            if t.k == "var":
                v = self.rhs(s, t, val, env)
                self.setv(t.x, v, env)
            elif t.k == "idx":
                vec = self.ev(t.a[0], env)
                i = self.ev(t.a[1], env)
                v = self.rhs(s, t, val, env)
                self.vcheck(vec, i, s)
                vec.v[i] = v
            elif t.k == "fld":
                o = self.ev(t.a[0], env)
                v = self.rhs(s, t, val, env)
                o.f[t.x] = v
        else:
            # places are found left to right, then the value is computed and
            # stored from the last place to the first
            places = []
            for t in targets:
                if t.k == "idx":
                    places.append((self.ev(t.a[0], env), self.ev(t.a[1], env)))
                elif t.k == "fld":
                    places.append(self.ev(t.a[0], env))
                else:
                    places.append(None)
            v = self.ev(val, env)
            ty = val.ty
            for t, pl in zip(reversed(targets), reversed(places)):
                v = self.conv(v, ty, t.ty)
                ty = t.ty
                if t.k == "var":
                    self.setv(t.x, v, env)
                elif t.k == "idx":
                    vec, i = pl
                    self.vcheck(vec, i, s)
                    vec.v[i] = v
                else:
                    pl.f[t.x] = v

    def rhs(self, s, t, val, env):
        if s.x:
            l = self.ev(t, env)
            r = self.ev(val, env)
            rt = bin_type(s.x, t.ty, val.ty)
            v = self.binop(s.x, l, r, t.ty, val.ty, s)
            return self.conv(v, rt, t.ty)
        return self.conv(self.ev(val, env), val.ty, t.ty)

    def s_expr(self, s, env):
        self.ev(s.a[0], env)

    def s_mostra(self, s, env):
        self.out.append(show(self.ev(s.a[0], env)) + "\n")

    def s_escrevaln(self, s, env):
        self.out.append(show(self.ev(s.a[0], env)) + "\n")

    def s_escreva(self, s, env):
        self.out.append(show(self.ev(s.a[0], env)))

    def s_se(self, s, env):
        # x = (branches [(cond, block)], else)
        brs, els = s.x
        for c, b in brs:
            if self.ev(c, env):
                self.block(b, env)
                return
        if els is not None:
            self.block(els, env)

    def s_escolha(self, s, env):
        cases, els = s.x
        v = self.ev(s.a[0], env)
        for c, b in cases:
            cv = self.ev(c, env)
            if self.eq(v, cv, s.a[0].ty, c.ty):
                self.block(b, env)
                return
        if els is not None:
            self.block(els, env)

    def s_enquanto(self, s, env):
        while self.ev(s.a[0], env):
            self.tick()
            try:
                self.block(s.x, env)
            except Brk:
                break
            except Cnt:
                continue

    def s_para(self, s, env):
        d, body = s.x
        start, end = s.a[0], s.a[1]
        inc = s.a[2] if len(s.a) > 2 else None
        env.loc[d] = self.ev(start, env)
        while env.loc[d] < self.ev(end, env):
            self.tick()
            try:
                self.block(body, env)
            except Brk:
                break
            except Cnt:
                pass
            k = self.ev(inc, env) if inc else 1
            env.loc[d] = chk(env.loc[d] + k, s)

    def s_quebra(self, s, env):
        raise Brk()

    def s_continua(self, s, env):
        raise Cnt()

    def s_retorna(self, s, env):
        if s.a:
            v = self.ev(s.a[0], env)
            raise Ret(self.conv(v, s.a[0].ty, s.x))
        raise Ret(None)

    def s_produz(self, s, env):
        raise Prod(self.ev(s.a[0], env))

    def s_iguala(self, s, env):
        self.iguala(s, env, False)

    def s_seiguala(self, s, env):
        # a=[target], x=(pattern, then, else)
        p, th, el = s.x
        v = self.ev(s.a[0], env)
        b = {}
        if self.match(p, v, b):
            env.loc.update(b)
            self.block(th, env)
        elif el is not None:
            self.block(el, env)

    def iguala(self, s, env, want):
        v = self.ev(s.a[0], env)
        for p, kind, body in s.x:
            b = {}
            if self.match(p, v, b):
                env.loc.update(b)
                if kind == "expr":
                    return self.ev(body, env)
                try:
                    self.block(body, env)
                except Prod as e:
                    return e.v
                return None
        raise AssertionError("not exhaustive")

    def match(self, p, v, b):
        k = p.k
        if k == "p_any":
            return True
        if k == "p_bind":
            b[p.x] = v
            return True
        if k == "p_lit":
            return v == p.x
        if k == "p_var":
            if v.n != p.x:
                return False
            return all(self.match(q, w, b) for q, w in zip(p.a, v.a))
        raise ValueError(k)

    # -------------------------------------------------- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Limit()
        return getattr(self, "e_" + e.k)(e, env)

    def conv(self, v, frm, to):
        if frm == INT and to == REAL:
            return float(v)
        if is_opt(to) and not is_opt(frm) and v is not None:
            return self.conv(v, frm, to[1])
        if is_opt(to) and is_opt(frm) and v is not None and frm != to:
            return self.conv(v, frm[1], to[1])
        return v

    def e_lit(self, e, env):
        return e.x

    def e_fstr(self, e, env):
        vs = []
        for p in e.a:
            vs.append(p if isinstance(p, str) else show(self.ev(p, env)))
        return "".join(vs)

    def e_var(self, e, env):
        d = e.x
        return self.g[d] if d.glob else env.loc[d]

    def e_alvo(self, e, env):
        return env.loc[e.x]

    def e_paren(self, e, env):
        return self.ev(e.a[0], env)

    def e_un(self, e, env):
        v = self.ev(e.a[0], env)
        if e.x == "nao":
            return not v
        if e.x == "-":
            return chk(-v, e) if isinstance(v, int) else -v
        return v

    def e_bin(self, e, env):
        l = self.ev(e.a[0], env)
        r = self.ev(e.a[1], env)
        return self.binop(e.x, l, r, e.a[0].ty, e.a[1].ty, e)

    def eq(self, l, r, lt, rt):
        if lt == INT and rt == REAL:
            return float(l) == r
        if lt == REAL and rt == INT:
            return l == float(r)
        return l == r

    def binop(self, op, l, r, lt, rt, node):
        if op in ("e", "ou"):
            return (l and r) if op == "e" else (l or r)
        if op == "==":
            return self.eq(l, r, lt, rt)
        if op == "!=":
            return not self.eq(l, r, lt, rt)
        if lt != rt:
            l, r = float(l), float(r)
        real = isinstance(l, float)
        if op == "<":
            return l < r
        if op == "<=":
            return l <= r
        if op == ">":
            return l > r
        if op == ">=":
            return l >= r
        if op == "+":
            return l + r if real else chk(l + r, node)
        if op == "-":
            return l - r if real else chk(l - r, node)
        if op == "*":
            return l * r if real else chk(l * r, node)
        if op == "/":
            if r == 0:
                raise RtErr("div0", node)
            return float(l) / float(r)
        if op == "//":
            if r == 0:
                raise RtErr("div0", node)
            return ftrunc(l / r) if real else chk(tdiv(l, r), node)
        if op == "%":
            if r == 0:
                raise RtErr("mod0", node)
            if real:
                return ffmod(l, r)
            if r == -1 and l == I_MIN:
                raise Unspecified()
            return l - r * tdiv(l, r)
        raise ValueError(op)

    def e_call(self, e, env):
        f = e.x
        args = [self.ev(a, env) for a in e.a]
        if f.native:
            return f.native(self, args, e)
        return self.invoke(f, None, args, e, env)

    def e_mcall(self, e, env):
        # a = [receiver, args...]
        recv = self.ev(e.a[0], env)
        args = [self.ev(a, env) for a in e.a[1:]]
        return self.invoke(e.x, (recv,), args, e, env)

    def invoke(self, f, recv, args, e, env):
        self.tick()
        self.calls += 1
        nodes = e.a[1:] if recv else e.a
        if len(self.stack) >= self.maxdepth:
            raise RtErr("recursion", e)
        ne = Env(f)
        if recv:
            ne.loc[f.alvo] = recv[0]
        for d, v, n in zip(f.params, args, nodes):
            ne.loc[d] = self.conv(v, n.ty, d.ty)
        old = env.cur
        env.cur = e
        self.stack.append(ne)
        try:
            self.block(f.body, ne)
            r = None
            if f.ret != VOID:
                raise Unspecified()  # fell off the end
        except Ret as x:
            r = x.v
        self.stack.pop()
        env.cur = old
        return r

    def vcheck(self, vec, i, node):
        if i < 0:
            raise RtErr("vecneg", node)
        if i >= len(vec.v):
            raise RtErr("vecidx", node)

    def e_idx(self, e, env):
        v = self.ev(e.a[0], env)
        i = self.ev(e.a[1], env)
        if isinstance(v, str):
            if i < 0:
                raise RtErr("txtneg", e)
            g = graphemes(v)
            if i >= len(g):
                raise RtErr("txtidx", e)
            return g[i]
        self.vcheck(v, i, e)
        return v.v[i]

    def e_fld(self, e, env):
        o = self.ev(e.a[0], env)
        return o.f[e.x]

    def e_veclit(self, e, env):
        el = e.ty[1]
        return Vec([self.conv(self.ev(a, env), a.ty, el) for a in e.a])

    def e_vecnew(self, e, env):
        dims = [self.ev(a, env) for a in e.a]
        if any(d < 0 for d in dims):
            raise RtErr("vecdim", e)

        def mk(k):
            if k == len(dims) - 1:
                return Vec([zero(e.x)] * dims[k])
            return Vec([mk(k + 1) for _ in range(dims[k])])

        return mk(0)

    def e_new(self, e, env):
        # x = (Reg, [field names in the order written])
        reg, names = e.x
        ft = dict(reg.fields)
        f = {}
        for n, a in zip(names, e.a):
            f[n] = self.conv(self.ev(a, env), a.ty, ft[n])
        return Rec(reg, f)

    def e_variant(self, e, env):
        uni, name = e.x
        ts = dict(uni.variants)[name]
        return Var(uni, name, [self.conv(self.ev(a, env), a.ty, t) for a, t in zip(e.a, ts)])

    def e_valor(self, e, env):
        v = self.ev(e.a[0], env)
        if v is None:
            raise RtErr("nulo", e)
        return v

    def e_valor_ou(self, e, env):
        v = self.ev(e.a[0], env)
        d = self.ev(e.a[1], env)
        d = self.conv(d, e.a[1].ty, e.ty)
        return d if v is None else v

    def e_isnull(self, e, env):
        v = self.ev(e.a[0], env)
        return (v is None) == (e.x == "==")

    def e_cast(self, e, env):
        v = self.ev(e.a[0], env)
        frm, to = e.a[0].ty, e.ty
        if frm == to:
            return v
        if frm == INDEF:
            have = {bool: BOOL, int: INT, float: REAL, str: TXT}[type(v)]
            if have != to:
                raise RtErr("castindef", e)
            return v
        if to == INDEF:
            return v
        return self.do_cast(v, to, e)

    def do_cast(self, v, to, e):
        if to == TXT:
            return show(v)
        if to == INT:
            if isinstance(v, str):
                r = parse_int(v)
                if r is None:
                    raise RtErr("castint", e)
                return r
            return f2i(v) if isinstance(v, float) else int(v)
        if to == REAL:
            if isinstance(v, str):
                r = parse_real(v)
                if r is None:
                    raise RtErr("castreal", e)
                return r
            return float(v)
        if to == BOOL:
            return v != "" if isinstance(v, str) else v != 0
        raise ValueError(to)

    def e_iguala(self, e, env):
        return self.iguala(e, env, True)

    def e_tam(self, e, env):
        v = self.ev(e.a[0], env)
        return len(v.v) if isinstance(v, Vec) else len(graphemes(v))

    def e_txtcontem(self, e, env):
        a = self.ev(e.a[0], env)
        b = self.ev(e.a[1], env)
        return b in a

    def e_anexa(self, e, env):
        v = self.ev(e.a[0], env)
        x = self.ev(e.a[1], env)
        v.v.append(self.conv(x, e.a[1].ty, e.a[0].ty[1]))
        return None

    def e_remova(self, e, env):
        v = self.ev(e.a[0], env)
        i = self.ev(e.a[1], env)
        self.vcheck(v, i, e)
        return v.v.pop(i)

    def e_leia(self, e, env):
        p = self.ev(e.a[0], env)
        self.out.append(show(p))
        if self.pos >= len(self.stdin):
            raise RtErr("eof", e)
        j = self.stdin.find("\n", self.pos)
        if j < 0:
            line, self.pos = self.stdin[self.pos :], len(self.stdin)
        else:
            line, self.pos = self.stdin[self.pos : j], j + 1
        if e.x == "leia":
            return line
        if e.x == "leia_int":
            r = parse_int(line)
            if r is None:
                raise RtErr("badint", e)
            return r
        r = parse_real(line)
        if r is None:
            raise RtErr("badreal", e)
        return r


def bin_type(op, lt, rt):
    if op in ("e", "ou", "==", "!=", "<", "<=", ">", ">="):
        return BOOL
    if op == "/":
        return REAL
    return INT if lt == INT and rt == INT else REAL


# ---------------------------------------------------------------- printer
PREC = {"==": 1, "!=": 1, "<": 2, "<=": 2, ">": 2, ">=": 2, "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}

NL, SOFT, BR = "\0NL", "\0SOFT", "\0BR"  # statement end, free line end, break inside brackets
IND, DED = "\0IND", "\0DED"


class Printer:
    """Turns nodes into a stream of tokens and layout markers."""

    def __init__(self, rng=None, parens=0.0, qual=None):
        self.o = []
        self.rng = rng or random.Random(0)
        self.parens = parens
        self.qual = qual or (lambda d: d.name)
        # how often each text was written: both quotes are used in turns
        self.texts = {}

    def t(self, *toks):
        self.o.extend(toks)

    def lit(self, v):
        if not isinstance(v, str) or '"' in v or "'" in v or self.texts is None:
            self.t(*lit_toks(v))
            return
        n = self.texts.get(v, zlib.crc32(v.encode()) >> 3)
        self.texts[v] = n + 1
        # mostly the usual quotes
        q = "'" if n % 3 == 2 else '"'
        self.t(q + v + q)

    # expressions ------------------------------------------------------
    def prec(self, e):
        if e.k == "bin":
            return PREC[e.x]
        if e.k == "isnull":
            return 1
        if e.k == "un":
            return 5
        if e.k == "cast":
            return 6
        if e.k == "lit" and not isinstance(e.x, (bool, str, type(None))):
            if e.x < 0 or (isinstance(e.x, float) and math.copysign(1, e.x) < 0):
                return 5
        return 7

    def e(self, e, minp=0):
        self.o.append(("<", e))
        p = self.prec(e)
        n = 0
        if p < minp:
            n = 1
        if self.parens and self.rng.random() < self.parens:
            n += 1
        for _ in range(n):
            self.t("(")
        getattr(self, "e_" + e.k)(e)
        for _ in range(n):
            self.t(")")
        self.o.append((">", e))

    def e_lit(self, e):
        self.lit(e.x)

    def e_fstr(self, e):
        s = 'f"' if e.x in (None, '"') else "f'"
        q = s[1]
        for p in e.a:
            if isinstance(p, str):
                s += p.replace("{", "{{")
            else:
                sub = Printer(self.rng, 0, self.qual)
                sub.texts = None
                sub.e(p)
                s += "{" + flat(sub.o) + "}"
        self.t(s + q)
        for p in e.a:
            if not isinstance(p, str):
                self.subnodes(p, e)

    def subnodes(self, p, e):
        # nodes printed inside of the token of an f-string are on its line
        self.o.append(("<", p))
        self.o.append((">in", p))
        for c in children(p):
            self.subnodes(c, e)

    def e_var(self, e):
        self.t(self.qual(e.x))

    def e_alvo(self, e):
        self.t("alvo")

    def e_paren(self, e):
        self.t("(")
        self.e(e.a[0])
        self.t(")")

    def e_un(self, e):
        self.t(e.x)
        self.e(e.a[0], 5)

    def e_bin(self, e):
        p = PREC[e.x]
        self.e(e.a[0], p)
        self.t(e.x)
        self.e(e.a[1], p + 1)

    def e_isnull(self, e):
        if e.tag == "swap":
            self.t("nulo", e.x)
            self.e(e.a[0], 2)
        else:
            self.e(e.a[0], 1)
            self.t(e.x, "nulo")

    def args(self, args):
        self.t("(", BR)
        for i, a in enumerate(args):
            if i:
                self.t(",", BR)
            self.e(a)
        self.t(BR, ")")

    def e_call(self, e):
        self.t(self.qual(e.x))
        self.args(e.a)

    def e_mcall(self, e):
        self.e(e.a[0], 7)
        self.t(".", e.x.name)
        self.args(e.a[1:])

    def e_idx(self, e):
        self.e(e.a[0], 7)
        self.t("[")
        self.e(e.a[1])
        self.t("]")

    def e_fld(self, e):
        self.e(e.a[0], 7)
        self.t(".", e.x)

    def ty(self, t):
        self.t(*self.tytoks(t))

    def tytoks(self, t):
        if isinstance(t, (Reg, Uni)):
            return [self.qual(t)]
        if isinstance(t, str):
            return [t]
        if t[0] == "vec":
            return ["[", *self.tytoks(t[1]), "]"]
        return [*self.tytoks(t[1]), "?"]

    def e_veclit(self, e):
        self.t("[")
        self.ty(e.ty[1])
        self.t(":")
        for i, a in enumerate(e.a):
            if i:
                self.t(",")
            self.t(BR)
            self.e(a)
        self.t(*([BR] if e.a else []), "]")

    def e_vecnew(self, e):
        self.t("vec", "(", BR, e.x)
        for a in e.a:
            self.t(",", BR)
            self.e(a)
        self.t(BR, ")")

    def e_new(self, e):
        reg, names = e.x
        self.t(self.qual(reg), "(", BR)
        for i, (n, a) in enumerate(zip(names, e.a)):
            if i:
                self.t(",", BR)
            self.t(n, ":")
            self.e(a)
        self.t(BR, ")")

    def e_variant(self, e):
        uni, name = e.x
        self.t(self.qual(uni), "::", name)
        if dict(uni.variants)[name]:
            self.args(e.a)

    def e_valor(self, e):
        self.e(e.a[0], 7)
        self.t(".", "valor")

    def e_valor_ou(self, e):
        self.e(e.a[0], 7)
        self.t(".", "valor_ou")
        self.args(e.a[1:])

    def e_cast(self, e):
        self.e(e.a[0], 7)
        self.t(":>")
        self.ty(e.ty)

    def e_tam(self, e):
        self.t("tam")
        self.args(e.a)

    def e_txtcontem(self, e):
        self.t("txt_contem")
        self.args(e.a)

    def e_anexa(self, e):
        self.t("anexa")
        self.args(e.a)

    def e_remova(self, e):
        self.t("remova")
        self.args(e.a)

    def e_leia(self, e):
        self.t(e.x)
        self.args(e.a)

    def e_iguala(self, e):
        self.iguala(e)

    def pat(self, p):
        self.o.append(("<", p))
        if p.k == "p_any":
            self.t("_")
        elif p.k == "p_bind":
            self.t(p.x.name)
        elif p.k == "p_lit":
            self.lit(p.x)
        else:
            self.t(self.qual(p.tag), "::", p.x)
            if p.a:
                self.t("(")
                for i, q in enumerate(p.a):
                    if i:
                        self.t(",")
                    self.pat(q)
                self.t(")")
        self.o.append((">", p))

    def iguala(self, s):
        self.t("iguala")
        self.e(s.a[0])
        self.t(SOFT, IND)
        for i, (p, kind, body) in enumerate(s.x):
            if i:
                self.t(",", SOFT)
            self.pat(p)
            self.t("=>")
            if kind == "expr":
                self.t(BR)
                self.e(body)
            else:
                self.t("faca")
                self.body(body)
                self.t("fim")
        self.t(DED, SOFT, "fim")

    # statements -------------------------------------------------------
    def body(self, stmts):
        self.t(SOFT, IND)
        for s in stmts:
            self.s(s)
        self.t(DED)

    def s(self, s):
        self.o.append(("<", s))
        simple = getattr(self, "s_" + s.k)(s)
        self.o.append((">", s))
        self.t(NL if simple else SOFT)

    def s_decl(self, s):
        self.t(s.x.name, ":")
        self.ty(s.x.ty)
        if s.a:
            self.t("=")
            self.e(s.a[0])
        return True

    def s_mdecl(self, s):
        for i, d in enumerate(s.x):
            if i:
                self.t(",")
            self.t(d.name)
        self.t(":")
        self.ty(s.x[0].ty)
        return True

    def s_raw(self, s):
        self.t(s.x)
        return True

    def s_usa(self, s):
        self.t("usa", '"' + s.x[0] + '"')
        if s.x[1] is not None:
            self.t("=>", *s.x[1])
        return True

    def s_assign(self, s):
        *ts, v = s.a
        for i, t in enumerate(ts):
            self.e(t)
            self.t((s.x + "=") if s.x else "=")
        self.e(v)
        return True

    def s_expr(self, s):
        # an instruction that begins with 'iguala' is only the match
        if self.leftmost(s.a[0]).k == "iguala" and s.a[0].k != "iguala":
            self.t("(")
            self.e(s.a[0])
            self.t(")")
        else:
            self.e(s.a[0])
        return True

    def leftmost(self, e):
        while e.k in ("bin", "cast", "idx", "fld", "mcall", "valor", "valor_ou", "isnull") and e.a and isinstance(e.a[0], N):
            e = e.a[0]
        return e

    def s_mostra(self, s):
        self.t("mostra")
        self.e(s.a[0])
        return True

    def s_escrevaln(self, s):
        self.t("escrevaln")
        self.args(s.a)
        return True

    def s_escreva(self, s):
        self.t("escreva")
        self.args(s.a)
        return True

    def s_se(self, s):
        brs, els = s.x
        for i, (c, b) in enumerate(brs):
            self.t("senaose" if i else "se")
            if i == 0 and starts_with_iguala(c):
                self.t("(")
                self.e(c)
                self.t(")")
            else:
                self.e(c)
            self.t("entao")
            self.body(b)
        if els is not None:
            self.t("senao")
            self.body(els)
        self.t("fim")

    def s_escolha(self, s):
        cases, els = s.x
        self.t("escolha")
        self.e(s.a[0])
        self.t(":", SOFT)
        for c, b in cases:
            self.t("caso")
            self.e(c)
            self.t(":")
            self.body(b)
        if els is not None:
            self.t("senao", ":")
            self.body(els)
        self.t("fim")

    def s_enquanto(self, s):
        self.t("enquanto")
        self.e(s.a[0])
        self.t("faca")
        self.body(s.x)
        self.t("fim")

    def s_para(self, s):
        d, body = s.x
        self.t("para", d.name, "de")
        self.e(s.a[0])
        self.t("..")
        self.e(s.a[1])
        if len(s.a) > 2:
            self.t("inc")
            self.e(s.a[2])
        self.t("faca")
        self.body(body)
        self.t("fim")

    def s_quebra(self, s):
        self.t("quebra")
        return True

    def s_continua(self, s):
        self.t("continua")
        return True

    def s_retorna(self, s):
        self.t("retorna")
        if s.a:
            self.e(s.a[0])
        return True

    def s_produz(self, s):
        self.t("produz")
        self.e(s.a[0])
        return True

    def s_iguala(self, s):
        self.iguala(s)

    def s_seiguala(self, s):
        p, th, el = s.x
        self.t("se", "iguala")
        self.e(s.a[0])
        self.t("=>")
        self.pat(p)
        self.t("entao")
        self.body(th)
        if el is not None:
            self.t("senao")
            self.body(el)
        self.t("fim")

    def s_func(self, s):
        f = s.x
        if f.recv is not None:
            self.t("met")
            self.ty(f.recv)
            self.t("::", f.name, "(", "alvo")
            for d in f.params:
                self.t(",")
                self.t(d.name, ":")
                self.ty(d.ty)
        else:
            self.t("func", f.name, "(")
            for i, d in enumerate(f.params):
                if i:
                    self.t(",")
                self.t(d.name, ":")
                self.ty(d.ty)
        self.t(")")
        if f.ret != VOID:
            self.t(":")
            self.ty(f.ret)
        self.body(f.body)
        self.t("fim")

    def s_reg(self, s):
        self.t("registo", s.x.name, SOFT, IND)
        for n, ty in s.x.fields:
            self.t(n, ":")
            self.ty(ty)
            self.t(NL)
        self.t(DED, "fim")

    def s_uni(self, s):
        self.t("uniao", s.x.name, SOFT, IND)
        for i, (n, ts) in enumerate(s.x.variants):
            if i:
                self.t(",", SOFT)
            self.t(n)
            if ts:
                self.t("(")
                for j, ty in enumerate(ts):
                    if j:
                        self.t(",")
                    self.ty(ty)
                self.t(")")
        self.t(SOFT, DED, "fim")


def starts_with_iguala(e):
    while e.k in ("bin", "isnull", "mcall", "idx", "fld", "valor", "valor_ou", "cast") and e.a:
        e = e.a[0]
    return e.k == "iguala"


def children(e):
    out = [c for c in e.a if isinstance(c, N)]
    return out


def esc(s, q):
    r = s.replace("\\", "\\\\").replace(q, "\\" + q)
    r = r.replace("\n", "\\n").replace("\t", "\\t")
    return q + r + q


def lit_toks(v):
    if isinstance(v, bool):
        return ["verdadeiro" if v else "falso"]
    if v is None:
        return ["nulo"]
    if isinstance(v, int):
        return [str(v)] if v >= 0 else ["-", str(-v)]
    if isinstance(v, float):
        s = real_text(abs(v))
        if math.copysign(1, v) < 0:
            return ["-", s]
        return [s]
    q = "'" if '"' in v and "'" not in v else '"'
    return [q + v + q]


def is_word(c):
    return c.isalnum() or c == "_"


def need_space(a, b):
    if not a or not b:
        return False
    x, y = a[-1], b[0]
    if is_word(x) and (is_word(y) or y in "\"'"):
        return True
    if x.isdigit() and y == ".":
        return not (b == ".." and a.isdigit())
    if x == "." and y.isdigit():
        return True
    if x in "\"'" and is_word(y):
        return False
    ops = "+-*/%=<>!:.@?"
    if x in ops and y in ops:
        return True
    return False


def flat(items):
    s = ""
    prev = ""
    for it in items:
        if isinstance(it, tuple) or it[0] == "\0":
            continue
        if prev and (need_space(prev, it) or (prev[-1] not in "([.:" and it[0] not in ")].,([:?" and prev != "::")):
            s += " "
        s += it
        prev = it
    return s


class Layout:
    """How a token stream becomes text. plain() is the usual style."""

    def __init__(self, rng=None, wild=False):
        self.rng = rng or random.Random(0)
        r = self.rng
        self.wild = wild
        if wild:
            self.p_tight = r.choice([0, 0.3, 0.9])
            self.p_extra = r.choice([0, 0.1, 0.3])
            self.p_blank = r.choice([0, 0.1, 0.3])
            self.p_comment = r.choice([0, 0.1, 0.3])
            self.p_semi = r.choice([0, 0, 0.2, 0.5])
            self.p_break = r.choice([0, 0.1, 0.4])
            self.p_join = r.choice([0, 0, 0.2, 0.6])
            self.ind = r.choice([0, 1, 2, 4, "\t"])
        else:
            self.p_tight = self.p_extra = self.p_blank = self.p_comment = 0
            self.p_semi = self.p_break = self.p_join = 0
            self.ind = 2

    COMMENTS = ["# comentário", "#", "# fim", "# se x > 1 entao", "#'", '# "aspas', "# a = b ; c", "#!!@ç", "# \\n {x}"]

    def render(self, items, breaks=True):
        r = self.rng
        out = []
        line = 1
        lvl = 0
        bol = True  # at the beginning of a line
        prev = ""
        open_nodes = []
        pend = []  # nodes waiting for their first token
        last_line = 1

        def newline():
            nonlocal line, bol, prev
            if self.p_comment and r.random() < self.p_comment:
                out.append(("" if bol else " ") + r.choice(self.COMMENTS))
            out.append("\n")
            line += 1
            bol = True
            prev = ""
            while self.p_blank and r.random() < self.p_blank:
                if r.random() < 0.4:
                    out.append(r.choice(["", " ", "\t"]) + (r.choice(self.COMMENTS) if r.random() < 0.6 else ""))
                out.append("\n")
                line += 1

        n = len(items)
        for i, it in enumerate(items):
            if isinstance(it, tuple):
                if it[0] == "<":
                    pend.append(it[1])
                elif it[0] == ">in":
                    it[1].l0 = it[1].l1 = last_line
                    if it[1] in pend:
                        pend.remove(it[1])
                else:
                    it[1].l1 = last_line
                continue
            if it == NL:
                if self.p_semi and r.random() < self.p_semi:
                    out.append(r.choice([";", " ;"]) if r.random() < 0.5 else "; ")
                    prev = ";"
                    if r.random() < 0.3:
                        newline()
                else:
                    newline()
                continue
            if it == SOFT:
                if bol:
                    continue
                if self.p_join and r.random() < self.p_join:
                    continue
                newline()
                continue
            if it == BR:
                if self.p_break and breaks and r.random() < self.p_break:
                    newline()
                continue
            if it == IND:
                lvl += 1
                continue
            if it == DED:
                lvl -= 1
                continue
            if bol:
                if self.wild and r.random() < 0.2:
                    out.append(r.choice(["", " ", "   ", "\t"]))
                else:
                    out.append(self.ind * lvl if isinstance(self.ind, str) else " " * (self.ind * lvl))
                bol = False
            else:
                if need_space(prev, it):
                    out.append(" ")
                elif self.p_tight and r.random() < self.p_tight:
                    pass
                elif prev and prev[-1] not in "([." and it[0] not in ")].,([:?" and prev != "::":
                    out.append(" ")
                if self.p_extra and r.random() < self.p_extra:
                    out.append(r.choice([" ", "  ", "\t"]))
            start = line
            out.append(it)
            line += it.count("\n")
            for nd in pend:
                nd.l0 = start
            pend = []
            last_line = line
            prev = it
        return "".join(out)


def render(stmts, seed=0, wild=False, parens=0.0, qual=None):
    rng = random.Random(seed)
    p = Printer(rng, parens if wild else 0, qual)
    for s in stmts:
        p.s(s)
    return Layout(rng, wild).render(p.o)
