"""C12: pattern matching runs the right arm with the right bindings."""
import _boot
from rt.check import Check
from rt import wide
from rt import progs, pats
from rt.lang import *

c = Check("C12", "random union types (nested, recursive, with literals and opaque parts) and random rows of patterns; every class of values the rows tell apart is built and matched by statements, expressions, operands, blocks with produz, chains of 'se iguala' and nested matches over variables, calls, fields and elements; the arm that ran and each binding are printed; non-trivial: distinct program in which at least 4 matches ran")
c.system()


class Maker:
    def __init__(self, rng):
        self.r = rng
        self.uid = 0
        self.ts = pats.Types(rng, wide=True)
        self.out = self.ts.decls()
        self.desc = {}
        self.side = None
        for u in self.ts.unis:
            self.describer(u)

    def fresh(self, b="n"):
        self.uid += 1
        return f"{b}{self.uid}"

    def describer(self, u):
        """func dU(x: U): texto, a plain complete match"""
        p = Decl("x", u)
        f = Func("d" + u.name, [p], TXT)
        self.desc[u.name] = f
        arms = []
        for n, ts in u.variants:
            ds = [Decl(f"p{j}", t) for j, t in enumerate(ts)]
            pt = pats.variant(u, n, [N("p_bind", t, x=d) for d, t in zip(ds, ts)])
            arms.append((pt, "expr", self.text([n + "("] + ds + [")"])))
        f.body = [N("retorna", None, [N("iguala", TXT, [N("var", u, x=p)], arms)], TXT)]
        self.out.append(N("func", None, [], f))

    def shown(self, d):
        v = N("var", d.ty, x=d)
        if isinstance(d.ty, Uni):
            return [N("call", TXT, [v], self.desc[d.ty.name])]
        if isinstance(d.ty, Reg):
            return [N("fld", INT, [v], "a"), "/", N("fld", TXT, [v], "b")]
        if is_vec(d.ty):
            return [N("tam", INT, [v])]
        if is_opt(d.ty):
            return [N("valor_ou", INT, [v, N("lit", INT, x=777)])]
        return [v]

    def text(self, parts):
        """texto made of constant texts and of what bindings hold"""
        out = []
        for p in parts:
            for x in [p] if isinstance(p, str) else self.shown(p):
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
        if len(out) == 1 and isinstance(out[0], str):
            return N("lit", TXT, x=out[0])
        return N("fstr", TXT, out, '"')

    def effect(self, e):
        """the same value through a function that leaves a trace"""
        if self.side is None or self.side.params[0].ty is not e.ty:
            p = Decl("p", e.ty)
            f = Func(self.fresh("eco"), [p], e.ty)
            f.body = [N("mostra", None, [N("lit", TXT, x="avalia")]), N("retorna", None, [N("var", e.ty, x=p)], e.ty)]
            self.out.append(N("func", None, [], f))
            self.side = f
        return N("call", e.ty, [e], self.side)

    def matcher(self):
        r = self.r
        ty = r.choice(self.ts.unis * 3 + [INT, TXT])
        rw = pats.Rows(r)
        rows = rw.rows(ty, exhaustive=True)
        cl = pats.classes(rows, ty)
        named = [rw.name(p, self.fresh if r.random() < 0.7 else self.same()) for p in rows]
        form = r.choice(["stmt", "expr", "blocks", "mixed", "operand", "se", "nested", "deep"])
        param = Decl("v", ty)
        target = N("var", ty, x=param)
        fpre = []
        x = r.random()
        if x < 0.2:
            target = self.effect(target)
        elif x < 0.3 and self.ts.regs is not None:
            loc = Decl("loc", ty)
            fpre = [N("decl", None, [target], loc)]
            target = N("var", ty, x=loc)
        elif x < 0.4 and not isinstance(ty, str):
            loc = Decl("loc", VEC(ty))
            fpre = [N("decl", None, [N("veclit", VEC(ty), [target, target])], loc)]
            target = N("idx", ty, [N("var", VEC(ty), x=loc), N("lit", INT, x=1)])
        ret = VOID
        if form == "se":
            node = None
            for k in range(len(named) - 1, -1, -1):
                p, ds = named[k]
                then = [N("mostra", None, [self.text([f"{k}:"] + ds)])]
                if p.k != "p_var":
                    # only patterns of variants are useful there
                    pass
                node = [N("seiguala", None, [target], (p, then, node if node else [N("mostra", None, [N("lit", TXT, x="nenhum")])]))]
            body = node
        elif form == "stmt":
            arms = []
            for k, (p, ds) in enumerate(named):
                b = [N("mostra", None, [self.text([f"{k}:", d])]) for d in ds] or [N("mostra", None, [self.text([f"{k}"])])]
                r.shuffle(b)
                arms.append((p, "block", b))
            body = [N("iguala", None, [target], arms)]
        elif form == "operand":
            # 1000 + iguala … * 2 with numbers
            arms = []
            for k, (p, ds) in enumerate(named):
                e = N("lit", INT, x=k)
                for d in ds:
                    if d.ty == INT:
                        e = N("bin", INT, [e, N("bin", INT, [N("bin", INT, [N("var", INT, x=d), N("lit", INT, x=1000)], "%"), N("lit", INT, x=100)], "*")], "+")
                    elif d.ty == TXT:
                        e = N("bin", INT, [e, N("tam", INT, [N("var", TXT, x=d)])], "+")
                arms.append((p, "expr", e))
            m = N("paren", INT, [N("iguala", INT, [target], arms)])
            ret = INT
            body = [N("retorna", None, [N("bin", INT, [N("lit", INT, x=r.randint(1, 9) * 100000), N("bin", INT, [m, N("lit", INT, x=2)], "*")], r.choice("+-"))], INT)]
        else:
            ret = TXT
            arms = []
            for k, (p, ds) in enumerate(named):
                e = self.text([f"{k}:"] + [x for d in ds for x in (d, ",")])
                kind = "expr"
                if form in ("blocks",) or (form in ("mixed", "deep") and r.random() < 0.5):
                    st = []
                    if r.random() < 0.5:
                        st.append(N("mostra", None, [N("lit", TXT, x=f"no braço {k}")]))
                    if r.random() < 0.4:
                        d2 = Decl(self.fresh("aux"), TXT)
                        st.append(N("decl", None, [e], d2))
                        e = N("var", TXT, x=d2)
                    e = [*st, N("produz", None, [e])]
                    kind = "block"
                elif form == "nested" and ds and r.random() < 0.7:
                    # another match on something bound here, or on the target
                    us = [d for d in ds if isinstance(d.ty, Uni) or d.ty in (INT, TXT)]
                    if us:
                        d = r.choice(us)
                        rw2 = pats.Rows(r)
                        rows2 = rw2.rows(d.ty, exhaustive=True, depth=2, cap=8)
                        a2 = []
                        for k2, p2 in enumerate(rows2):
                            q2, ds2 = rw2.name(p2, self.fresh)
                            a2.append((q2, "expr", self.text([f"{k}.{k2}:"] + ds2 + [r.choice(ds)])))
                        e = N("iguala", TXT, [N("var", d.ty, x=d)], a2)
                arms.append((p, kind, e))
            m = N("iguala", TXT, [target], arms)
            if form == "deep":
                loc = Decl("res", TXT)
                body = [N("decl", None, [m], loc), N("retorna", None, [N("fstr", TXT, [N("var", TXT, x=loc), "!"], '"')], TXT)]
            else:
                body = [N("retorna", None, [m], TXT)]
        f = Func(self.fresh("f"), [param], ret)
        f.body = fpre + body
        # how it is called: a plain function, a method or the main program
        how = r.choice(["func", "func", "func", "met", "main"]) if isinstance(ty, Uni) else "func"
        if len(cl) > 24:
            cl = r.sample(cl, 24)
        calls = []
        if how == "met":
            # the same body with alvo for the target
            f.recv, f.alvo = ty, Decl("alvo", ty)
            f.alvo.kind = "alvo"
            f.params = []
            replace(f.body, param, lambda: N("alvo", ty, x=f.alvo))
        if how == "main" and ret == VOID and not fpre:
            for v, i in cl[:6]:
                g = Decl(self.fresh("g"), ty, glob=True)
                calls.append(N("decl", None, [pats.concrete(ty, v, r)], g))
                b = []
                for s in body:
                    b.append(clone(s, {id(param): g}))
                calls += b
            return calls
        self.out.append(N("func", None, [], f))
        for v, i in cl:
            e = pats.concrete(ty, v, r)
            call = N("mcall", ret, [e], f) if how == "met" else N("call", ret, [e], f)
            if how == "met" and r.random() < 0.9:
                g = Decl(self.fresh("g"), ty, glob=True)
                calls.append(N("decl", None, [e], g))
                call = N("mcall", ret, [N("var", ty, x=g)], f)
            if ret == VOID:
                calls.append(N("expr", None, [call]))
            else:
                calls.append(N("mostra", None, [call]))
        if r.random() < 0.3:
            w = Decl(self.fresh("i"), INT)
            calls = calls[:8]
            if not any(s.k == "decl" for s in calls):
                calls = [N("para", None, [N("lit", INT, x=0), N("lit", INT, x=2)], (w, calls))]
        return calls

    def same(self):
        k = [0]

        def go():
            k[0] += 1
            return "abcdfghijklmnopqrstuvwxyz"[k[0] % 25] + ("" if k[0] < 25 else str(k[0]))

        return go

    def program(self):
        calls = []
        for _ in range(self.r.choice([1, 2, 3])):
            calls += self.matcher()
        return self.out + calls


def clone(n, m):
    """a copy of a tree in which some declarations are others"""
    memo = {}

    def go(x):
        if isinstance(x, N):
            c = N(x.k, x.ty, [go(y) for y in x.a], go(x.x))
            c.tag = x.tag
            return c
        if isinstance(x, Decl):
            if id(x) in m:
                return m[id(x)]
            if x.glob:
                return x
            if id(x) not in memo:
                memo[id(x)] = Decl(x.name, x.ty, x.glob, x.ro, x.kind)
            return memo[id(x)]
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, tuple) and not is_vec(x) and not is_opt(x):
            return tuple(go(y) for y in x)
        return x

    return go(n)


def replace(body, d, mk):
    def go(x):
        if isinstance(x, N):
            x.a = [sub(y) for y in x.a]
            x.x = go2(x.x)
        return x

    def sub(y):
        if isinstance(y, N) and y.k == "var" and y.x is d:
            return mk()
        return go(y) if isinstance(y, N) else y

    def go2(x):
        if isinstance(x, list):
            return [sub(y) if isinstance(y, N) else go2(y) for y in x]
        if isinstance(x, tuple) and not is_vec(x) and not is_opt(x):
            return tuple(sub(y) if isinstance(y, N) else go2(y) for y in x)
        if isinstance(x, N):
            return sub(x)
        return x

    for i, s in enumerate(body):
        body[i] = sub(s)


def job(i, out, run):
    rng = c.rng("p", i)
    try:
        prog = Maker(rng).program()
    except pats.TooMany:
        out.n["discarded_too_many_values"] += 1
        return
    def nontrivial(p, it, e):
        k = e.out.count("\n")
        out.n["matches_observed"] += k
        return k >= 4
    progs.single(c, i, out, run, prog, rng, wild=0.3, limit=60000, only=lambda d, r: d[0] != "rejected", nontrivial=nontrivial)


c.pmap(job, c.scale(4000, 120000))
c.pmap(wide.job(c, ["variants"], "w"), c.scale(3, 7), label="w")
c.assumptions = ["the arm and the bindings of a value are those of the first row, in source order, that matches it part by part (rt/lang.py)"]
c.finish()
