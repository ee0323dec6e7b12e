"""Pattern matching: random union types, rows of patterns, and what they
cover, found by splitting the values at every place a pattern looks at."""
from .lang import *

CAP = 1500
INTS = [0, 1, 2, 3, 7, 10, 42, 255, 65536, I_MAX]
TXTS = ["", "a", "b", "ab", "A", "olá", "é", "e\u0301", "1", " ", "'", '"', "a\\b", "a b", "verdadeiro", "👩‍👩‍👧", "x\ny", "{", "{a}", "_"]


class TooMany(Exception):
    pass


class W:
    """a part of a value no pattern looks at"""


WILD = W()


class Types:
    def __init__(self, rng, pre="", n=None, recursive=0.3, wide=False):
        r = self.r = rng
        self.regs, self.unis = [], []
        self.pre = pre
        if r.random() < 0.4:
            self.regs.append(Reg(pre + "R", [("a", INT), ("b", TXT)]))
        used = ["A", "B", "C", "D", "E", "F", "Nada", "Cons", "Ok", "Erro"]
        for k in range(n or r.choice([1, 2, 2, 3])):
            u = Uni(f"{pre}U{k}", [])
            names = used[:] if r.random() < 0.5 else [f"V{k}{j}" for j in range(10)]
            r.shuffle(names)
            nv = r.choice([1, 2, 2, 3, 3, 4, 6])
            rec = r.random() < recursive
            for j in range(nv):
                ts = []
                for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3, *([4, r.randint(5, 9)] if wide else [])])):
                    x = r.random()
                    if rec and j and x < 0.35:
                        ts.append(u)
                    elif self.unis and x < 0.55:
                        ts.append(r.choice(self.unis))
                    elif self.regs and x < 0.6:
                        ts.append(self.regs[0])
                    else:
                        ts.append(r.choice([INT, INT, TXT, TXT, BOOL, REAL, OPT(INT), VEC(INT)]))
                u.variants.append((names[j], ts))
            if rec:
                # a value must exist: the first variant doesn't need the type
                u.variants[0] = (u.variants[0][0], [t for t in u.variants[0][1] if t is not u])
                vs = u.variants[:]
                r.shuffle(vs)
                u.variants = vs
            self.unis.append(u)

    def decls(self):
        return [N("reg", None, [], t) for t in self.regs] + [N("uni", None, [], u) for u in self.unis]


def wild(ty, r=None, bind=None):
    if bind is not None and r.random() < 0.6:
        return N("p_bind", ty, x=Decl(bind(), ty))
    return N("p_any", ty)


def variant(u, n, args):
    p = N("p_var", u, args, n)
    p.tag = u
    return p


class Rows:
    def __init__(self, rng, ints=None, txts=None):
        self.r = rng
        self.ints = ints or rng.sample(INTS, rng.choice([2, 3, 4]))
        self.txts = txts or rng.sample(TXTS, rng.choice([2, 3, 4]))

    def pat(self, ty, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.3:
            return N("p_any", ty)
        if isinstance(ty, Uni):
            n, ts = r.choice(ty.variants)
            if ts and r.random() < 0.05:
                return variant(ty, n, [])
            return variant(ty, n, [self.pat(t, depth - 1) for t in ts])
        if ty == INT:
            return N("p_lit", ty, x=r.choice(self.ints))
        if ty == TXT:
            return N("p_lit", ty, x=r.choice(self.txts))
        return N("p_any", ty)

    def cover(self, ty, depth):
        """patterns that together match every value of ty"""
        r = self.r
        if depth <= 0 or not (isinstance(ty, Uni) or ty in (INT, TXT)) or r.random() < 0.35:
            return [N("p_any", ty)]
        if isinstance(ty, Uni):
            out = []
            for n, ts in ty.variants:
                if ts and r.random() < 0.05:
                    out.append(variant(ty, n, []))
                else:
                    out += [variant(ty, n, list(a)) for a in self.covers(ts, depth - 1)]
            if len(out) > 2 and r.random() < 0.15:
                r.shuffle(out)
                out = out[: r.randint(1, len(out) - 1)] + [N("p_any", ty)]
            return out
        pool = self.ints if ty == INT else self.txts
        lits = [N("p_lit", ty, x=v) for v in r.sample(pool, r.randint(0, min(3, len(pool))))]
        return lits + [N("p_any", ty)]

    def covers(self, tys, depth, live=None):
        if not tys:
            return [()]
        if live is None:
            # of many parts only some are looked at: the product explodes
            live = set(self.r.sample(range(len(tys)), min(3, len(tys))))
        first = self.cover(tys[0], depth if 0 in live else 0)
        live = {i - 1 for i in live}
        out = []
        if self.r.random() < 0.5:
            rest = self.covers(tys[1:], depth, live)
            out = [(copy(p), *map(copy, q)) for p in first for q in rest]
        else:
            for p in first:
                out += [(copy(p), *q) for q in self.covers(tys[1:], depth if len(out) < 12 else 0, live)]
        return out

    def rows(self, ty, exhaustive=None, depth=None, cap=24):
        r = self.r
        depth = depth or r.choice([1, 2, 2, 3, 3])
        for _ in range(20):
            k = r.random()
            if k < 0.75:
                out = self.cover(ty, depth)
            else:
                out = [self.pat(ty, depth) for _ in range(r.randint(1, 7))]
            if len(out) <= cap:
                break
        else:
            out = [N("p_any", ty)]
        if r.random() < 0.5:
            r.shuffle(out)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            x = r.random()
            if x < 0.35 and len(out) > 1:
                out.pop(r.randrange(len(out)))
            elif x < 0.7:
                out.insert(r.randint(0, len(out)), self.pat(ty, depth))
            else:
                i = r.randrange(len(out))
                out[i] = self.narrow(out[i], ty, depth) if r.random() < 0.6 else self.widen(out[i])
        if exhaustive:
            if uncovered(out, ty):
                out.append(N("p_any", ty))
        return out

    def narrow(self, p, ty, depth):
        p = copy(p)
        if p.k == "p_var" and p.a and self.r.random() < 0.8:
            i = self.r.randrange(len(p.a))
            p.a[i] = self.narrow(p.a[i], p.a[i].ty, depth)
            return p
        if p.k == "p_any":
            return self.pat(ty, 2)
        return p

    def widen(self, p):
        p = copy(p)
        if p.k == "p_var" and p.a and self.r.random() < 0.8:
            i = self.r.randrange(len(p.a))
            p.a[i] = self.widen(p.a[i])
            return p
        return N("p_any", p.ty)

    def name(self, p, fresh, chance=0.6):
        """gives names to some of the wildcards; the bindings in order"""
        out = []

        def go(q):
            if q.k == "p_any" and self.r.random() < chance:
                d = Decl(fresh(), q.ty)
                d.kind = "bind"
                out.append(d)
                return N("p_bind", q.ty, x=d)
            if q.k == "p_var":
                c = N("p_var", q.ty, [go(s) for s in q.a], q.x)
                c.tag = q.tag
                return c
            return q

        return go(p), out


def copy(p):
    c = N(p.k, p.ty, [copy(q) for q in p.a], p.x)
    c.tag = p.tag
    return c


# ------------------------------------------------------------ coverage
def catches_all(p):
    return p.k in ("p_any", "p_bind")


def expand(ty, pats, room):
    """every way the patterns at this place can tell values apart"""
    if all(catches_all(p) for p in pats):
        return [WILD]
    out = []
    if isinstance(ty, Uni):
        for n, ts in ty.variants:
            sub = [p for p in pats if p.k == "p_var" and p.x == n]
            parts = [expand(t, [p.a[j] for p in sub if p.a], room) for j, t in enumerate(ts)]
            combos = [()]
            for part in parts:
                combos = [(*c, x) for c in combos for x in part]
                if len(combos) > room:
                    raise TooMany
            out += [(ty, n, c) for c in combos]
            if len(out) > room:
                raise TooMany
        return out
    lits = []
    for p in pats:
        if p.k == "p_lit" and p.x not in lits:
            lits.append(p.x)
    other = next(v for v in ([5, 11, 97, 98, 99] if ty == INT else ["zz", "outro", "zzz", "q"]) if v not in lits)
    return lits + [other]


def matches(p, v):
    if catches_all(p):
        return True
    if v is WILD:
        return False
    if p.k == "p_lit":
        return p.x == v
    _, n, args = v
    return p.x == n and (not p.a or all(matches(q, w) for q, w in zip(p.a, args)))


def classes(rows, ty, room=CAP):
    """[(value class, index of the row that takes it or None)]"""
    return [(v, next((i for i, p in enumerate(rows) if matches(p, v)), None)) for v in expand(ty, rows, room)]


def uncovered(rows, ty, room=CAP):
    return [v for v, i in classes(rows, ty, room) if i is None]


def concrete(ty, v, r, depth=3):
    """an expression for a value of the class"""
    if isinstance(ty, Uni):
        if v is WILD:
            vs = ty.variants
            if depth <= 0:
                vs = [x for x in vs if not any(isinstance(t, Uni) for t in x[1])] or [x for x in vs if ty not in x[1]]
            n, ts = r.choice(vs)
            args = [WILD] * len(ts)
        else:
            _, n, args = v
            ts = dict(ty.variants)[n]
        return N("variant", ty, [concrete(t, a, r, depth - 1) for t, a in zip(ts, args)], (ty, n))
    if v is not WILD:
        return lit(ty, v)
    if ty == INT:
        x = r.choice([*INTS, -1, -7, r.randint(-100, 100)])
        return lit(INT, x)
    if ty == TXT:
        return lit(TXT, r.choice(TXTS))
    if ty == REAL:
        return lit(REAL, r.choice([0.5, 2.25, 100.0]))
    if ty == BOOL:
        return lit(BOOL, r.random() < 0.5)
    if is_opt(ty):
        return N("lit", "nulo", x=None) if r.random() < 0.4 else lit(INT, r.randint(0, 9))
    if is_vec(ty):
        return N("veclit", ty, [lit(INT, r.randint(0, 9)) for _ in range(r.randint(0, 3))])
    return N("new", ty, [lit(INT, r.randint(0, 99)), lit(TXT, r.choice(TXTS))], (ty, ["a", "b"]))


def lit(ty, v):
    if ty == INT and v < 0:
        return N("un", INT, [N("lit", INT, x=-v)], "-")
    return N("lit", ty, x=v)


# ------------------------------------------------------------ listed patterns
def parse_pattern(s, ty):
    """Reads a pattern as the diagnostic writes it -> pattern or None"""
    pos = 0

    def go(t):
        nonlocal pos
        if s.startswith("_", pos):
            pos += 1
            return N("p_any", t)
        if not isinstance(t, Uni):
            return None
        for n, ts in sorted(t.variants, key=lambda v: -len(v[0])):
            full = f"{t.name}::{n}"
            if s.startswith(full, pos) and not s[pos + len(full) : pos + len(full) + 1].isalnum():
                pos += len(full)
                args = []
                if s.startswith("(", pos):
                    pos += 1
                    for j, at in enumerate(ts):
                        if j:
                            if not s.startswith(", ", pos):
                                return None
                            pos += 2
                        a = go(at)
                        if a is None:
                            return None
                        args.append(a)
                    if not s.startswith(")", pos):
                        return None
                    pos += 1
                elif ts:
                    args = []
                return variant(t, n, args)
        return None

    p = go(ty)
    return p if p is not None and pos == len(s) else None
