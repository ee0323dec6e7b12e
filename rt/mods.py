"""Random graphs of modules: what each one imports and in which form, what it
declares, and in which order they run."""
from . import lang
from .gen import Gen
from .lang import *


def mentions(x, seen=None):
    """the record and union types something mentions, however deep"""
    out = seen if seen is not None else {}

    def ty(t):
        if isinstance(t, tuple):
            ty(t[1])
        elif isinstance(t, (Reg, Uni)) and id(t) not in out:
            out[id(t)] = t
            if isinstance(t, Reg):
                for _, f in t.fields:
                    ty(f)
            else:
                for _, ts in t.variants:
                    for f in ts:
                        ty(f)

    if isinstance(x, Decl):
        ty(x.ty)
    elif isinstance(x, (Reg, Uni)):
        ty(x)
    else:
        ty(x.ret)
        for d in x.params:
            ty(d.ty)
        if x.recv is not None:
            ty(x.recv)
    return out


class Mod:
    def __init__(self, k, path):
        self.k, self.path = k, path
        self.imports = []  # (Mod, form, alias or items, spelling)
        self.own = []  # what it declares, in order
        self.scope = {}  # global names -> what they denote
        self.names = {}  # id -> how the module writes it
        self.body = []


class World:
    def __init__(self, rng, n=None, profile=None, forms=("alias", "items", "plain"), spell=True, same=0.6):
        r = self.r = rng
        self.mods = []
        n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        self.forms, self.spell = forms, spell
        self.profile = profile or {}
        self.features = set()
        pool = ["util", "conta", "mod1", "mod2", "dados", "a", "b", "lib_x", "números"]
        r.shuffle(pool)
        same = r.random() < same
        for k in range(n + 1):
            main = k == n
            path = "main" if main else (r.choice(["", "", "sub/", "sub/fundo/"]) + pool[k])
            m = Mod(k, path)
            if k:
                cnt = max(1, r.randint(1, min(k, 4))) if main else r.randint(0, min(k, 3))
                for dep in r.sample(self.mods, cnt):
                    self.imp(m, dep)
                if r.random() < 0.15 and m.imports:
                    self.imp(m, m.imports[0][0])
            self.mods.append(m)
            self.fill(m, same, main)
        self.main = self.mods[-1]

    # ------------------------------------------------------------ imports
    def exposed(self, dep):
        """what a plain import of a module makes visible"""
        return {k: v for k, v in dep.scope.items() if not isinstance(v, Mod)}

    def imp(self, m, dep):
        r = self.r
        form = r.choice(self.forms)
        if form == "plain":
            new = self.exposed(dep)
            if any(k in m.scope and m.scope[k] is not v for k, v in new.items()):
                form = "alias"
            else:
                m.scope.update(new)
                m.imports.append((dep, "plain", None, self.spelling(dep)))
                for k, v in new.items():
                    m.names.setdefault(id(v), k)
                self.features.add("plain")
                return
        if form == "items":
            c = [(k, v) for k, v in self.exposed(dep).items() if k not in m.scope]
            if c:
                r.shuffle(c)
                c = c[: r.randint(1, len(c))]
                # the types its functions use are useful as well
                for k, v in list(c):
                    for t in mentions(v).values():
                        for k2, v2 in self.exposed(dep).items():
                            if v2 is t and k2 not in m.scope and (k2, v2) not in c and r.random() < 0.7:
                                c.append((k2, v2))
                m.imports.append((dep, "items", [k for k, _ in c], self.spelling(dep)))
                for k, v in c:
                    m.scope[k] = v
                    m.names.setdefault(id(v), k)
                self.features.add("items")
                return
        base = dep.path.split("/")[-1]
        alias = r.choice([base, "apelido", "lib", base + "_m", "q"])
        if alias in m.scope:
            for j in range(9):
                alias = f"lib{j}"
                if alias not in m.scope:
                    break
        m.imports.append((dep, "alias", alias, self.spelling(dep)))
        m.scope[alias] = dep
        for k, v in self.exposed(dep).items():
            if not isinstance(v, Mod):
                m.names.setdefault(id(v), alias + "." + k)
        self.features.add("alias")

    def spelling(self, dep):
        p = dep.path
        if self.spell:
            x = self.r.random()
            if x < 0.15:
                p = "./" + p
            elif x < 0.25:
                p = "sub/../" + p
            if self.r.random() < 0.2:
                p += ".ama"
        return p

    # ------------------------------------------------------------ contents
    def fill(self, m, same, main):
        r = self.r
        prof = dict(funcs=3, regs=1, unis=1, methods=1, globals_=3, depth=2, edepth=2, stmts=4, blk=3, trace=0.1, unsafe=0.004, shadow=0.3, loops=0.7, rec=0.2, casts=0.5)
        prof.update(self.profile)
        g = Gen(r, **prof)
        if not same:
            g.uid = 50 * m.k
        g.tag = f"_m{m.k}"
        g.reserved |= set(m.scope)
        # types that can be written and built here
        ok = set()
        for _, v in list(self.all_names(m)):
            if isinstance(v, Reg) or (isinstance(v, Uni) and "." not in m.names[id(v)]):
                ok.add(id(v))
        ok = {i for i in ok if all(j in ok for j in mentions(self.byid(m, i)))}
        imported = []
        for name, v in self.all_names(m):
            if isinstance(v, (Reg, Uni)) and id(v) not in ok:
                continue
            if all(j in ok for j in mentions(v)):
                g.use(name, v)
                imported.append(v)
        meths = []
        for dep in self.closure(m):
            for f in dep.own:
                if isinstance(f, Func) and f.recv is not None and all(j in ok for j in mentions(f)):
                    g.use(f.name + "@", f)
                    meths.append(f)
        body = g.program()
        # only declarations of the top level can be imported
        seen = []
        for s in body:
            if s.k in ("reg", "uni", "func"):
                seen.append(s.x)
            elif s.k == "decl":
                seen.append(s.x)
            elif s.k == "mdecl":
                seen += s.x
        m.own = seen
        for x in seen:
            if not (isinstance(x, Func) and x.recv is not None):
                m.scope[x.name] = x
                m.names[id(x)] = x.name
        mark = [N("mostra", None, [N("lit", TXT, x=f"<módulo {m.k}>")])]
        end = [N("mostra", None, [N("lit", TXT, x=f"</módulo {m.k}>")])]
        extra = self.exercise(m, g, imported) if imported else []
        m.body = mark + body + extra + end
        self.features |= g.features

    def all_names(self, m):
        out = []
        for k, v in m.scope.items():
            if isinstance(v, Mod):
                for k2, v2 in self.exposed(v).items():
                    if not isinstance(v2, Mod) and m.names.get(id(v2)) == k + "." + k2:
                        out.append((k + "." + k2, v2))
            elif m.names.get(id(v)) == k:
                out.append((k, v))
        return out

    def byid(self, m, i):
        return next(v for _, v in self.all_names(m) if id(v) == i)

    def closure(self, m):
        out = []

        def go(x):
            for dep, *_ in x.imports:
                if dep not in out:
                    out.append(dep)
                    go(dep)

        go(m)
        return out

    def exercise(self, m, g, imported):
        """every imported thing is used at least once"""
        r = self.r
        out = []
        vs = [v for v in imported if isinstance(v, Decl) and isinstance(v.ty, str)]
        fs = [f for f in imported if isinstance(f, Func) and not getattr(f, "hidden", False) and f.recv is None]
        r.shuffle(fs)

        def show():
            return [N("mostra", None, [N("var", v.ty, x=v)]) for v in vs[:6]]

        out += show()
        g.stmt_budget = 10
        for f in fs[:4]:
            c = g.call(f, 1)
            if f.ret == VOID or not isinstance(f.ret, str):
                out.append(N("expr", None, [c]))
            else:
                out.append(N("mostra", None, [c]))
        if fs:
            out += show()
        return out

    # ------------------------------------------------------------ result
    def order(self):
        """the order in which the modules run"""
        done = []

        def go(m):
            for dep, *_ in m.imports:
                if dep not in done:
                    go(dep)
            done.append(m)

        go(self.main)
        return done

    def usas(self, m):
        out = []
        for dep, form, x, sp in m.imports:
            if form == "plain":
                t = None
            elif form == "alias":
                t = [x]
            else:
                t = ["["]
                for i, k in enumerate(x):
                    t += [",", k] if i else [k]
                t.append("]")
            out.append(N("usa", None, [], (sp, t)))
        return out

    def files(self, seed, wild=0.3, parens=0.05):
        r = random.Random(f"{seed}")
        out = {}
        for m in self.order():
            def qual(x, m=m):
                return m.names.get(id(x), x.name)

            src = lang.render(self.usas(m) + m.body, r.random(), wild=r.random() < wild, parens=parens, qual=qual)
            out[m.path + ".ama"] = src
        return out

    def programs(self):
        return [m.body for m in self.order()]
