"""Programs that are odd: what the grammar can write, with no regard for
types, scopes or places."""

ENV = """registo P
  x: int
  r: real?
  vs: [int]
  f: P?
fim
uniao U
  A, B(int), C(P, U)
fim
uniao E
  X, Y
fim
registo V
fim
registo G[T]
  v: T
  w: [T]
fim
uniao H[T]
  N, M(T)
fim
met P::m(alvo, k: int): int
  retorna alvo.x + k
fim
met U::mu(alvo): U
  retorna alvo
fim
met int::mi(alvo, k: int): int
  retorna alvo * k
fim
func fi(a: int, b: int): int
  retorna a - b
fim
func fv()
  mostra 1
fim
func fp(p: P, o: int?): P?
  retorna p
fim
func fu(u: U): U
  retorna u
fim
i: int = 3
r: real = 1.5
b: bool = verdadeiro
t: texto = "abc"
v: [int] = [int: 1, 2]
vv: [[int]] = [[int]: v, v]
o: int? = 4
p: P = P(x: 1, r: nulo, vs: v, f: nulo)
op: P? = p
u: U = U::B(3)
ue: E = E::X
vp: [P] = [P: p]
"""
ENVM = 'usa "mod" => m\n'
MOD = """registo Q
  a: int
fim
uniao W
  Z, K(int)
fim
func mf(a: int): int
  retorna a
fim
mg: int = 5
mq: Q = Q(a: 2)
mw: W = W::Z
"""
VARS = ["i", "r", "b", "t", "v", "vv", "o", "p", "op", "u", "ue", "vp"]
FUNCS = ["fi", "fv", "fp", "fu", "escreva", "leia", "vec", "tam", "anexa", "remova", "txt_contem", "escrevaln", "leia_int", "leia_real"]
TYPES = ["int", "real", "bool", "texto", "P", "U", "E", "V", "G", "H", "indef", "vazio", "nulo_t", "T", "int32", "Opcao", "Vector"]
MEMBERS = ["x", "r", "vs", "f", "m", "mu", "mi", "valor", "valor_ou", "A", "B", "v", "w", "N", "mf", "mg", "Q", "zz", "tam", "mq"]
VARIANTS = ["A", "B", "C", "X", "Y", "N", "M", "Z", "K", "x", "m", "zz"]
LITS = ["1", "0", "2.5", "verdadeiro", "falso", "nulo", '"abc"', "''", '"a\\n"', "9223372036854775807", "alvo"]
BIN = ["+", "-", "*", "/", "//", "%", "e", "ou", "==", "!=", "<", ">", "<=", ">="]


class Wild:
    def __init__(self, rng, mod=True):
        self.r = rng
        self.mod = mod
        self.n = 0

    def name(self):
        r = self.r
        k = r.random()
        if k < 0.62:
            return r.choice(VARS)
        if k < 0.78:
            return r.choice(FUNCS)
        if k < 0.88:
            return r.choice(TYPES)
        if k < 0.93:
            return "m" if self.mod else "zz"
        if k < 0.96:
            return r.choice(["_", "zz", "alvo_", "self", "_GEN_", "ñ", "é1"])
        return r.choice(["l", "a", "q", f"n{self.n}", "k", "w"])

    def ty(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.5:
            return r.choice(TYPES[:8] if r.random() < 0.8 else TYPES)
        if k < 0.64:
            return "[" + self.ty(d - 1) + "]"
        if k < 0.80:
            s = self.ty(d - 1)
            return s if s.endswith("?") else s + "?"
        if k < 0.92:
            h = r.choice(["G", "H", "G", "H", "P", "int", "U", "zz"])
            n = r.choice([1, 1, 1, 2])
            return h + "[" + ", ".join(self.ty(d - 1) for _ in range(n)) + "]"
        return r.choice(["m", "m", "P", "zz", "i"]) + "." + r.choice(["Q", "W", "mf", "zz", "Q.a"])

    def args(self, d):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        l = []
        for _ in range(n):
            x = self.ex(d - 1)
            if r.random() < 0.15:
                x = r.choice(["x", "r", "vs", "f", "v", "a", "zz", "k"]) + ": " + x
            l.append(x)
        return ", ".join(l)

    def ex(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.2:
            return self.name() if r.random() < 0.6 else r.choice(LITS)
        if k < 0.36:
            return f"{self.par(d)} {r.choice(BIN)} {self.par(d)}"
        if k < 0.42:
            return r.choice(["-", "+", "nao "]) + self.par(d)
        if k < 0.55:
            return f"{self.head(d)}({self.args(d)})"
        if k < 0.62:
            return f"{self.head(d)}[{self.ex(d - 1)}]"
        if k < 0.73:
            return f"{self.head(d)}.{r.choice(MEMBERS)}" + (f"({self.args(d)})" if r.random() < 0.4 else "")
        if k < 0.78:
            return f"{self.head(d)} :> {self.ty()}"
        if k < 0.83:
            return f"[{self.ty()}: " + ", ".join(self.ex(d - 1) for _ in range(r.choice([0, 1, 2, 3]))) + "]"
        if k < 0.88:
            s = r.choice(["U", "U", "E", "H", "P", "int", "m", "u", "zz", "G", "i", "fi"]) + "::" + r.choice(VARIANTS)
            if r.random() < 0.1:
                s += "::" + r.choice(VARIANTS)
            return s + (f"({self.args(d)})" if r.random() < 0.6 else "")
        if k < 0.92:
            x = self.ex(1).replace("\n", " ")
            q = '"' if '"' not in x else "'" if "'" not in x else None
            if q is None or "}" in x:
                x, q = "i", '"'
            return f"f{q}a{{{x}}}b{q}"
        if k < 0.95:
            return "P(" + ", ".join(f"{n}: {self.ex(d - 1)}" for n in r.sample(["x", "r", "vs", "f"], r.choice([4, 4, 3, 2]))) + ")"
        return "(" + self.iguala(d) + ")"

    def par(self, d):
        s = self.ex(d - 1)
        return s if s.isidentifier() else f"({s})"

    def head(self, d):
        r = self.r
        k = r.random()
        if k < 0.7 or d < 2:
            return self.name()
        return f"({self.ex(d - 1)})"

    def pat(self, d=2):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.4:
            return r.choice(["a", "q", "_", "k", "i", "1", "0", '"abc"', "U", "P", "fi", "nulo", "verdadeiro", "2.5", "alvo"]) if r.random() < 0.9 else "9" * 25
        s = r.choice(["U", "U", "U", "E", "H", "P", "m", "u", "zz"]) + "::" + r.choice(VARIANTS)
        if r.random() < 0.65:
            s += "(" + ", ".join(self.pat(d - 1) for _ in range(r.choice([1, 1, 2, 2, 3]))) + ")"
        if r.random() < 0.05:
            s = r.choice(["a", "U"]) + "(" + self.pat(d - 1) + ")"
        return s

    def arm(self, d):
        r = self.r
        s = self.pat() + " => "
        if r.random() < 0.6:
            return s + self.ex(d - 1)
        b = self.stmts(d - 1, r.choice([0, 1, 2]))
        if r.random() < 0.6:
            b += f"produz {self.ex(d - 1)}\n"
        return s + "faca\n" + b + "fim"

    def arms(self, d):
        r = self.r
        l = [self.arm(d) for _ in range(r.choice([0, 1, 2, 2, 3]))]
        k = r.random()
        if k < 0.4:
            l.append("_ => " + self.ex(d - 1))
        elif k < 0.6:
            l = [f"U::A => {self.ex(d - 1)}", f"U::B(_) => {self.ex(d - 1)}", f"U::C(_, _) => {self.ex(d - 1)}"]
            if r.random() < 0.3:
                l.append(self.arm(d))
            if r.random() < 0.3:
                l.pop(r.randrange(len(l)))
            r.shuffle(l)
        return l

    def iguala(self, d):
        return f"iguala {self.ex(d - 1)}\n" + ",\n".join(self.arms(d)) + "\nfim"

    def target(self, d):
        r = self.r
        k = r.random()
        if k < 0.45:
            return self.name()
        if k < 0.7:
            return f"{self.head(d)}.{r.choice(MEMBERS)}"
        if k < 0.9:
            return f"{self.head(d)}[{self.ex(d - 1)}]"
        return self.ex(d - 1)

    def new(self):
        self.n += 1
        return self.r.choice([f"n{self.n}", f"n{self.n}", f"n{self.n}", "n1", "a", self.name()])

    def stmts(self, d, n):
        return "".join(self.st(d) + "\n" for _ in range(n))

    def params(self):
        r = self.r
        return ", ".join(f"{r.choice(['a', 'k', 'i', 'q', 'w', 'P', 'fi'])}{'' if r.random() < 0.2 else j}: {self.ty()}" for j in range(r.choice([0, 1, 1, 2, 3])))

    def body(self, d):
        r = self.r
        b = self.stmts(d - 1, r.choice([0, 1, 2, 3]))
        if r.random() < 0.6:
            b += f"retorna {self.ex(2)}\n"
        return b

    def st(self, d):
        r = self.r
        k = r.randrange(26)
        if k < 3:
            return f"{self.new()}: {self.ty()}" + (f" = {self.ex(d)}" if r.random() < 0.8 else "")
        if k == 3:
            return f"{self.new()}, {self.new()}: {self.ty()}"
        if k < 7:
            return f"{self.target(d)} = {self.ex(d)}" if r.random() < 0.9 else f"{self.target(d)} = {self.target(d)} = {self.ex(d)}"
        if k == 7:
            return f"{self.target(d)} {r.choice(['+', '-', '*', '/'])}= {self.ex(d)}"
        if k < 10:
            return f"mostra {self.ex(d)}"
        if k < 12:
            return self.ex(d)
        if k == 12:
            return r.choice([f"retorna {self.ex(d)}", "retorna", f"produz {self.ex(d)}", "quebra", "continua"])
        if k == 13:
            s = f"se {self.ex(d)} entao\n{self.stmts(d - 1, r.choice([0, 1, 2]))}" if d > 0 else "se b entao\n"
            while r.random() < 0.3:
                s += f"senaose {self.ex(d - 1)} entao\n{self.stmts(d - 1, 1) if d > 0 else ''}"
            if r.random() < 0.5:
                s += "senao\n" + (self.stmts(d - 1, 1) if d > 0 else "")
            return s + "fim"
        if k == 14:
            s = f"se iguala {self.ex(d)} => {self.pat()} entao\n" + (self.stmts(d - 1, r.choice([0, 1, 2])) if d > 0 else "")
            if r.random() < 0.5:
                s += "senao\n" + (self.stmts(d - 1, 1) if d > 0 else "")
            return s + "fim"
        if k == 15:
            return f"enquanto {self.ex(d)} faca\n{self.stmts(d - 1, r.choice([0, 1, 2])) if d > 0 else ''}fim"
        if k == 16:
            s = f"para {self.new()} de {self.ex(d - 1)}..{self.ex(d - 1)}"
            if r.random() < 0.4:
                s += f" inc {self.ex(d - 1)}"
            return s + f" faca\n{self.stmts(d - 1, r.choice([0, 1, 2])) if d > 0 else ''}fim"
        if k == 17:
            s = f"escolha {self.ex(d)}:\n"
            for _ in range(r.choice([0, 1, 2])):
                s += f"caso {self.ex(d - 1)}:\n" + (self.stmts(d - 1, 1) if d > 0 else "")
            if r.random() < 0.5:
                s += "senao:\n" + (self.stmts(d - 1, 1) if d > 0 else "")
            return s + "fim"
        if k < 20:
            return self.iguala(d)
        if k == 20:
            ret = r.choice(["", "", ": " + self.ty(), ": " + self.ty(), ": vazio"])
            return f"{self.note()}func {self.fname()}({self.params()}){ret}\n{self.body(d)}fim"
        if k == 21:
            ret = r.choice(["", ": " + self.ty(), ": " + self.ty()])
            g = r.choice(["", "", "", " [T]", " [T, S]"])
            ps = self.params()
            return f"{self.note()}met{g} {self.ty()}::{r.choice(['m', 'k', 'mm', 'x', 'valor', 'mi', 'A'])}(alvo{', ' if ps else ''}{ps}){ret}\n{self.body(d)}fim"
        if k == 22:
            g = r.choice(["", "", "[T]", "[T, S]", "[int]", "[T, T]"])
            fs = "".join(f"  {r.choice(['x', 'y', 'z', 'x0', 'f'])}: {self.ty()}\n" for _ in range(r.choice([0, 1, 2, 3])))
            return f"{self.note()}registo {r.choice(['R', 'S', 'P', 'int', 'i', 'fi', 'T', 'Opcao'])}{g}\n{fs}fim"
        if k == 23:
            g = r.choice(["", "", "[T]", "[T, S]"])
            vs = ",\n  ".join(r.choice(["A", "B", "C", "D", "F", "int", "x"]) + (f"({', '.join(self.ty() for _ in range(r.choice([1, 2])))})" if r.random() < 0.5 else "") for _ in range(r.choice([0, 1, 2, 3])))
            return f"{self.note()}uniao {r.choice(['R', 'S', 'U', 'int', 'i', 'fi'])}{g}\n  {vs}\nfim"
        if k == 24:
            return r.choice([f"func nativa {self.fname()}({self.params()}): {self.ty()}", f'usa "mod" => {self.name()}', 'usa "mod"', 'usa "mod" => [mf, mg]', "@@zz", self.note() + "mostra 1", "nativa", "classe", ";"])
        return f"{self.ex(d)}\n{self.st(d - 1)}" if d > 0 else self.ex(1)

    def fname(self):
        return self.r.choice(["f1", "f1", "f2", "fi", "i", "P", "escreva", "int", "mm"])

    def note(self):
        r = self.r
        if r.random() < 0.85:
            return ""
        return r.choice(["@zz\n", "@zz ", '@nome(a="b")\n', "@embutido\n", "@embutido ", '@embutido(nome="x")\n', "@a\n@b\n"])

    def wrap(self, s):
        r = self.r
        k = r.randrange(14)
        w = {
            0: "func g1(a: int, q: P): int\n{}\nretorna a\nfim",
            1: "func g1(a: U)\n{}\nfim",
            2: "met P::g2(alvo, k: int): P?\n{}\nretorna alvo\nfim",
            3: "se b entao\n{}\nfim",
            4: "enquanto b faca\n{}\nfim",
            5: "para q de 0..3 faca\n{}\nfim",
            6: "escolha i:\ncaso 1:\n{}\nsenao:\nmostra 1\nfim",
            7: "iguala u\nU::B(a) => faca\n{}\nfim,\n_ => faca\nfim\nfim",
            8: "i = iguala u\nU::B(a) => faca\n{}\nproduz a\nfim,\n_ => 1\nfim",
            9: "se iguala u => U::C(q, a) entao\n{}\nfim",
        }.get(k, "{}")
        return w.replace("{}", s, 1)

    def program(self, n=None):
        r = self.r
        s = (ENVM if self.mod else "") + ENV
        n = n or r.choice([1, 1, 1, 2, 3])
        for _ in range(n):
            s += self.wrap(self.st(r.choice([0, 1, 1, 2, 2, 3]))) + "\n"
        return s


class Nearly(Wild):
    """Programs that are well typed but for a few places"""

    def __init__(self, rng, mod=True, odd=0.03):
        super().__init__(rng, mod)
        self.odd = odd
        self.typ = None

    def atom(self, t):
        r = self.r
        return r.choice({
            "int": ["i", "1", "0", "7", "v[0]", "p.x", "o.valor", "tam(v)", "tam(t)", "vv[0][1]", "p.vs[0]", "vp[0].x"],
            "real": ["r", "2.5", "0.5", "i", "p.r.valor"],
            "bool": ["b", "verdadeiro", "falso"],
            "texto": ["t", '"abc"', "''", "t[0]", 'f"{i}"'],
            "[int]": ["v", "p.vs", "vv[0]", "[int: 1]", "[int:]", "vec(int, 3)"],
            "[[int]]": ["vv", "[[int]: v]", "vec(int, 2, 2)"],
            "int?": ["o", "nulo", "3", "i"],
            "real?": ["p.r", "nulo", "2.5"],
            "P": ["p", "op.valor", "vp[0]", "p.f.valor"],
            "P?": ["op", "p", "nulo", "p.f", "fp(p, o)", "p.f.valor.f"],
            "[P]": ["vp", "[P: p]"],
            "U": ["u", "U::A", "U::B(1)", "fu(u)", "u.mu()"],
            "E": ["ue", "E::X", "E::Y"],
            "V": ["V()"],
        }[t])

    TY = ["int", "int", "int", "real", "bool", "texto", "[int]", "[[int]]", "int?", "P", "P?", "[P]", "U", "E", "real?", "V"]

    def ex(self, d, t=None):
        r = self.r
        t = t or self.typ or r.choice(self.TY)
        if r.random() < self.odd:
            return super().ex(min(d, 2))
        if d <= 0 or r.random() < 0.25:
            return self.atom(t)

        def x(t, e=d - 1):
            s = self.ex(e, t)
            return s if s.isidentifier() else f"({s})" if r.random() < 0.8 or " " in s or s[0] in "-+" else s

        if r.random() < 0.12 and t not in ("real", "int?", "real?", "P?"):
            k = r.random()
            if k < 0.5:
                return f"(iguala {self.ex(d - 1, 'int')}\n1 => {self.ex(d - 1, t)},\n_ => {self.ex(d - 1, t)}\nfim)"
            if k < 0.8:
                return f"(iguala {self.ex(d - 1, 'U')}\nU::A => {self.ex(d - 1, t)},\nU::B(k) => faca\n{self.stmts(d - 2, 1) if d > 1 else ''}produz {self.ex(d - 1, t)}\nfim,\nU::C(_, _) => {self.ex(d - 1, t)}\nfim)"
            return f"(iguala {self.ex(d - 1, 'E')}\nE::X => {self.ex(d - 1, t)},\nE::Y => {self.ex(d - 1, t)}\nfim)"
        g = {
            "int": [lambda: f"{x('int')} {r.choice(['+', '-', '*', '//', '%'])} {x('int')}", lambda: f"fi({x('int')}, {x('int')})", lambda: f"-{x('int')}", lambda: f"{x('[int]')}[{x('int')}]", lambda: f"{x('P')}.x", lambda: f"{x('P')}.m({x('int')})", lambda: f"{x('int')}.mi({x('int')})", lambda: f"o.valor_ou({x('int')})", lambda: f"{x(r.choice(['real', 'texto', 'bool']))} :> int", lambda: f"tam({x(r.choice(['texto', '[int]', '[P]', '[[int]]']))})", lambda: f"remova(v, {x('int')})", lambda: "leia_int('')"],
            "real": [lambda: f"{x('real')} {r.choice(['+', '-', '*', '/'])} {x('real')}", lambda: f"{x('int')} / {x('int')}", lambda: f"-{x('real')}", lambda: f"{x('int')} :> real", lambda: f"{x('P')}.r.valor"],
            "bool": [lambda: f"{x('bool')} {r.choice(['e', 'ou'])} {x('bool')}", lambda: f"nao {x('bool')}", lambda: f"{x('int')} {r.choice(['<', '>=', '==', '!='])} {x('real')}", lambda: f"{x('texto')} == {x('texto')}", lambda: f"{x('int?')} == nulo", lambda: f"txt_contem({x('texto')}, {x('texto')})", lambda: f"{x('int')} :> bool", lambda: f"{x('bool')} == {x('bool')}"],
            "texto": [lambda: f"{x(r.choice(['int', 'real', 'bool']))} :> texto", lambda: f"{x('texto')}[{x('int')}]", lambda: f"f'a{{{self.atom('int')} + 1}}b'", lambda: "leia('')"],
            "[int]": [lambda: f"[int: {x('int')}, {x('int')}]", lambda: f"{x('P')}.vs", lambda: f"{x('[[int]]')}[{x('int')}]", lambda: f"vec(int, {x('int')})"],
            "[[int]]": [lambda: f"[[int]: {x('[int]')}, {x('[int]')}]", lambda: f"vec(int, {x('int')}, {x('int')})"],
            "int?": [lambda: x("int")],
            "real?": [lambda: f"{x('P')}.r", lambda: x("real")],
            "P": [lambda: f"P(x: {x('int')}, r: {x('real?')}, vs: {x('[int]')}, f: {x('P?')})", lambda: f"{r.choice(['op', 'p.f', 'fp(p, o)', 'vp[0].f'])}.valor", lambda: f"{r.choice(['op', 'p.f', 'fp(p, o)', 'vp[0].f'])}.valor_ou({x('P')})", lambda: f"{x('[P]')}[{x('int')}]"],
            "P?": [lambda: f"fp({x('P')}, {x('int?')})", lambda: f"{x('P')}.f", lambda: x("P")],
            "[P]": [lambda: f"[P: {x('P')}]"],
            "U": [lambda: f"U::B({x('int')})", lambda: f"U::C({x('P')}, {x('U')})", lambda: f"fu({x('U')})", lambda: f"{x('U')}.mu()"],
            "E": [lambda: "E::Y"],
            "V": [lambda: "V()"],
        }[t]
        return r.choice(g)()

    def st(self, d):
        r = self.r
        if r.random() < self.odd * 2:
            return super().st(min(d, 1))
        self.n += 1
        n = f"n{self.n}"
        b = lambda k=1: self.stmts(d - 1, r.choice([1, k])) if d > 0 else ""
        k = r.randrange(20)
        t = r.choice(self.TY)
        e = self.ex(d, t)
        if k < 3:
            return f"{n}: {t} = {e}"
        if k == 3:
            return f"mostra {e}" if t not in ("P", "U") or r.random() < 0.5 else f"escreva({e})"
        if k == 4:
            return e
        if k == 5:
            return f"{r.choice(['i', 'v[0]', 'p.x', 'vv[0][0]'])} {r.choice(['+=', '-=', '*=', '='])} {self.ex(d, 'int')}"
        if k == 6:
            v, t = r.choice([("r", "real"), ("b", "bool"), ("t", "texto"), ("v", "[int]"), ("vv", "[[int]]"), ("o", "int?"), ("p", "P"), ("op", "P?"), ("u", "U"), ("ue", "E"), ("vp", "[P]"), ("p.r", "real?"), ("p.f", "P?"), ("p.vs", "[int]"), ("vp[0]", "P"), ("vv[1]", "[int]"), ("vp[0].f", "P?")])
            return f"{v} = {self.ex(d, t)}"
        if k == 7:
            return f"se {self.ex(d, 'bool')} entao\n{b(2)}senaose {self.ex(d - 1, 'bool')} entao\n{b()}senao\n{b()}fim"
        if k == 8:
            return f"se iguala {self.ex(d, 'U')} => U::{r.choice(['B(k)', 'A', 'C(q, _)', 'C(_, U::B(k))'])} entao\n{b(2)}senao\n{b()}fim"
        if k == 9:
            return f"enquanto {self.ex(d, 'bool')} faca\n{b(2)}{r.choice(['', 'quebra', 'continua'])}\nfim"
        if k == 10:
            return f"para {n} de {self.ex(d - 1, 'int')}..{self.ex(d - 1, 'int')} inc {self.ex(d - 1, 'int')} faca\n{b(2)}fim"
        if k == 11:
            return f"escolha {self.ex(d, 'int')}:\ncaso {self.ex(d - 1, 'int')}:\n{b()}senao:\n{b()}fim"
        if k == 12:
            return f"iguala {self.ex(d, 'U')}\nU::A => faca\n{b()}fim,\nU::B({r.choice(['k', '1', '_'])}) => faca\n{b()}fim,\n{r.choice(['_', 'q'])} => faca\n{b()}fim\nfim"
        if k == 13:
            return f"iguala {self.ex(d, 'texto')}\n'a' => {self.ex(d - 1, t)},\n_ => {self.ex(d - 1, t)}\nfim"
        if k == 14:
            return f"anexa(v, {self.ex(d, 'int')})"
        if k == 15 and d > 1:
            return f"func f{self.n}(a: {t}, k: int): {t}\n{b(2)}retorna {self.ex(d - 1, t)}\nfim"
        if k == 16 and d > 1:
            return f"met {r.choice(['P', 'U', 'int', 'E', 'texto', 'real'])}::m{self.n}(alvo, a: {t}): {t}\n{b(2)}retorna a\nfim"
        if k == 17 and self.mod:
            return r.choice([f"mostra m.mf({self.ex(d, 'int')})", "mostra m.mq.a", f"m.mq.a = {self.ex(d, 'int')}", "mostra m.mg", f"{n}: m.Q = m.mq", f"{n}: m.W = m.mw"])
        return f"mostra {self.ex(d, r.choice(['int', 'real', 'bool', 'texto', '[int]', 'int?']))}"

    def program(self, n=None):
        r = self.r
        s = (ENVM if self.mod else "") + ENV
        for _ in range(n or r.choice([1, 2, 3, 5])):
            b = self.st(r.choice([1, 2, 2, 3, 4]))
            s += (b if b.startswith(("func", "met")) else self.wrap(b)) + "\n"
        return s
