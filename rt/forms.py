"""Every form of expression in every context, and programs of every size."""
import random
import re

# ------------------------------------------------------------ forms in contexts
PRE = """registo Int
  v: int
  dentro: Int?
fim
registo Interna
  t: {T}
fim
registo Caixa
  t: {T}
  o: {T}?
  vs: [{T}]
  c: Interna
fim
uniao Esc
  Um({T}), Dois({T}, int), Nada
fim
uniao Arv
  Folha, No(Arv, int, Arv)
fim
func fa(x: {T}, y: {T}): {T}
  retorna y
fim
func fo(x: {T}?): {T}?
  retorna x
fim
func fv(xs: [{T}]): {T}
  retorna xs[0]
fim
met Caixa::m(alvo, x: {T}): {T}
  retorna alvo.t
fim
met {T}::mt(alvo, x: {T}): {T}
  retorna alvo
fim
func novo(): Caixa
  retorna Caixa(t: {L}, o: nulo, vs: [{T}: {L}], c: Interna(t: {L}))
fim
g: {T} = {L}
go: {T}? = {L}
gv: [{T}] = [{T}: {L}, {L}]
gvv: [[{T}]] = [[{T}]: gv, gv]
gc: Caixa = Caixa(vs: gv, t: {L}, c: Interna(t: {L}), o: {L})
ge: Esc = Esc::Um({L})
gi: int = 0
"""

LIT = {"int": "7", "real": "1.5", "bool": "verdadeiro", "texto": '"abc"'}
FORMS = ["{L}", "g", "p", "l", "(g)", "gc.t", "gc.c.t", "lc.c.t", "gv[0]", "gvv[gi][0]", "gc.vs[gi]", "novo().t", "novo().vs[0]", "fa(g, p)", "fa(y: g, x: p)" , "fa(fa(p, g), g)", "fv(gv)", "fv([{T}: p, g])", "gc.m(g)", "novo().m(p)", "p.mt(g)", "{L}.mt(g)", "fa(p, g).mt(g).mt(p)", "go.valor", "lo.valor", "gc.o.valor", "fo(p).valor", "go.valor_ou(p)", "lo.valor_ou(g)", "gc.o.valor_ou(gc.t)", "nada",
         "(iguala ge\n Esc::Um(a) => a,\n Esc::Dois(b, _) => fa(b, g),\n Esc::Nada => p\nfim)", "(iguala gi\n 1 => p,\n k => faca\n w: {T} = g\n produz w\n fim\nfim)", "remova(gv, 0)",
         "gv[gi + 1]", "gc.vs[tam(gv) - 1]"]
EXTRA = {
    "int": ["-g", "g + p * 2", "(g - 1) // 2 % 3", "tam(gv)", 'tam("abc")', "1.5 :> int", '"12" :> int', "+p", "fa(g, p) * -p", "tam([int: 1, g])", "2 * (iguala gi\n 0 => 1,\n _ => p\nfim)"],
    "real": ["g / 2", "-g", "g + 1", "1", "gi", "gi * 1.5", "2 :> real", "g // 2 - p % 3", "gi / 2", "(gi :> real) + p"],
    "bool": ["nao g", "g e p ou falso", "gi < 3", "gi == 3", "g == p", 'txt_contem("abc", "b")', "go == nulo", "1.5 >= gi", "1 :> bool", "nao (g e nao p)", "lo != nulo"],
    "texto": ['f"a{gi}b{p}{{"', 'f"{g}"', "gi :> texto", "g[0]", "'x'", '"abc"[gi]', "fa(g, p)[0][0]", "1.5 :> texto", 'f"{gi + 1} {gc.t} {fa(g, p)}"'],
}
CTX = ["n{i}: {T} = {E}", "l = {E}", "gc.t = {E}", "lc.c.t = {E}", "gv[0] = {E}", "gvv[0][gi] = {E}", "gc.vs[0] = {E}", "n{i}: {T}? = {E}", "lo = {E}", "gc.o = {E}", "n{i}: [{T}] = [{T}: {E}, {E}]", "n{i}: [[{T}]] = [[{T}]: [{T}: {E}]]", "fa({E}, {E})", "mostra fa(g, {E})", "fo({E})", "gc.m({E})", "({E}).mt({E})", "mostra {E}", "escreva({E})", "escrevaln({E})", "anexa(gv, {E})", "n{i}: Esc = Esc::Um({E})", "n{i}: Esc = Esc::Dois({E}, 1)", "n{i}: Interna = Interna(t: {E})", "mostra Caixa(t: {E}, o: {E}, vs: [{T}: {E}], c: Interna(t: {E})).t", "mostra ({E})", "{E}", "mostra go.valor_ou({E})", "mostra {E} == {E}", "mostra nao ({E} != g)", "l = gc.t = {E}", "l = l = {E}", "se {E} == g entao\n mostra {E}\nsenaose g == {E} entao\n l = {E}\nsenao\n l = {E}\nfim", "se iguala ge => Esc::Um(z) entao\n l = {E}\n l = z\nsenao\n l = {E}\nfim", "iguala ge\n Esc::Um(z) => faca\n l = {E}\n fim,\n _ => faca\n mostra {E}\n fim\nfim", "mostra iguala gi\n 0 => {E},\n _ => {E}\nfim", "l = iguala gi\n 0 => faca\n k: {T} = {E}\n produz k\n fim,\n _ => {E}\nfim", "enquanto {E} == g faca\n l = {E}\n quebra\nfim", "para i de 0..2 faca\n l = {E}\n se i > 0 entao\n continua\n fim\n mostra {E}\nfim", "mostra fa(x: {E}, y: g)"]
CTX.remove("mostra fa(x: {E}, y: g)")
FORMS.remove("fa(y: g, x: p)")
FORMS.remove("nada")
CTXT = {
    "int": ["l += {E}", "gc.t -= {E}", "gv[0] *= {E}", "gv[{E}] = 1", "gc.vs[{E}] += {E}", "para i de {E}..{E} faca\n mostra i\nfim", "para i de 0..3 inc {E} faca\n mostra i + ({E})\nfim", "escolha {E}:\ncaso 1:\n mostra 1\ncaso {E}:\n mostra 2\nsenao:\n mostra {E}\nfim", "mostra {E} + {E} * ({E})", "mostra -({E})", "mostra ({E}) :> real", "mostra ({E}) :> texto", "mostra 1.5 + ({E})", "n{i}: real = {E}", "n{i}: real? = {E}", "mostra {E} < {E}", "n{i}: [real] = [real: {E}, 1.5]", "mostra vec(int, {E})", "mostra vec(bool, {E}, {E})", "remova(gv, {E})", "mostra iguala {E}\n 1 => 2,\n k => k\nfim", "mostra ge == ge" , "mostra gvv[{E}][{E}]", 'mostra "abc"[{E}]'],
    "real": ["l *= {E}", "gc.t /= {E}", "gv[0] += {E}", "mostra {E} + 1", "mostra 2 * ({E})", "mostra ({E}) :> int", "mostra ({E}) :> texto", "mostra 1 < {E}", "mostra {E} == 1", "mostra -({E})"],
    "bool": ["se {E} entao\n mostra {E}\nfim", "enquanto {E} faca\n quebra\nfim", "mostra {E} e {E} ou nao ({E})", "mostra nao ({E})", "mostra ({E}) :> texto"],
    "texto": ["escolha {E}:\ncaso \"a\":\n mostra 1\ncaso {E}:\n mostra {E}\nfim", "mostra tam({E})", "mostra txt_contem({E}, {E})", "mostra ({E})[0]", "mostra iguala {E}\n \"a\" => 1,\n z => tam(z)\nfim", "mostra ({E}) :> int", "mostra ({E}) :> bool", "n{i}: texto = leia({E})"],
}
for k in CTXT:
    CTXT[k] = [x for x in CTXT[k] if x != "mostra ge == ge"]
LOC = "l: {T} = {L}\np: {T} = {L}\nlo: {T}? = nulo\nlc: Caixa = gc\n"
LOCP = "l: {T} = {L}\nlo: {T}? = nulo\nlc: Caixa = gc\n"
PLACES = [
    LOC + "{S}",
    "func prin(p: {T})\n" + LOCP + "{S}\nfim",
    "func prin(p: {T}): {T}\n" + LOCP + "{S}\nretorna {E}\nfim",
    "met Caixa::prin(alvo, p: {T}): {T}?\n" + LOCP + "{S}\nretorna {E}\nfim",
    "func prin(p: {T}): [{T}]\n" + LOCP + "para j de 0..3 faca\n{S}\nse j == 2 entao\nretorna [{T}: {E}]\nfim\nfim\nretorna gv\nfim",
    "func prin(p: {T}): {T}\n" + LOCP + "retorna iguala ge\nEsc::Um(_) => faca\n{S}\nproduz {E}\nfim,\n_ => {E}\nfim\nfim",
    LOC + "se verdadeiro entao\nenquanto gi < 1 faca\n{S}\ngi += 1\nfim\nsenao\n{S2}\nfim",
    LOC + "escolha gi:\ncaso 0:\n{S}\nsenao:\n{S2}\nfim",
    "func prin(p: {T}): {T}\n" + LOCP + "se iguala ge => Esc::Dois(z, _) entao\n{S}\nretorna {E}\nsenao\n{S2}\nretorna z0\nfim\nfim",
]
PLACES[-1] = PLACES[-1].replace("retorna z0", "retorna p")
# what can't be a statement or operand as written
NOT_STMT = re.compile(r"^[\"'0-9f\-+(]|^nao|^verdadeiro")
COMBOS = [(t, f, pl) for t in LIT for f in FORMS + EXTRA[t] for pl in range(len(PLACES))]


def combo(r, t, f, pl):
    """-> (contexts, program(contexts)): an expression form of a type, in
    every context that takes it, at one placement"""

    def fill(s):
        return s.replace("{T}", t).replace("{L}", LIT[t])

    e = fill(f)

    def stmt(x, k):
        w = e
        if re.search(r"\{E\} (?:[=!]=|[<+*]|e|ou) |(?:[=!]=|[<+*]) \{E\}", x):
            w = f"({e})"
        return fill(x).replace("{E}", w).replace("{i}", str(k))

    xs = [x for x in CTX + CTXT[t]]
    if f in ("1", "gi"):
        # methods belong to the exact type, alternatives have one type
        xs = [x for x in xs if ".mt(" not in x and "produz" not in x]
        pl = 1 if pl == 5 else pl
    if t != "bool":
        xs = [x for x in xs if "nao (" not in x or "!=" in x]
    r.shuffle(xs)

    def program(xs):
        ss = [stmt(x, k) for k, x in enumerate(xs)]
        h = len(ss) // 2 + 1
        body = PLACES[pl]
        if "{S2}" in body:
            body = body.replace("{S2}", "\n".join(ss[h:]) or "mostra 1").replace("{S}", "\n".join(ss[:h]))
        else:
            body = body.replace("{S}", "\n".join(ss))
        return fill(PRE) + fill(body).replace("{E}", e) + "\n"

    return xs, program


# ------------------------------------------------------------ sizes
def big(k, n, r):
    nl = "\n"
    m = min(n, 250)
    d = min(n, 80)
    return {
        "list": lambda: f"v: [int] = [int: {', '.join(map(str, range(n)))}]\nmostra v[0]",
        "nested lists": lambda: "v: [[int]] = [[int]: " + ", ".join(f"[int: {j}]" for j in range(n)) + "]",
        "f-string": lambda: 'x: int = 1\nmostra f"' + "a{x}" * min(n, 3000) + '"',
        "sum": lambda: "mostra " + " + ".join(["1"] * min(n, 400)),
        "parentheses": lambda: "mostra " + "(" * d + "1" + ")" * d,
        "unary": lambda: "mostra " + "- " * d + "1",
        "nested calls": lambda: "func f(x: int): int\n retorna x\nfim\nmostra " + "f(" * d + "1" + ")" * d,
        "blocks": lambda: nl.join(r.choice(["se verdadeiro entao", "enquanto falso faca", "para i%d de 0..1 faca" % j, "se falso entao\nmostra 1\nsenao"]) for j in range(d)) + "\nmostra 1\n" + "fim\n" * d,
        "parameters": lambda: "func f(" + ", ".join(f"p{j}: int" for j in range(m)) + f"): int\n retorna p{m - 1}\nfim\nmostra f(" + ", ".join(map(str, range(m))) + ")",
        "fields": lambda: "registo R\n" + nl.join(f" c{j}: int" for j in range(n)) + "\nfim\nr: R = R(" + ", ".join(f"c{j}: {j}" for j in range(n)) + f")\nmostra r.c{n - 1}",
        "variants": lambda: "uniao U\n" + ",\n".join(f" V{j}(int)" for j in range(n)) + "\nfim\nu: U = U::V0(1)\nmostra iguala u\n" + ",\n".join(f" U::V{j}(x) => x + {j}" for j in range(n)) + "\nfim",
        "variant arguments": lambda: "uniao U\n A(" + ", ".join(["int"] * m) + "), B\nfim\nu: U = U::A(" + ", ".join(map(str, range(m))) + ")\niguala u\n U::A(" + ", ".join(f"x{j}" for j in range(m)) + ") => faca\n mostra x0\n fim,\n U::B => faca\n mostra 1\n fim\nfim",
        "literal arms": lambda: "x: int = 3\nmostra iguala x\n" + ",\n".join(f" {j} => {j * 2}" for j in range(n)) + ",\n _ => 0\nfim",
        "text arms": lambda: "x: texto = 'a'\nmostra iguala x\n" + ",\n".join(f" 't{j}' => {j * 2}" for j in range(min(n, 400))) + ",\n _ => 0\nfim",
        "cases": lambda: "escolha 3:\n" + nl.join(f"caso {j}:\n mostra {j}" for j in range(n)) + "\nfim",
        "branches": lambda: "se falso entao\n mostra 1\n" + nl.join(f"senaose {j} == 1 entao\n mostra {j}" for j in range(min(n, 400))) + "\nfim",
        "locals": lambda: "func f()\n" + nl.join(f" x{j}: int = {j}" for j in range(n)) + f"\n mostra x{n - 1}\nfim\nf()",
        "globals": lambda: nl.join(f"x{j}: int = {j}" for j in range(n)) + f"\nmostra x{n - 1}",
        "functions": lambda: nl.join(f"func f{j}(a: int): int\n retorna a + {j}\nfim" for j in range(n)) + f"\nmostra f{n - 1}(1)",
        "statements": lambda: "x: int = 0\n" + "x += 1\n" * (n * 4),
        "long body": lambda: "x: int = 0\nenquanto x < 3 faca\n x += 1\n" + "se x == 1 entao\n continua\nfim\nmostra x\n" * n + "fim",
        "records": lambda: nl.join(f"registo R{j}\n x: int\nfim" for j in range(n)) + f"\nmostra R{n - 1}(x: 1).x",
        "methods": lambda: "registo R\n x: int\nfim\n" + nl.join(f"met R::m{j}(alvo): int\n retorna alvo.x + {j}\nfim" for j in range(n)) + f"\nmostra R(x: 1).m{n - 1}()",
        "long text": lambda: 'mostra "' + "é" * (n * 20) + '"',
        "long name": lambda: "a" * n + ": int = 1\nmostra " + "a" * n,
        "field path": lambda: "registo N\n v: int\n p: N?\nfim\nn: N = N(v: 1, p: nulo)\nmostra n" + ".p.valor" * d + ".v",
        "method chain": lambda: "met int::s(alvo): int\n retorna alvo + 1\nfim\nx: int = 1\nmostra x" + ".s()" * d,
        "assignment chain": lambda: "x, y: int\n" + "x = y = " * (d // 2) + "3",
        "nested iguala": lambda: "uniao U\n A, B\nfim\nu: U = U::A\n" + "".join("se iguala u => U::A entao\n" for _ in range(min(d, 25))) + "mostra 1\n" + "fim\n" * min(d, 25),
        "nested patterns": lambda: "uniao L\n F, N(int, L)\nfim\nl: L = L::F\nmostra iguala l\n " + "".join(f"L::N(x{j}, " for j in range(min(d, 12))) + "L::F" + ")" * min(d, 12) + " => 1,\n _ => 0\nfim",
        "columns": lambda: "uniao U\n A, B, C\nfim\nuniao P\n X(U, U, U, U)\nfim\np: P = P::X(U::A, U::B, U::C, U::A)\nmostra iguala p\n" + "".join(f" P::X({', '.join(r.choice(['U::A', 'U::B', 'U::C', '_', 'a%d' % q]) for q in range(4))}) => {j},\n" for j in range(min(n, 20))) + " _ => 0\nfim",
        "arm blocks": lambda: "x: int = 1\niguala x\n" + ",\n".join(f" {j} => faca\n y{j}: int = x\n mostra y{j}\n fim" for j in range(n)) + ",\n _ => faca\n mostra 0\n fim\nfim",
        "dimensions": lambda: "v: " + "[" * min(d, 20) + "int" + "]" * min(d, 20) + " = vec(int" + ", 1" * min(d, 20) + ")\nmostra v" + "[0]" * min(d, 20),
    }


KINDS = sorted(big("", 3, random.Random(1)))
