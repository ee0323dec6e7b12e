"""Programs that break one rule of the language: the constructs that break it,
the places they can be in, and what the diagnostic must say. '§' comes before
the offending construct: the diagnostic names its line."""
import re

PRE = """usa "qmod" => qm_
usa "qmod2" => [la, lg, LR]
registo QP
  x: int
  r: real?
  t: texto
  vs: [int]
  f: QP?
fim
registo QO
  x: int
fim
uniao QU
  A, B(int), C(QP, QU)
fim
uniao QE
  X, Y
fim
met QP::qm(alvo, k: int): int
  retorna alvo.x + k
fim
met QP::qz(alvo)
  mostra alvo.x
fim
met QU::qmu(alvo): QU
  retorna alvo
fim
met int::qmi(alvo, k: int): int
  retorna alvo * k
fim
met int?::qmo(alvo): int
  retorna 1
fim
func qf(a: int, b: texto): int
  retorna a
fim
func qv()
  mostra 1
fim
func qn(): int
  retorna 1
fim
func qop_(p: QP, o: real?): QP?
  retorna p
fim
qi: int = 3
qr: real = 1.5
qb: bool = verdadeiro
qt: texto = "abc"
qs: [int] = [int: 1, 2]
qss: [[int]] = [[int]: qs, qs]
qrs: [real] = [real: 1.5]
qo: int? = 4
qot: texto? = nulo
qp: QP = QP(x: 1, r: nulo, t: "a", vs: qs, f: nulo)
qop: QP? = qp
qu: QU = QU::B(3)
qe: QE = QE::X
qps: [QP] = [QP: qp]
qx: indef = 3
"""
MODS = {
    "qmod.ama": """registo Q
  a: int
fim
uniao W
  Z, K(int)
fim
func mf(a: int): int
  retorna a
fim
mg: int = 5
func mv()
  mg = 6
fim
mq: Q = Q(a: 2)
mt: texto = "m"
""",
    "qmod2.ama": """registo LR
  a: int
fim
registo LH
  a: int
fim
uniao LU
  Z, K(int)
fim
func la(a: int): int
  retorna a
fim
func lh(a: int): int
  retorna a
fim
lg: int = 5
li: int = 5
""",
}
TYS = ["int", "real", "bool", "texto", "[int]", "[[int]]", "[real]", "QP", "QO", "QU", "QE", "int?", "texto?", "QP?", "real?", "[QP]"]
VALS = {
    "int": ["7", "qi", "(qi)", "qp.x", "qs[0]", "qf(1, qt)", "qn()", "qp.qm(2)", "qi.qmi(4)", "qo.valor", "tam(qs)", "-qi", "qi + 1", "remova(qs, 0)", "(1.5 :> int)", "qm_.mg", "qm_.mf(1)", "qo.valor_ou(1)", "qss[0][1]", "lg", "la(2)", "(qx :> int)", "qi // 2", "qm_.mq.a"],
    "real": ["1.5", "qr", "qi / 2", "qr * 2", "(qi + 1.5)", "-qr", "qrs[0]", "qp.r.valor", "(qi :> real)", "qp.r.valor_ou(1.5)"],
    "bool": ["verdadeiro", "qb", "qi < 3", "nao qb", "(qo == nulo)", "qt == \"a\"", "txt_contem(qt, \"b\")", "(qb e falso)"],
    "texto": ["\"abc\"", "qt", "qt[0]", "qp.t", "(qi :> texto)", "f\"a{qi}\"", "qot.valor", "\"\"", "qm_.mt", "leia(\"\")"],
    "[int]": ["qs", "qp.vs", "[int: 1]", "qss[0]", "[int:]"],
    "[[int]]": ["qss", "[[int]: qs]"],
    "[real]": ["qrs", "[real: 1.5, 2]"],
    "[QP]": ["qps", "[QP: qp]"],
    "QP": ["qp", "QP(x: 1, r: nulo, t: qt, vs: qs, f: qp)", "qop.valor", "qps[0]", "(qp)"],
    "QO": ["QO(x: 1)"],
    "QU": ["qu", "QU::A", "QU::B(1)", "qu.qmu()", "QU::C(qp, QU::A)"],
    "QE": ["qe", "QE::Y"],
    "int?": ["qo"],
    "texto?": ["qot"],
    "QP?": ["qop", "qp.f", "qop_(qp, 1.5)"],
    "real?": ["qp.r"],
    "vazio": ["qv()", "qp.qz()", "qm_.mv()"],
    "nulo": ["nulo"],
    "indef": ["qx"],
    # of modules
    "Q": ["qm_.mq", "qm_.Q(a: 1)"],
    "LR": ["LR(a: 1)"],
}


def fits(a, b):
    """a value of type a where one of type b is needed"""
    if a == b:
        return True
    if a in ("vazio",):
        return False
    if b == "indef":
        return True
    if b.endswith("?"):
        return a == "nulo" or (not a.endswith("?") and fits(a, b[:-1]) and a != "indef")
    return a == "int" and b == "real"


NUM = {"int", "real"}
BAD_ASSIGN = r"[Aa]tribuição inválida"
ARG = r"argumento inválido|erro no argumento"
FLD = r"argumento nomeado inválido"
OP = r"não suportam operações|não suporta"
IDX = r"Índices para valores do tipo"
COND = r"a condição da instrução"
# (statement with a hole, types that fit in it, what the diagnostic says)
HOLES = []
for k, t in enumerate(TYS):
    HOLES.append((f"n_: {t} = §{{E}}", t, BAD_ASSIGN))
    HOLES.append((f"mostra [{t}: §{{E}}]" if not t.endswith("?") else f"n_: {t} = §{{E}}", t, r"O tipo do elemento 0 da lista|" + BAD_ASSIGN))
HOLES += [
    ("qi = §{E}", "int", BAD_ASSIGN), ("qr = §{E}", "real", BAD_ASSIGN), ("qb = §{E}", "bool", BAD_ASSIGN), ("qt = §{E}", "texto", BAD_ASSIGN),
    ("qs = §{E}", "[int]", BAD_ASSIGN), ("qo = §{E}", "int?", BAD_ASSIGN), ("qp = §{E}", "QP", BAD_ASSIGN), ("qu = §{E}", "QU", BAD_ASSIGN), ("qop = §{E}", "QP?", BAD_ASSIGN),
    ("qp.x = §{E}", "int", BAD_ASSIGN), ("qp.r = §{E}", "real?", BAD_ASSIGN), ("qp.t = §{E}", "texto", BAD_ASSIGN), ("qp.vs = §{E}", "[int]", BAD_ASSIGN), ("qp.f = §{E}", "QP?", BAD_ASSIGN), ("qps[0].f.valor.x = §{E}", "int", BAD_ASSIGN), ("qop.valor.t = §{E}", "texto", BAD_ASSIGN),
    ("qs[0] = §{E}", "int", BAD_ASSIGN), ("qrs[0] = §{E}", "real", BAD_ASSIGN), ("qss[0] = §{E}", "[int]", BAD_ASSIGN), ("qss[0][1] = §{E}", "int", BAD_ASSIGN), ("qps[0] = §{E}", "QP", BAD_ASSIGN),
    ("qs[§{E}] = 1", "int", IDX), ("qss[0][§{E}] = 1", "int", IDX), ("mostra qs[§{E}]", "int", IDX), ("mostra qt[§{E}]", "int", IDX), ("mostra qss[§{E}][0]", "int", IDX), ("qs[§{E}] += 1", "int", IDX),
    ("qi = qp.x = §{E}", "int", BAD_ASSIGN), ("qs[0] = qi = §{E}", "int", BAD_ASSIGN),
    ("mostra qf(§{E}, qt)", "int", ARG), ("mostra qf(1, §{E})", "texto", ARG), ("qf(1, §{E})", "texto", ARG), ("mostra qop_(qp, §{E}) == nulo", "real?", ARG), ("mostra qop_(§{E}, 1.5) == nulo", "QP", ARG), ("mostra qp.qm(§{E})", "int", ARG), ("mostra qi.qmi(§{E})", "int", ARG), ("mostra qm_.mf(§{E})", "int", ARG), ("mostra la(§{E})", "int", ARG), ("escreva(§{E})", "indef", ARG), ("escrevaln(§{E})", "indef", ARG), ("mostra leia_int(§{E})", "texto", ARG),
    ("mostra QP(x: §{E}, r: nulo, t: qt, vs: qs, f: nulo).x", "int", FLD), ("mostra QP(t: qt, x: 1, r: §{E}, vs: qs, f: nulo).x", "real?", FLD), ("mostra QP(x: 1, r: nulo, t: §{E}, vs: qs, f: nulo).x", "texto", FLD), ("mostra QP(x: 1, r: nulo, t: qt, vs: §{E}, f: nulo).x", "[int]", FLD), ("mostra QP(x: 1, r: nulo, t: qt, vs: qs, f: §{E}).x", "QP?", FLD), ("mostra LR(a: §{E}).a", "int", FLD), ("mostra qm_.Q(a: §{E}).a", "int", FLD),
    ("mostra QU::B(§{E})", "int", ARG), ("mostra QU::C(§{E}, qu)", "QP", ARG), ("qu = QU::C(qp, §{E})", "QU", ARG),
    ("mostra [int: 1, §{E}, 2]", "int", r"O tipo do elemento 1 da lista"), ("qss = [[int]: qs, §{E}]", "[int]", r"O tipo do elemento 1 da lista"),
    ("se §{E} entao\n mostra 1\nfim", "bool", COND + " 'se'"), ("se qb entao\n mostra 1\nsenaose §{E} entao\n mostra 2\nfim", "bool", COND + " 'senaose'"), ("se qb entao\n mostra 1\nsenaose qb entao\n mostra 3\nsenaose §{E} entao\n mostra 2\nsenao\n mostra 4\nfim", "bool", COND + " 'senaose'"), ("enquanto §{E} faca\n quebra\nfim", "bool", COND + " 'enquanto'"),
    ("para i_ de §{E}..3 faca\n mostra i_\nfim", "int", "parâmetros de uma série"), ("para i_ de 0..§{E} faca\n mostra i_\nfim", "int", "parâmetros de uma série"), ("para i_ de 0..3 inc §{E} faca\n mostra i_\nfim", "int", "parâmetros de uma série"),
    ("escolha qi:\ncaso 1:\n mostra 1\ncaso §{E}:\n mostra 2\nfim", "int", "O tipo do valor do caso"), ("escolha qt:\ncaso §{E}:\n mostra 2\nsenao:\n mostra 3\nfim", "texto", "O tipo do valor do caso"),
    ("anexa(qs, §{E})", "int", "o valor a anexar|argumento"), ("anexa(qss, §{E})", "[int]", "o valor a anexar|argumento"), ("anexa(qps, §{E})", "QP", "o valor a anexar|argumento"), ("mostra remova(qs, §{E})", "int", "número inteiro|argumento"), ("mostra vec(int, §{E})", "int", "inteiros"), ("mostra vec(bool, 2, §{E})", "int", "inteiros"), ("mostra txt_contem(§{E}, qt)", "texto", ARG), ("mostra txt_contem(qt, §{E})", "texto", ARG),
    ("mostra qo.valor_ou(§{E})", "int", ARG), ("mostra qot.valor_ou(§{E})", "texto", ARG), ("mostra qop.valor_ou(§{E})", "QP", ARG),
    ("mostra iguala qi\n 1 => 2,\n §_ => {E}\nfim", "=int", "Retorno da alternativa"), ("qt = iguala qu\n QU::A => \"a\",\n §QU::B(_) => {E},\n _ => \"b\"\nfim", "=texto", "Retorno da alternativa"),
    ("mostra nao §({E})", "bool", "operador|operações"), ("mostra §({E}) e verdadeiro", "bool", OP), ("mostra verdadeiro ou §({E})", "bool", OP), ("mostra §({E}) == verdadeiro", "~bool", OP), ("mostra §({E}) != \"a\"", "~texto", OP), ("mostra 1 == §({E})", "#", OP),
    ("mostra -§({E})", "#", "operador|operações"), ("mostra §({E}) + 1", "#", OP), ("mostra 2.5 * §({E})", "#", OP), ("mostra 1 - §({E})", "#", OP), ("mostra §({E}) / 2", "#", OP), ("mostra §({E}) // 2", "#", OP), ("mostra 7 % §({E})", "#", OP), ("mostra §({E}) < 2", "#", OP), ("mostra 2 >= §({E})", "#", OP), ("mostra §({E}) > 1.5", "#", OP), ("mostra 1 <= §({E})", "#", OP),
    ("qi += §({E})", "int", OP + "|" + BAD_ASSIGN), ("qr *= §({E})", "#", OP + "|" + BAD_ASSIGN), ("qs[0] -= §({E})", "int", OP + "|" + BAD_ASSIGN), ("qp.x += §({E})", "int", OP + "|" + BAD_ASSIGN), ("qi /= §({E})", "never", OP + "|" + BAD_ASSIGN),
    ("mostra f\"a{§{E}}\"", "fstr", "fstrings|vazio"), ("mostra §{E}", "show", "mostrar"),
    ("mostra tam(§{E})", "sized", "'tam'"), ("mostra (§{E})[0]", "indexed", "não contém índices"), ("(§{E})[0] = 1", "ints", "não contém índices|índices|" + BAD_ASSIGN),
    ("anexa(§{E}, 1)", "ints", "deve ser um vector|o valor a anexar"), ("mostra remova(§{E}, 0)", "vec", "deve ser um vector"),
    ("escolha §{E}:\ncaso 1:\n mostra 2\nfim", "=int/texto", "escolha só pode"), ("escolha {E}:\n§caso 1:\n mostra 2\nfim", "texto=", "O tipo do valor do caso"),
    ("mostra (§{E}).valor", "opt", "não possui"), ("mostra (§{E}).x", "hasx", "não possui"), ("(§{E}).x = 2", "hasx", "não possui"), ("mostra (§{E}).qm(1)", "=QP", "não possui"), ("mostra (§{E}).qmi(1)", "=int", "não possui"), ("mostra (§{E}).qmo()", "=int?", "não possui"),
    ("iguala {E}\n §QE::X => faca\n  mostra 1\n fim,\n QE::Y => faca\n  mostra 1\n fim\nfim", "=QE", ""), ("se iguala §{E} => QU::B(k_) entao\n mostra k_\nfim", "=QU", ""),
]


def takes(t, a):
    """whether a value of type a fits in a hole described by t"""
    if t == "never":
        return False
    if t == "#":
        return a in NUM
    if t == "fstr":
        return a in ("int", "real", "bool", "texto")
    if t == "show":
        return a != "vazio"
    if t == "sized":
        return a == "texto" or a.startswith("[")
    if t == "indexed":
        return a == "texto" or a.startswith("[")
    if t == "vec":
        return a.startswith("[")
    if t == "ints":
        return a in ("[int]", "[real]")
    if t == "opt":
        return a.endswith("?")
    if t == "hasx":
        return a in ("QP", "QO")
    if t == "=int/texto":
        return a == "int"
    if t == "texto=":
        return a == "int"
    if t.startswith("="):
        return a == t[1:]
    if t.startswith("~"):
        # compared for equality
        return a == t[1:]
    return fits(a, t)


# pairs that the language doesn't settle
def unsettled(hole, a):
    t = hole[1]
    if a == "indef" and (t.startswith("~") or t in ("#", "show", "sized", "indexed", "opt", "hasx", "vec", "ints", "never") or t[0] == "="):
        return True
    if t.startswith("~") or hole[0].startswith("mostra 1 =="):
        # what can be compared for equality with what
        return a not in ("int", "real", "bool", "texto", "vazio", "[int]")
    if t == "fstr":
        return a not in ("int", "real", "bool", "texto", "vazio")
    if t == "=int/texto" and a == "texto" or t == "texto=" and a not in ("texto", "int"):
        return True
    if t == "indef" and a == "nulo":
        return True
    if "==" in hole[0] and t.startswith("="):
        return True
    # an index inside of what can't be indexed
    return False


# ------------------------------------------------------------ expressions
# (expression, type it would have, what the diagnostic says)
EXPRS = [
    ("zz_", "*", "'zz_' não foi"), ("zz_(1)", "*", "'zz_' não foi"), ("zz_.x", "*", "'zz_' não foi"), ("zz_[0]", "*", "'zz_' não foi"), ("qp.zz_", "*", "atributo 'zz_'"), ("qp.zz_(1)", "*", "'zz_'"), ("qi.zz_()", "*", "'zz_'"), ("qu.zz_()", "*", "'zz_'"), ("qps[0].zz_", "*", "'zz_'"), ("qop.x", "*", "'x'"), ("qo.zz_", "*", "'zz_'"), ("qop_(qp, 1.5).x", "*", "'x'"), ("qs.x", "*", "não possui"),
    ("1 + qt", "int", OP), ("qt + qt", "texto", OP), ("verdadeiro + 1", "int", OP), ("qs + qs", "[int]", OP), ("qb < qb", "bool", OP), ("qt < \"b\"", "bool", OP), ("1 e qb", "bool", OP), ("qb ou qt", "bool", OP), ("qi == qt", "bool", OP), ("qb == 1", "bool", OP), ("qi * nulo", "int", OP), ("qo + 1", "int", OP), ("qp + 1", "int", OP), ("qu * 2", "int", OP), ("qt % 2", "int", OP), ("qt // 2", "int", OP),
    ("-qt", "int", "operador|operações"), ("-qb", "int", "operador|operações"), ("nao qi", "bool", "operador|operações"), ("+qt", "int", "operador|operações"), ("-qs", "int", "operador|operações"), ("nao qt", "bool", "operador|operações"), ("-nulo", "int", "operador|operações"),
    ("qi[0]", "int", "não contém índices"), ("qr[0]", "int", "não contém índices"), ("qp[0]", "int", "não contém índices"), ("qu[0]", "int", "não contém índices"), ("qo[0]", "int", "não contém índices"), ("qs[0][0]", "int", "não contém índices"), ("qs[qt]", "int", IDX), ("qs[1.5]", "int", IDX), ("qt[qb]", "texto", IDX), ("qs[qo]", "int", IDX), ("qs[nulo]", "int", IDX),
    ("qf(1)", "int", "número incorrecto de argumentos para a função qf. Esperava 2.*recebeu 1"), ("qf()", "int", "Esperava 2.*recebeu 0"), ("qf(1, qt, 3)", "int", "Esperava 2.*recebeu 3"), ("qn(1)", "int", "Esperava 0.*recebeu 1"), ("qp.qm()", "int", "número incorrecto de argumentos para o método QP::qm. Esperava 1.*recebeu 0"), ("qp.qm(1, 2)", "int", "Esperava 1.*recebeu 2"), ("qi.qmi()", "int", "número incorrecto"), ("qm_.mf()", "int", "número incorrecto"), ("qm_.mf(1, 2)", "int", "número incorrecto"), ("la()", "int", "número incorrecto"), ("qf(a: 1, b: qt)", "int", "não suportam argumentos nomeados"), ("qp.qm(k: 1)", "int", "não suportam argumentos nomeados"),
    ("qi(1)", "int", "não é invocável"), ("qt()", "texto", "não é invocável"), ("qp.x(1)", "int", "não é invocável|não possui o método|método"), ("qs(0)", "int", "não é invocável"), ("qm_.mg()", "int", "não é invocável|não possui"),
    ("QP(x: 1, r: nulo, t: qt, vs: qs)", "QP", "inicializador do registo 'QP'. Esperava 5.*recebeu 4"), ("QP()", "QP", "Esperava 5.*recebeu 0"), ("QP(1, nulo, qt, qs, nulo)", "QP", "devem ser nomeados"), ("QP(x: 1, r: nulo, t: qt, vs: qs, zz_: nulo)", "QP", "'zz_'"), ("QP(x: 1, x: 1, t: qt, vs: qs, f: nulo)", "QP", "'x' já foi inicializado"), ("QO(1)", "QO", "devem ser nomeados"), ("QO(x: 1, y: 2)", "QO", "número incorrecto|'y'"), ("QO(zz_: 1)", "QO", "'zz_'"),
    ("QU::ZZ_", "QU", "variante 'ZZ_'"), ("QU::ZZ_(1)", "QU", "variante 'ZZ_'"), ("QU::B", "QU", "deve ser inicializada"), ("QU::B()", "QU", "Esperava 1.*recebeu 0"), ("QU::B(1, 2)", "QU", "Esperava 1.*recebeu 2"), ("QU::C(qp)", "QU", "Esperava 2.*recebeu 1"), ("QU::A(1)", "QU", "não declara nenhum argumento|não é invocável"), ("QZ_::A", "*", "'QZ_'"), ("QP::x", "*", "não possui sub-itens"), ("qu::A", "*", "não possui"), ("QE::A", "QE", "variante 'A'"),
    ("qs :> int", "int", "Não pode converter"), ("qp :> int", "int", "Não pode converter"), ("qb :> int", "int", "Não pode converter"), ("qu :> int", "int", "Não pode converter"), ("qt :> [int]", "[int]", "Não pode converter"), ("qi :> QP", "QP", "Não pode converter"), ("qp :> QO", "QO", "Não pode converter"), ("qi :> zz_", "*", "'zz_' não foi declarado"), ("nulo :> int", "int", "Não pode converter"), ("qo :> int", "int", "Não pode converter"), ("qv() :> texto", "texto", "Não pode converter"),
    ("[int: 1, qt]", "[int]", "O tipo do elemento 1"), ("[int: qr]", "[int]", "O tipo do elemento 0"), ("[texto: qt, qt, 1]", "[texto]", "O tipo do elemento 2"), ("[QP: nulo]", "[QP]", "O tipo do elemento 0"), ("[zz_: 1]", "*", "'zz_' não foi declarado"), ("[QU: QE::X]", "*", "O tipo do elemento 0"), ("[[int]: qs, qrs]", "[[int]]", "O tipo do elemento 1"), ("[[int]: [int: 1], [int: qb]]", "[[int]]", "O tipo do elemento 0"),
    ("qi.valor", "int", "não possui"), ("qt.valor_ou(qt)", "texto", "não possui"), ("qo.valor_ou()", "int", "número incorrecto"), ("qo.valor_ou(1, 2)", "int", "número incorrecto"), ("qo.valor_ou(nulo)", "int", ARG), ("qo.valor.valor", "int", "não possui"), ("nulo.valor", "int", "não possui"),
    ("tam(qi)", "int", "'tam'"), ("tam()", "int", "número incorrecto"), ("tam(qs, qs)", "int", "número incorrecto"), ("tam(qp)", "int", "'tam'"), ("tam(qo)", "int", "'tam'"), ("remova(qt, 0)", "texto", "deve ser um vector"), ("remova(qs)", "int", "número incorrecto"), ("vec(int)", "[int]", "pelo menos 2"), ("vec(QP, 2)", "[QP]", "tipo simples|inicializ|vector"), ("vec(int, qt)", "[int]", "inteiros"), ("vec(int, 2, qr)", "[[int]]", "inteiros"), ("vec(zz_, 2)", "*", "'zz_'"), ("txt_contem(qt)", "bool", "número incorrecto"), ("leia()", "texto", "número incorrecto"), ("leia_int(1)", "int", ARG),
    ("qm_.zz_", "*", "não possui o item 'zz_'|'zz_'"), ("qm_.zz_(1)", "*", "'zz_'"), ("lh(1)", "int", "'lh' não foi"), ("li", "int", "'li' não foi"), ("LH(a: 1)", "*", "'LH' não foi"), ("LU::Z", "*", "'LU'"), ("mg", "int", "'mg' não foi"), ("mf(1)", "int", "'mf' não foi"), ("Q(a: 1)", "*", "'Q' não foi"), ("W::Z", "*", "'W'"),
    ("QP", "*", ""), ("QU", "*", ""), ("int", "*", ""), ("qf", "*", ""), ("qv", "*", ""), ("escreva", "*", ""), ("tam", "*", ""), ("qp.qm", "*", ""), ("qi.qmi", "*", ""), ("qo.valor_ou", "*", ""), ("qm_", "*", ""), ("qm_.mf", "*", ""), ("qm_.Q", "*", ""), ("la", "*", ""), ("LR", "*", ""),
    ("f\"{zz_}\"", "texto", "'zz_' não foi"), ("f\"a{qi + qt}b\"", "texto", OP), ("f\"{qf(1)}\"", "texto", "número incorrecto"), ("f\"{qv()}\"", "texto", "fstrings"), ("f\"a{qi}{qs[qt]}\"", "texto", IDX),
    ("qv() == qv()", "bool", OP), ("qv() + 1", "int", OP), ("qv()[0]", "int", "não contém índices"), ("qf(qv(), qt)", "int", ARG), ("qot.qmo()", "int", "não possui"), ("qop.qmo()", "int", "não possui"), ("qp.qmo()", "int", "não possui"), ("qr.qmi(1)", "int", "não possui"), ("qt.qm(1)", "int", "não possui"),
    ("nulo + 1", "int", OP), ("nulo[0]", "int", "não contém índices"), ("nulo()", "int", ""), ("9223372036854775808", "int", "demasiado grande"), ("(iguala qi\n §1 => 2\nfim)", "int", ""), ("(iguala qu\n QU::A => 1\nfim)", "int", ""), ("(iguala qi\n 1 => 2,\n §_ => qt\nfim)", "int", "Retorno da alternativa"), ("(iguala qi\n §\"a\" => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qu\n §QE::X => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qu\n §QU::ZZ_ => 2,\n _ => 3\nfim)", "int", "'ZZ_'"), ("(iguala qu\n §QU::B(a_, b_) => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qu\n §QU::C(a_) => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qu\n §QU::B(\"a\") => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qt\n §1 => 2,\n _ => 3\nfim)", "int", ""), ("(iguala qu\n QU::B(a_) => 2,\n §_ => a_\nfim)", "int", "'a_' não foi"), ("(iguala qu\n QU::B(a_) => a_,\n §QU::A => zz_,\n _ => 3\nfim)", "int", "'zz_' não foi"), ("(iguala qi\n 1 => 2,\n _ => faca\n  §produz qt\n fim\nfim)", "int", ""), ("(iguala qi\n 1 => faca\n  k_: int = 1\n  produz k_\n fim,\n §_ => k_\nfim)", "int", "'k_' não foi"),
]
# (constructs, what the diagnostic says, where they can be)
# where: any, glob (top level), notfunc, notloop, notmet, notarm
STMTS = [
    ("§zz_ = 1", "'zz_' não foi", "any"), ("§zz_ += 1", "'zz_' não foi", "any"), ("§zz_[0] = 1", "'zz_' não foi", "any"), ("§zz_.x = 1", "'zz_' não foi", "any"), ("§qp.zz_ = 1", "'zz_'", "any"), ("§qi.x = 1", "não possui", "any"), ("§qt[0] = \"b\"", "não podem ser modificadas por meio de índices", "any"), ("§qi[0] = 1", "não contém índices|índices", "any"),
    ("§QP = qp", "", "any"), ("§qf = 1", "", "any"), ("§qv = nulo", "", "any"), ("§int = 1", "", "any"), ("§QU = qu", "", "any"), ("§qm_ = 1", "módulo|referência", "any"), ("§qm_.mg = 1", "módulo importado não podem ser modificadas|não pod", "any"), ("§qm_.mg += 1", "não pod", "any"), ("§lg = 1", "não pod", "any"), ("§lg += 1", "não pod", "any"), ("§qm_.mf = 1", "", "any"), ("§qm_.Q = 1", "", "any"), ("§la = 1", "", "any"), ("§qo.valor = 1", "O valor de uma opção não pode", "any"), ("§qp.qm = 1", "", "any"), ("§qo.valor_ou = 1", "", "any"), ("§tam = 1", "", "any"), ("§qm_.zz_ = 1", "'zz_'", "any"),
    ("k_: int = 1\n§k_: int = 2", "'k_' já foi", "any"), ("k_: int = 1\n§k_: texto", "'k_' já foi", "any"), ("k_, j_: int\n§j_: int", "'j_' já foi", "any"), ("§k_, k_: int", "'k_' já foi", "any"), ("§qi: int", "'qi' já foi", "glob"), ("§qf: int", "'qf' já foi", "glob"), ("§QP: int", "'QP' já foi", "glob"), ("§QU: int", "'QU' já foi", "glob"), ("§qm_: int", "'qm_' já foi|já", "glob"), ("§lg: int", "'lg' já foi", "glob"), ("§la: int", "'la' já foi", "glob"),
    ("§k_: zz_", "'zz_' não foi declarado", "any"), ("§k_: [zz_]", "'zz_' não foi declarado", "any"), ("§k_: zz_?", "'zz_' não foi declarado", "any"), ("§k_: [[zz_]?]", "'zz_' não foi declarado", "any"), ("§k_: qm_.zz_", "'zz_'", "any"), ("§k_: qm_.mf", "", "any"), ("§k_: qi", "", "any"), ("§k_: qf", "", "any"), ("§k_: Q", "'Q' não foi declarado", "any"), ("§k_: LH", "'LH' não foi declarado", "any"), ("§k_: QP", "devem ser inicializadas", "any"), ("§k_: QU", "devem ser inicializadas", "any"), ("§k_: [int]", "devem ser inicializadas", "any"), ("§k_: int?", "devem ser inicializadas", "any"), ("§k_: QP?", "devem ser inicializadas", "any"), ("§k_: indef", "devem ser inicializadas", "any"), ("§k_, j_: QP", "devem ser inicializadas", "any"), ("§k_: qm_.Q", "devem ser inicializadas", "any"), ("§k_: zz_.Q", "'zz_'", "any"), ("§k_: QP.Q", "não foi reconhecido como um módulo", "any"),
    ("§k_: int = k_", "durante a sua declaração|'k_'", "any"), ("§k_: int = qi + k_", "durante a sua declaração|'k_'", "any"), ("§k_: int = j_\nj_: int = 1", "'j_' não foi", "any"), ("§mostra k_\nk_: int = 1", "'k_' não foi", "any"),
    ("se qb entao\n k_: int = 1\nfim\n§mostra k_", "'k_' não foi", "any"), ("se qb entao\n k_: int = 1\nsenao\n §mostra k_\nfim", "'k_' não foi", "any"), ("enquanto qb faca\n k_: int = 1\n quebra\nfim\n§k_ = 2", "'k_' não foi", "any"), ("para k_ de 0..3 faca\n mostra k_\nfim\n§mostra k_", "'k_' não foi", "any"), ("§para k_ de 0..k_ faca\n mostra k_\nfim", "'k_'", "any"), ("escolha qi:\ncaso 1:\n k_: int = 1\ncaso 2:\n §mostra k_\nfim", "'k_' não foi", "any"), ("escolha qi:\ncaso 1:\n k_: int = 1\nsenao:\n §mostra k_\nfim", "'k_' não foi", "any"), ("iguala qu\n QU::B(k_) => faca\n  mostra k_\n fim,\n _ => faca\n  §mostra k_\n fim\nfim", "'k_' não foi", "any"), ("iguala qu\n QU::B(k_) => faca\n  mostra k_\n fim,\n _ => faca\n  mostra 1\n fim\nfim\n§mostra k_", "'k_' não foi", "any"), ("se iguala qu => QU::B(k_) entao\n mostra k_\nsenao\n §mostra k_\nfim", "'k_' não foi", "any"), ("se iguala qu => QU::B(k_) entao\n mostra k_\nfim\n§mostra k_", "'k_' não foi", "any"), ("iguala qi\n _ => faca\n  k_: int = 1\n fim\nfim\n§mostra k_", "'k_' não foi", "any"), ("se qb entao\n se qb entao\n  k_: int = 1\n fim\n §mostra k_\nfim", "'k_' não foi", "any"),
    ("§quebra", "'quebra' só pode ser usada dentro", "noloop"), ("§continua", "'continua' só pode ser usada dentro", "noloop"), ("se qb entao\n §quebra\nfim", "'quebra' só pode", "noloop"), ("para k_ de 0..2 faca\n mostra k_\nfim\n§quebra", "'quebra' só pode", "noloop"), ("enquanto falso faca\n mostra 1\nfim\n§continua", "'continua' só pode", "noloop"), ("iguala qi\n _ => faca\n  §continua\n fim\nfim", "'continua' só pode", "noloop"),
    ("§retorna 1", "'retorna' só pode ser usada", "nofunc"), ("§retorna", "'retorna' só pode ser usada|retorna", "nofunc"), ("se qb entao\n §retorna 1\nfim", "'retorna' só pode", "nofunc"), ("§mostra alvo", "'alvo' só pode", "nomet"), ("§alvo.x = 1", "'alvo' só pode", "nomet"), ("§qi = alvo", "'alvo' só pode", "nomet"),
    ("§produz 1", "produz", "noyield"), ("se qb entao\n §produz 1\nfim", "produz", "noyield"),
    ("§escolha qr:\ncaso 1.5:\n mostra 1\nfim", "escolha só pode", "any"), ("§escolha qb:\ncaso verdadeiro:\n mostra 1\nfim", "escolha só pode", "any"), ("§escolha qu:\ncaso QU::A:\n mostra 1\nfim", "escolha só pode", "any"), ("§escolha qo:\ncaso 1:\n mostra 1\nfim", "escolha só pode", "any"),
    ("iguala qu\n §QU::B(k_) => faca\n  mostra 1\n fim,\n QU::B(k_, j_) => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 1\n fim\nfim".replace("§", "").replace(" QU::B(k_, j_)", " §QU::B(k_, j_)"), "", "any"), ("§iguala qu\n QU::A => faca\n  mostra 1\n fim\nfim", "", "any"), ("§iguala qi\n 1 => faca\n  mostra 1\n fim\nfim", "", "any"), ("§iguala qt\n \"a\" => faca\n  mostra 1\n fim\nfim", "", "any"), ("§iguala qb\n _ => faca\n  mostra 1\n fim\nfim".replace("qb", "qv()"), "", "any"),
    ("§se iguala qi => \"a\" entao\n mostra 1\nfim", "", "any"), ("§se iguala qu => QE::X entao\n mostra 1\nfim", "", "any"), ("§se iguala qu => QU::B(k_, j_) entao\n mostra 1\nfim", "", "any"), ("§se iguala qp => 1 entao\n mostra 1\nfim", "", "any"),
    # declarations
    ("func f_(): int\n mostra 1\n§fim", "não possui a instrução 'retorna'", "gfunc"), ("§func f_(): int\n se qb entao\n  retorna 1\n fim\nfim", "não possui a instrução 'retorna'", "glob1"), ("§func f_(): int\n se qb entao\n  retorna 1\n senao\n  mostra 1\n fim\nfim", "não possui a instrução 'retorna'", "glob1"), ("§func f_(): int\n escolha qi:\n caso 1:\n  retorna 1\n fim\nfim", "não possui a instrução 'retorna'", "glob1"), ("§func f_(): int\n se qb entao\n  retorna 1\n senaose nao qb entao\n  mostra 3\n senao\n  retorna 2\n fim\nfim", "não possui a instrução 'retorna'", "glob1"), ("§met QP::f_(alvo): int\n mostra 1\nfim", "não possui a instrução 'retorna'", "glob1"), ("§func f_(): QP?\n mostra 1\nfim", "não possui a instrução 'retorna'", "glob1"),
    ("func f_()\n §retorna 1\nfim", "Não pode retornar um valor de uma função vazia", "glob"), ("func f_(): int\n §retorna\nfim", "retorno vazia|retorna", "glob"), ("func f_(): int\n §retorna qt\nfim", "expressão de retorno inválida", "glob"), ("func f_(): texto\n se qb entao\n  §retorna 1\n fim\n retorna qt\nfim", "expressão de retorno inválida", "glob"), ("met QP::f_(alvo): QP\n §retorna nulo\nfim", "expressão de retorno inválida", "glob"), ("func f_(): int\n retorna 1\n §retorna qt\nfim", "expressão de retorno inválida", "glob"), ("func f_(): [int]\n para k_ de 0..2 faca\n  §retorna k_\n fim\n retorna qs\nfim", "expressão de retorno inválida", "glob"), ("func f_(): int\n §retorna qo\nfim", "expressão de retorno inválida", "glob"), ("func f_(): int\n §retorna qr\nfim", "expressão de retorno inválida", "glob"), ("func f_(): int?\n §retorna qt\nfim", "expressão de retorno inválida", "glob"),
    ("§func f_(a: int, a: int)\n mostra a\nfim", "'a' já foi", "glob"), ("§func f_(a: zz_)\n mostra 1\nfim", "'zz_' não foi declarado", "glob"), ("§func f_(): zz_\n retorna 1\nfim", "'zz_' não foi declarado", "glob"), ("func f_(a: int)\n §a: int = 2\nfim", "'a' já foi", "glob"), ("func f_(a: int)\n mostra a\nfim\n§mostra a", "'a' não foi", "glob"), ("func f_()\n k_: int = 1\nfim\n§mostra k_", "'k_' não foi", "glob"), ("func f_()\n k_: int = 1\nfim\nfunc g_()\n §mostra k_\nfim", "'k_' não foi", "glob"), ("func f_()\n mostra 1\nfim\n§func f_()\n mostra 2\nfim", "'f_' já foi", "glob"), ("§func qf()\n mostra 2\nfim", "'qf' já foi", "glob"), ("§func qi()\n mostra 2\nfim", "'qi' já foi", "glob"), ("§func QP()\n mostra 2\nfim", "'QP' já foi", "glob"), ("§func la()\n mostra 2\nfim", "'la' já foi", "glob"), ("func f_()\n §g_()\nfim\nfunc g_()\n mostra 1\nfim", "'g_' não foi", "glob"), ("§f_()\nfunc f_()\n mostra 1\nfim", "'f_' não foi", "glob"), ("func f_()\n §mostra alvo\nfim", "'alvo' só pode", "glob"), ("func f_(): int\n §f_(1)\n retorna 1\nfim", "número incorrecto", "glob"),
    ("§func f_()\n mostra 1\nfim", "escopo global", "inblock"), ("§met QP::f_(alvo)\n mostra 1\nfim", "escopo global", "inblock"),
    ("registo R_\n x: int\n §x: int\nfim", "'x' já foi declarado", "glob"), ("registo R_\n §x: zz_\nfim", "'zz_' não foi declarado", "glob"), ("registo R_\n x: int\n §y: [zz_]\nfim", "'zz_' não foi declarado", "glob"), ("§registo QP\n x: int\nfim", "'QP' já foi", "glob"), ("§registo qi\n x: int\nfim", "'qi' já foi", "glob"), ("§registo LR\n x: int\nfim", "'LR' já foi", "glob"), ("registo R_\n x: int\nfim\n§k_: R_ = R_(y: 1)", "'y'", "glob"), ("§k_: R_\nregisto R_\n x: int\nfim", "'R_' não foi declarado", "glob"), ("registo R_\n §x: S_\nfim\nregisto S_\n x: int\nfim", "'S_' não foi declarado", "glob"),
    ("uniao U_\n A_,\n §A_\nfim", "'A_'", "gvar"), ("uniao U_\n A_,\n §B_(zz_)\nfim", "'zz_' não foi declarado", "gvar"), ("§uniao QU\n A_\nfim", "'QU' já foi", "glob"), ("§uniao qi\n A_\nfim", "'qi' já foi", "glob"),
    ("§met QP::qm(alvo)\n mostra 1\nfim", "já foi declarado", "glob"), ("§met QP::x(alvo)\n mostra 1\nfim", "'x' já foi", "glob"), ("§met zz_::f_(alvo)\n mostra 1\nfim", "'zz_' não foi declarado", "glob"), ("§met [int]::f_(alvo)\n mostra 1\nfim", "Não pode declarar métodos|Tipo inválido", "glob"), ("met QP::f_(alvo, k: int)\n mostra k\nfim\n§qp.f_(qt)", "argumento inválido", "glob"), ("met QP::f_(alvo)\n §mostra alvo.zz_\nfim", "'zz_'", "glob"), ("met QP::f_(alvo)\n §alvo.x = qt\nfim", BAD_ASSIGN, "glob"), ("met int::f_(alvo)\n §mostra alvo.x\nfim", "não possui", "glob"), ("§met int::qmi(alvo)\n mostra 1\nfim", "já foi declarado", "glob"), ("§met int?::qmo(alvo)\n mostra 1\nfim", "já foi declarado", "glob"), ("met QP::f_(alvo)\n mostra 1\nfim\n§f_(qp)", "'f_' não foi", "glob"), ("met QP::f_(alvo)\n §mostra x\nfim", "'x' não foi", "glob"), ("§met QP::f_(alvo, a: int, a: int)\n mostra 1\nfim", "'a' já foi", "glob"), ("met QP::f_(alvo)\n mostra 1\nfim\n§QO(x: 1).f_()", "'f_'", "glob"),
]
# a type declared in a block isn't the outer type with the same name
_R = "se qb entao\n registo QP\n  x: int\n fim\n"
_U = "se qb entao\n uniao QU\n  A, B(int), C(QP, QU)\n fim\n"
STMTS += [
    ("j_: QO = QO(x: 1)\n" + _R.replace("QP", "QO") + " §k_: QO = j_\nfim", BAD_ASSIGN, "any"), ("j_: QO = QO(x: 1)\n" + _R.replace("QP", "QO") + " §j_ = QO(x: 2)\nfim", BAD_ASSIGN, "any"), ("j_: QO? = nulo\n" + _R.replace("QP", "QO") + " §j_ = QO(x: 2)\nfim", BAD_ASSIGN, "any"), ("j_: QO? = nulo\n" + _R.replace("QP", "QO") + " §k_: QO? = j_\nfim", BAD_ASSIGN, "any"),
    (_R + " §qp = QP(x: 1)\nfim", BAD_ASSIGN, "any"), (_R + " k_: QP = QP(x: 1)\n §qop = k_\nfim", BAD_ASSIGN, "any"), (_R + " §qps = [QP: QP(x: 1)]\nfim", BAD_ASSIGN, "any"), (_R + " §k_: [QP] = [QP: qp]\nfim", "O tipo do elemento 0", "any"), (_R + " §anexa(qps, QP(x: 1))\nfim", "o valor a anexar|argumento", "any"), (_R + " §qps[0] = QP(x: 1)\nfim", BAD_ASSIGN, "any"), (_R + " §qp.f = QP(x: 1)\nfim", BAD_ASSIGN, "any"), (_R + " §mostra qop_(QP(x: 1), 1.5) == nulo\nfim", ARG, "any"), (_R + " §mostra QP(x: 1).qm(1)\nfim", "não possui", "any"), (_R + " §mostra qop.valor_ou(QP(x: 1)).x\nfim", ARG, "any"), (_R + " §qu = QU::C(QP(x: 1), qu)\nfim", ARG, "any"), (_R + " §k_: QP = QP(x: 1, t: qt)\nfim", "número incorrecto|Esperava 1", "any"), (_R + " §mostra QP(x: 1).t\nfim", "'t'", "any"),
    (_U + " §qu = QU::A\nfim", BAD_ASSIGN, "any"), (_U + " §k_: QU = qu\nfim", BAD_ASSIGN, "any"), (_U + " §k_: QU = QU::C(qp, qu)\nfim", ARG, "any"), (_U + " iguala qu\n  §QU::A => faca\n   mostra 1\n  fim,\n  _ => faca\n   mostra 2\n  fim\n fim\nfim", "", "any"), (_U + " §se iguala qu => QU::B(k_) entao\n  mostra k_\n fim\nfim", "", "any"), (_U + " §QU::A.qmu()\nfim".replace("QU::A.", "(QU::A)."), "não possui", "any"),
    (_R + "fim\n" + "§k_: QP = QP(x: 1)", "Esperava 5", "any"), ("se qb entao\n registo R_\n  x: int\n fim\nfim\n§k_: R_ = R_(x: 1)", "'R_' não foi", "any"), ("se qb entao\n uniao U_\n  A_\n fim\nfim\n§mostra U_::A_", "'U_' não foi", "any"), ("se qb entao\n registo R_\n  x: int\n fim\n §registo R_\n  y: int\n fim\nfim", "'R_' já foi", "any"), ("se qb entao\n registo QO\n  y: int\n fim\n j_: QO = QO(y: 1)\n se qb entao\n  registo QO\n   y: int\n  fim\n  §k_: QO = j_\n fim\nfim", BAD_ASSIGN, "any"),
]
HOLE = re.compile(r"\{E\}")
