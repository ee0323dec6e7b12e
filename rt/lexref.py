"""The tokens of the language, written from its definition. An independent
scanner by regular expressions; positions are offsets into the text."""
import re

KEYWORDS = set("""mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca
de continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe""".split())
OPS = "( ) . .. ; , { } [ ] @ @@ : ? :: :> => + - * / // % += -= *= /= < > <= >= != = ==".split()
SCAN = re.compile(
    r"""(?P<blank>(?:(?!\n)\s)+|\#[^\n]*)
    |(?P<nl>\n)
    |(?P<str>f?(?P<q>["'])(?P<body>(?>\\["'n]|(?!(?P=q)).)*+)(?P=q))
    |(?P<open>f?["'])
    |(?P<id>[^\W\d]\w*)
    |(?P<real>[0-9]+\.[0-9]+)
    |(?P<int>[0-9]+)
    |(?P<op>"""
    + "|".join(re.escape(o) for o in sorted(OPS, key=len, reverse=True))
    + r""")
    |(?P<bad>.)""",
    re.X | re.S,
)
ESC = re.compile(r"\\([\"'n])")


def scan(s):
    """-> (list of (kind, value, line, start, end), error | None); an error is
    (what, line)"""
    out, at, line = [], 0, 1
    while at < len(s):
        m = SCAN.match(s, at)
        k, t = m.lastgroup, m.group()
        k = next(g for g in ("blank", "nl", "str", "open", "id", "real", "int", "op", "bad") if m.group(g) is not None)
        a, at = at, m.end()
        if k == "blank":
            continue
        if k == "nl":
            out.append(("nl", None, line, a, at))
            line += 1
        elif k == "str":
            v = ESC.sub(lambda x: "\n" if x.group(1) == "n" else x.group(1), m.group("body"))
            out.append(("fstr" if t[0] == "f" else "str", m.group("q") + v + m.group("q"), line, a, at))
            line += t.count("\n")
        elif k == "open":
            return out, ("open", line, a)
        elif k == "id":
            out.append(("kw" if t in KEYWORDS else "id", t, line, a, at))
        elif k == "real":
            out.append(("real", float(t), line, a, at))
        elif k == "int":
            if len(t) > 4300:
                return out, ("number", line, a)
            out.append(("int", int(t), line, a, at))
        elif k == "op":
            out.append(("op", t, line, a, at))
        else:
            return out, ("symbol", line, a)
    return out, None
