"""C01: the token stream of the real scanner, watched token by token and
compared with an independent scanner and with texts built from known tokens."""
import _boot
import io
import os
import re
import unicodedata
from rt.check import Check
from rt import lang, lexref
from rt import clusters as cl
from rt.gen import Gen

c = Check("C01", "texts built from known tokens with every kind of separator (including none), operator runs, numbers next to dots and names, strings of every content, comments and blanks in odd places, random characters, mutated programs; every token's kind, value and line is compared with what the text was built from or with an independent scanner; lexical errors are compared by place, in the scanner and through the command; non-trivial: distinct texts with at least two tokens")
c.system(vm="shim")
from amanda.compiler.parse import Lexer  # noqa: E402
from amanda.compiler.tokens import TokenType as TT  # noqa: E402
from amanda.compiler.error import AmandaError  # noqa: E402

KIND = {"INTEGER": "int", "REAL": "real", "STRING": "str", "FORMAT_STR": "fstr", "IDENTIFIER": "id", "NEWLINE": "nl"}
KWT = {k.upper(): k for k in lexref.KEYWORDS}
OPT = {"LPAR": "(", "RPAR": ")", "DOT": ".", "DDOT": "..", "SEMI": ";", "COMMA": ",", "LBRACE": "{", "RBRACE": "}", "LBRACKET": "[", "RBRACKET": "]", "AT": "@", "DOUBLEAT": "@@", "COLON": ":", "QMARK": "?", "DOUBLECOLON": "::", "CAST": ":>", "ARROW": "=>", "PLUS": "+", "MINUS": "-", "STAR": "*", "SLASH": "/", "DOUBLESLASH": "//", "MODULO": "%", "PLUSEQ": "+=", "MINUSEQ": "-=", "STAREQ": "*=", "SLASHEQ": "/=", "LESS": "<", "GREATER": ">", "LESSEQ": "<=", "GREATEREQ": ">=", "NOTEQUAL": "!=", "EQUAL": "=", "DOUBLEEQUAL": "=="}


def real_tokens(text):
    """-> (list of (kind, value, line), error | None) seen from the scanner"""
    lx = Lexer("x.ama", io.StringIO(text))
    out = []
    limit = 2 * len(text) + 10
    try:
        while True:
            t = lx.get_token()
            if t.token == Lexer.EOF:
                return out, None
            n = t.token.name
            if n in KIND:
                k, v = KIND[n], None if n == "NEWLINE" else t.lexeme
            elif n in KWT:
                k, v = "kw", t.lexeme if t.lexeme == KWT[n] else f"{n} spelled {t.lexeme}"
            elif n in OPT:
                k, v = "op", t.lexeme if t.lexeme == OPT[n] else f"{n} spelled {t.lexeme}"
            else:
                k, v = n, t.lexeme
            out.append((k, v, t.line))
            if len(out) > limit:
                return out, ("endless", 0)
    except AmandaError as e:
        return out, (e.message, e.line)
    except Exception as e:
        return out, (f"exception {type(e).__name__}: {e}", -1)


def same_token(a, b):
    return a[0] == b[0] and a[2] == b[2] and type(a[1]) is type(b[1]) and (a[1] == b[1])


WHAT = {"symbol": "unrecognised character", "open": "string that is not closed", "number": "number that is too big"}


def compare(text, want, werr):
    """-> None or (signature, message)"""
    got, gerr = real_tokens(text)
    want = [w[:3] for w in want]
    # a line end at the very end may be left out
    if not werr and want and want[-1][0] == "nl" and len(got) == len(want) - 1:
        want = want[:-1]
    for k, (a, b) in enumerate(zip(got, want)):
        if not same_token(a, b):
            return ("token", f"token {k + 1} is {a[0]} {a[1]!r} on line {a[2]}; the text spells {b[0]} {b[1]!r} on line {b[2]}")
    if len(got) > len(want):
        return ("invented", f"token {len(want) + 1} is {got[len(want)]}, the text has no more" + (f" before a {WHAT[werr[0]]} on line {werr[1]}" if werr else ""))
    if len(got) < len(want):
        return ("dropped", f"after {len(got)} tokens: {'reported ' + repr(gerr) if gerr else 'the end'}; the text goes on with {want[len(got)]}")
    if werr and not gerr:
        return ("unreported", f"a {WHAT[werr[0]]} on line {werr[1]} was not reported")
    if gerr and not werr:
        return ("spurious", f"reported {gerr}, the text has nothing to report")
    if werr:
        if gerr[1] != werr[1] or gerr[0].startswith("exception"):
            return ("report", f"a {WHAT[werr[0]]} on line {werr[1]} was reported as {gerr}")
        if werr[0] == "symbol" and len(werr) > 2 and text[werr[2]] not in gerr[0]:
            return ("report", f"the report {gerr} does not have the character {text[werr[2]]!r}")
    return None


# ----------------------------------------------------------------- texts
LETTERS = "abcxyzABCZfnqeou_" + "áàâãçéêíóôõúüñÁÉÇßæøłđğžαβωЖя字あ한"
NAMES = ["x", "f", "n", "e1", "ef", "fe", "_", "__", "_1", "a1b2", "fim_", "fims", "Fim", "FIM", "Mostra", "verdadeir", "senaosee", "sena", "naof", "f1", "ff", "é", "ação", "São", "e_", "é1", "__eof__", "_EOF_", "_GEN_", "PROGRAM", "ou_", "de1", "valor", "inteiro", "cadeia", "identificador", "tam", "vec", "int", "real"]
BLANK = [" ", "  ", "\t", " \t ", "\x0b", "\x0c", "\u00a0", "\u2003", "\u3000", "\x1c", "\x1f", "\u2028", "\u0085"]
BAD = "$&|~`^\\!€£§°´¨“”«»…–—😀\u0301\u200d\u200b\ufeff\0\x01\x7f\u2192\ue000\U0001f1e6"


def word(r):
    k = r.randrange(4)
    if k == 0:
        return r.choice(sorted(lexref.KEYWORDS))
    if k == 1:
        return r.choice(NAMES)
    s = r.choice(LETTERS) + "".join(r.choice(LETTERS + "0123456789") for _ in range(r.choice([0, 1, 2, 5, 30])))
    return s


def number(r):
    k = r.randrange(6)
    if k == 0:
        return str(r.choice([0, 1, 10, 42, 2**31, 2**63 - 1, 2**63, 2**64, 10**40]))
    if k == 1:
        return r.choice(["007", "00", "0123", "000000", "1" * r.choice([20, 300, 4000])])
    if k == 2:
        return f"{r.randrange(1000)}.{r.randrange(1000)}"
    if k == 3:
        return r.choice(["0.0", "1.50", "00.10", "3.14159265358979", "1.0000000000000000000001", "123456789012345678901234567890.5", "0.1", "9" * 400 + ".0"])
    return str(r.randrange(10 ** r.randrange(1, 18)))


def string(r):
    """-> (source, kind, value)"""
    q = r.choice("'\"")
    src, val = "", ""
    for _ in range(r.choice([0, 0, 1, 2, 3, 8, 30])):
        k = r.randrange(8)
        if k <= 1:
            x = r.choice("nn'\"")
            src += "\\" + x
            val += "\n" if x == "n" else x
        elif k == 2:
            # a backslash that escapes nothing
            x = r.choice("ta0 \\u{#x/")
            if x == "\\":
                y = r.choice("abt ")
                src += "\\\\" + y
                val += "\\\\" + y
            else:
                src += "\\" + x
                val += "\\" + x
        elif k == 3:
            x = r.choice("\n\n#;{}()=:@")
            src += x
            val += x
        elif k == 4:
            x = "'" if q == '"' else '"'
            src += x
            val += x
        elif k == 5:
            x = r.choice(["fim", "f", "n", "# x", "//", "0", "é", "😀", "e\u0301", "\u2028", "\t"])
            src += x
            val += x
        else:
            x = chr(r.choice([r.randrange(32, 127), r.randrange(0xA1, 0x2000), r.randrange(0x1F300, 0x1F700)]))
            if x in "\\'\"":
                x = "."
            src += x
            val += x
    f = r.random() < 0.35
    return ("f" if f else "") + q + src + q, "fstr" if f else "str", q + val + q


def token(r):
    """-> (source, kind, value)"""
    k = r.randrange(10)
    if k < 3:
        w = word(r)
        return w, "kw" if w in lexref.KEYWORDS else "id", w
    if k < 5:
        n = number(r)
        return n, "real" if "." in n else "int", float(n) if "." in n else int(n)
    if k < 7:
        return string(r)
    if k == 7 and r.random() < 0.3:
        return "\n", "nl", None
    o = r.choice(lexref.OPS)
    return o, "op", o


def glue(a, b):
    """Whether two tokens can touch without becoming others"""
    if b[1] == "nl" or a[1] == "nl":
        return True
    w = ("kw", "id", "int", "real")
    if a[1] in w and b[1] in w:
        # a name can follow a number
        return a[1] in ("int", "real") and b[1] in ("kw", "id")
    if a[1] in ("kw", "id") and b[1] in ("str", "fstr"):
        return a[0] != "f" and not b[0].startswith("f")
    if a[1] in ("int", "real") and b[0][0] == ".":
        return False
    if a[1] == "op" and b[1] == "op":
        return not any(o.startswith(a[0]) and len(o) > len(a[0]) and (a[0] + b[0]).startswith(o) for o in lexref.OPS)
    return True


def between(r, a, b):
    k = r.random()
    if k < 0.35 and glue(a, b):
        return ""
    s = "".join(r.choice(BLANK) for _ in range(r.choice([1, 1, 1, 2, 5])))
    if r.random() < 0.3:
        s = r.choice([" ", "  "])
    return s


def comment(r):
    return "#" + "".join(r.choice(["a", " ", "'", '"', "#", "fim", "é", "😀", "\\", "\\n", "(", "$", "\t"]) for _ in range(r.choice([0, 1, 5, 20])))


def report(out, label, bad, text):
    out.violation(f"{label} {bad[0]}", f"{label}: {bad[1]}\n--- text\n{text[:1500]}", {"main.ama": text})


def built(i, out, run):
    """Tokens known by construction"""
    r = c.rng("b", i)
    for _ in range(20):
        toks = [token(r) for _ in range(r.choice([1, 2, 2, 3, 3, 5, 10, 40]))]
        text, want, line = "", [], 1
        if r.random() < 0.2:
            text += r.choice(BLANK)
        prev = None
        for t in toks:
            if prev:
                text += between(r, prev, t)
            if t[1] == "nl":
                if r.random() < 0.3:
                    text += comment(r)
                want.append(("nl", None, line))
                line += 1
                text += "\n"
            else:
                want.append((t[1], t[2], line))
                text += t[0]
                line += t[0].count("\n")
            prev = t
        if r.random() < 0.3:
            text += r.choice(["", " "]) + comment(r) if r.random() < 0.5 else r.choice(BLANK)
        err = None
        if r.random() < 0.15:
            b = r.choice(BAD)
            text += " " + b if "#" not in text.rsplit("\n", 1)[-1] else "\n" + b
            if text[-2] == "\n":
                want.append(("nl", None, line))
                line += 1
            err = ("symbol", line, len(text) - 1)
            text += r.choice(["", " x", "\ny"]) if b not in "!\\" else r.choice(["", " x", "x"])
            if b == "\\" and text.endswith("\\x"):
                pass
        elif r.random() < 0.1:
            q = r.choice(["'", '"', "f'", 'f"'])
            if "#" in text.rsplit("\n", 1)[-1]:
                text += "\n"
                want.append(("nl", None, line))
                line += 1
            else:
                text += " "
            err = ("open", line, len(text))
            text += q + r.choice(["", "abc", "a\nb", "\\", "x \\" + q[-1], "\n\n\n", "# a", '"' if q[-1] == "'" else "'"])
        out.n["evaluations"] += 1
        out.n["tokens compared"] += len(want)
        out.n["ended by " + (err[0] if err else "the end")] += 1
        # the two ways of knowing must agree before anything is judged
        ref, rerr = lexref.scan(text)
        if [x[:3] for x in ref] != want or (rerr[:2] if rerr else None) != (err[:2] if err else None):
            raise AssertionError(f"the reference scanner differs: {text!r}\n{ref}\n{want}\n{rerr} {err}")
        if len(want) > 1:
            out.seen(text)
        out.sample(text)
        bad = compare(text, want, err)
        if bad:
            report(out, "built", bad, text)
            return


OPCH = "().;,{}[]@:?=+-*/%<>!"


def judge(out, label, text):
    if any(skip(ch) for ch in outside(text)):
        out.n["not judged"] += 1
        return True
    want, err = lexref.scan(text)
    out.n["evaluations"] += 1
    out.n["tokens compared"] += len(want)
    out.n[label + " ended by " + (err[0] if err else "the end")] += 1
    if len(want) > 1:
        out.seen(text)
    bad = compare(text, want, err)
    if bad:
        report(out, label, bad, text)
        return False
    return True


def skip(ch):
    """Characters whose place in names and numbers the language leaves open"""
    if ord(ch) < 128:
        return False
    k = unicodedata.category(ch)
    return k in ("No", "Nl", "Nd", "Mn", "Mc", "Pc") and ch not in BAD


def outside(text):
    return text


def soup(i, out, run):
    r = c.rng("s", i)
    for _ in range(40):
        k = r.randrange(5)
        n = r.choice([1, 2, 3, 4, 6, 10, 30])
        if k == 0:
            t = "".join(r.choice(OPCH) for _ in range(n))
        elif k == 1:
            t = "".join(r.choice(OPCH + "01a. \n") for _ in range(n))
        elif k == 2:
            t = "".join(r.choice(["f", "'", '"', "\\", "n", "a", "\n", "#", " ", "{", "}", "1", "."]) for _ in range(n))
        elif k == 3:
            t = "".join(r.choice([word(r), number(r), string(r)[0], r.choice(lexref.OPS), r.choice(BLANK), "\n", comment(r), r.choice(BAD)]) for _ in range(n))
        else:
            t = "".join(chr(r.choice([r.randrange(1, 128), r.randrange(128, 0x600), r.randrange(0x2000, 0x2100)])) for _ in range(n))
        t = t.replace("\r", " ")
        if not judge(out, "soup", t):
            return


def mutated(i, out, run):
    """Generated programs, as they are and with characters changed"""
    r = c.rng("m", i)
    src = lang.render(Gen(r, funcs=2, depth=3, stmts=5, blk=3, free=1, shadow=0.5).program(), r.random(), wild=True, parens=0.1)
    for k in range(12):
        t = src
        if k:
            for _ in range(r.choice([1, 1, 2, 5])):
                j = r.randrange(len(t) + 1)
                m = r.randrange(5)
                if m == 0:
                    t = t[:j] + t[j + 1:]
                elif m == 1:
                    t = t[:j] + r.choice(OPCH + "'\"#\\\n f1.") + t[j:]
                elif m == 2:
                    t = t[:j]
                elif m == 3:
                    t = t[:j] + r.choice(BAD) + t[j:]
                else:
                    z = min(len(t), j + r.choice([1, 3, 20]))
                    t = t[:z] + t[j:]
        if not judge(out, "mutated", t):
            return


def command(i, out, run):
    """Lexical errors inside of good programs, through the command"""
    r = c.rng("c", i)
    src = lang.render(Gen(r, funcs=1, depth=2, stmts=5, blk=3, iguala=0, free=0).program(), r.random(), wild=False)
    toks, err = lexref.scan(src)
    if err or not toks:
        return
    t = r.choice(toks + [toks[-1]] * 2)
    at = t[4] if t[0] != "nl" else t[3]
    line = src.count("\n", 0, at) + 1
    b = r.choice(list(BAD.replace("\0", "")) + ["'sem fim", '"', "f'x", "9" * 5000])
    if b[0] not in BAD and (src[at:].count(b[-1]) or "'" in src[at:] or '"' in src[at:]):
        b = "$"
    if b == "\\" or b == "!":
        b += " "
    if "#" in src[src.rfind("\n", 0, at) + 1:at]:
        return
    text = src[:at] + " " + b + " " + src[at:]
    w, e = lexref.scan(text)
    if not e or e[1] != line:
        return
    q = run.run({"main.ama": text}, norun=True)
    out.n["evaluations"] += 1
    out.n["commands with a lexical error"] += 1
    out.seen(text)
    m = re.search(r'^Ficheiro "main.ama", linha (\d+)', q.err.decode("utf-8", "replace"), re.M)
    if q.reached:
        out.violation("command accepted", f"a {WHAT[e[0]]} on line {line} was not reported\n" + q.brief(), {"main.ama": text})
    elif q.kind == "crash":
        out.n["crashed (not judged here)"] += 1
    elif not m or int(m.group(1)) != line:
        out.violation("command line", f"a {WHAT[e[0]]} on line {line} was reported as {m.group(0) if m else None}\n" + q.brief(), {"main.ama": text})


K = float(os.environ.get("AMV_SCALE", "1"))
c.pmap(built, int((60000 if c.thorough else 2500) * K), label="b")
c.pmap(soup, int((60000 if c.thorough else 2500) * K), label="s")
c.pmap(mutated, int((20000 if c.thorough else 700) * K), label="m")
c.pmap(command, int((20000 if c.thorough else 700) * K), label="c")
c.assumptions = ["letters are what Unicode calls letters; where combining marks, other scripts' digits and number-like symbols may stand in names is not judged", "a line end at the very end of the text may have no token"]


def probe(e, run):
    want, err = lexref.scan(e["program"])
    return compare(e["program"], want, err) is not None


c.probe_known(probe)
c.finish()
