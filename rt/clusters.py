"""Texts whose division into user-visible characters is known by construction:
they are put together from whole clusters."""
import unicodedata

COMB = "\u0300\u0301\u0302\u0303\u0308\u0327\u0328\u0330\u0331\u20d7\u0483\u05b0\u064b\u0e34\u0e48\u3099"
SKIN = "\U0001f3fb\U0001f3fc\U0001f3fd\U0001f3fe\U0001f3ff"
PICT = "\U0001f600\U0001f4a9\U0001f680\u2764\u2603\u231a\U0001f9e0\U0001f1e6"[:7]
PEOPLE = "\U0001f468\U0001f469\U0001f467\U0001f466\U0001f9d1"
RI = [chr(0x1F1E6 + i) for i in range(26)]
WORDS = ["123", "-5", "1.5", "1e5", "inf", "NaN", "nan", "infinity", "verdadeiro", "falso", "nulo", "fim", "0", "00", "+1", "-0", "1_000", "0x10", "", " ", "  x", "x  ", "'", '"', "''", "'a'", '"a"', "{", "}", "{}", "{{", "}}", "{a}", "#", "# nada", ";", "\t", "\n", "\n\n", "a\nb", "\\", "\\t", "\\ x", "/", "//", "%", "%s", "%d", "\\u00e9", "&amp;", "ç", "ÇÃO", "9223372036854775808", "-9223372036854775809", "é", "e\u0301"]


def plain(r):
    return r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 .,;:!?_-+*/%=<>()[]{}'\"#@$&|~^`")


def latin(r):
    return r.choice("áàâãçéêíóôõúüñÁÉÇøßłřžαβγδωЖЯдאבגابتअआकनกขあアッ漢字語¿¡«»—–…€£ªº°²½×÷\u00a0\u2003\u202f")


def comb(r):
    return r.choice("aeioucnAEzЖα") + "".join(r.choice(COMB) for _ in range(r.choice([1, 1, 1, 2, 3, 6])))


def hangul(r):
    k = r.randrange(4)
    if k == 0:
        return chr(0xAC00 + r.randrange(11172))
    if k == 1:
        return chr(0x1100 + r.randrange(19)) + chr(0x1161 + r.randrange(21))
    if k == 2:
        return chr(0x1100 + r.randrange(19)) + chr(0x1161 + r.randrange(21)) + chr(0x11A8 + r.randrange(27))
    return chr(0xAC00 + 28 * r.randrange(399)) + chr(0x11A8 + r.randrange(27))


def flag(r):
    return r.choice(RI) + r.choice(RI)


def emoji(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice(PICT)
    if k == 1:
        return r.choice("\u2764\u2603\u231a\u2600\u260e") + "\ufe0f"
    if k == 2:
        return r.choice("\U0001f44d\U0001f44b\U0001f64f" + PEOPLE) + r.choice(SKIN)
    if k == 3:
        return "\u200d".join(r.choice(PEOPLE) + r.choice(["", r.choice(SKIN)]) for _ in range(r.choice([2, 3, 4])))
    if k == 4:
        return r.choice("0123456789#*") + "\ufe0f\u20e3"
    if k == 5:
        return "\U0001f3f4" + "".join(chr(0xE0000 + ord(c)) for c in r.choice(["gbeng", "gbsct", "gbwls"])) + "\U000e007f"
    if k == 6:
        return "\U0001f3f3\ufe0f\u200d\U0001f308"
    return "\u2764\ufe0f\u200d\U0001f525"


def indic(r):
    return r.choice(["नि", "का", "மு", "กำ", "ກໍ", "कि\u0902"])


def control(r):
    return r.choice(["\n", "\t", "\u200b", "\u00ad", "\u2028", "\u0085", "\u0007", "\u007f", "\ufeff", "\u001b"])


def astral(r):
    return r.choice("\U00010000\U0001d49c\U00020000\U0002a6d6\U0010fffd\ue000\U0001d7d8")


KINDS = [(8, plain), (3, latin), (3, comb), (2, hangul), (2, flag), (3, emoji), (1, indic), (1, control), (1, astral)]


def cluster(r, kinds=KINDS):
    return r.choices([k for _, k in kinds], [w for w, _ in kinds])[0](r)


def text(r, n=None, kinds=KINDS):
    """-> list of clusters"""
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40]) if n is None else n
    cs = [cluster(r, kinds) for _ in range(n)]
    if r.random() < 0.15:
        # a mark with nothing to sit on is a character of its own
        cs.insert(0, r.choice(COMB[:8]))
    return cs


def writable(s):
    """Whether a string literal can spell it: a backslash can't be followed
    by what it would escape"""
    return not any(c == "\\" and (i + 1 == len(s) or s[i + 1] in "n'\"") for i, c in enumerate(s)) and "\r" not in s and "\0" not in s


def literal(s, r, quote=None, raw_nl=False, fstring=False):
    """Spells a text"""
    q = quote or r.choice("'\"")
    out = []
    for c in s:
        if c == "\n":
            c = "\n" if raw_nl and r.random() < 0.3 else "\\n"
        elif c == q:
            c = "\\" + c
        elif c in "'\"" and r.random() < 0.3:
            c = "\\" + c
        elif c == "{" and fstring:
            c = "{{"
        out.append(c)
    return ("f" if fstring else "") + q + "".join(out) + q
