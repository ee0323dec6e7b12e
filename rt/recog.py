"""Whether a text is a program of the grammar. An independent recogniser; it
is never stricter than the grammar (where layouts are concerned it is looser),
so what it refuses is malformed."""
import sys
from . import lexref


class Bad(Exception):
    def __init__(self, what, line):
        self.what, self.line = what, line


STOP = {"fim", "senao", "senaose", "caso"}


class Recog:
    def __init__(self, text, base=None):
        toks, err = lexref.scan(text)
        self.base = base
        self.t = [(k, v if k in ("kw", "op") else k, l, v) for k, v, l, _, _ in toks]
        if err:
            # the text is malformed, wherever the error is
            raise Bad("token " + err[0], base or err[1])
        last = self.t[-1][2] if self.t else 1
        self.t.append(("eof", "eof", last, None))
        self.i = 0

    # ----------------------------------------------------------- tokens
    @property
    def la(self):
        return self.t[self.i][1]

    def bad(self, what):
        raise Bad(what, self.base or self.t[self.i][2])

    def take(self, *ks):
        if self.la in ks:
            self.i += 1
            return self.t[self.i - 1]
        self.bad("expected " + "/".join(ks) + " got " + str(self.la))

    def has(self, k):
        if self.la == k:
            self.i += 1
            return True
        return False

    def nls(self):
        while self.la == "nl":
            self.i += 1

    def end(self):
        if self.la == "eof":
            return
        self.take("nl", ";")

    # ----------------------------------------------------------- modules
    def module(self):
        self.nls()
        while self.has("@@"):
            self.annot()
            self.nls()
        while self.has("usa"):
            self.take("str")
            if self.has("=>"):
                if self.has("["):
                    self.take("id")
                    while self.has(","):
                        self.take("id")
                    self.take("]")
                else:
                    self.take("id")
            self.end()
            self.nls()
        self.body()
        if self.la != "eof":
            self.bad("loose " + self.la)

    def annot(self):
        self.take("id")
        if self.has("("):
            if self.la == ")":
                self.bad("no attributes")
            while self.la != ")":
                self.take("id")
                self.take("=")
                self.take("str")
                self.has(",")
            self.take(")")

    def body(self):
        while self.la not in STOP and self.la != "eof":
            if not self.has("nl"):
                self.decl()

    def block(self):
        self.body()
        self.take("fim")

    def decl(self):
        if self.la == "@":
            while self.has("@"):
                self.annot()
                self.nls()
            if self.la not in ("func", "met", "registo", "uniao"):
                self.bad("annotation of nothing")
        k = self.la
        if k == "func":
            self.i += 1
            native = self.has("nativa")
            self.take("id")
            self.take("(")
            self.params()
            self.take(")")
            if self.has(":"):
                if not self.has("vazio"):
                    self.type()
            if native:
                self.end()
            else:
                self.block()
        elif k == "met":
            self.i += 1
            self.gparams()
            self.type()
            self.take("::")
            self.take("id")
            self.take("(")
            self.take("alvo")
            if self.has(","):
                self.params()
            self.take(")")
            if self.has(":"):
                self.type()
            self.block()
        elif k == "registo":
            self.i += 1
            self.take("id")
            self.gparams()
            while self.la != "fim":
                if self.has("nl"):
                    continue
                self.take("id")
                while self.has(","):
                    self.take("id")
                self.take(":")
                self.type()
                self.end()
                if self.la == "eof":
                    self.bad("open record")
            self.i += 1
        elif k == "uniao":
            self.i += 1
            self.take("id")
            self.gparams()
            self.nls()
            if self.la == "id":
                self.variant()
                self.nls()
                while self.has(","):
                    self.nls()
                    self.variant()
                    self.nls()
            self.take("fim")
        else:
            self.stmt()

    def variant(self):
        self.take("id")
        if self.has("("):
            self.nls()
            self.type()
            self.nls()
            while self.has(","):
                self.nls()
                self.type()
                self.nls()
            self.take(")")

    def gparams(self):
        if self.has("["):
            if self.la == "]":
                self.bad("no parameters")
            while self.la != "]":
                self.take("id")
                self.has(",")
            self.take("]")

    def params(self):
        self.nls()
        if self.la != "id":
            return
        while True:
            self.nls()
            self.take("id")
            self.take(":")
            self.type()
            self.nls()
            if not self.has(","):
                return

    def type(self):
        if self.has("["):
            self.type()
            self.take("]")
        else:
            self.take("id")
            while self.has("."):
                self.take("id")
            if self.has("["):
                if self.la == "]":
                    self.bad("no arguments")
                while self.la != "]":
                    self.type()
                    self.has(",")
                self.take("]")
        self.has("?")

    # ------------------------------------------------------- instructions
    def stmt(self):
        k = self.la
        if k in ("mostra", "produz"):
            self.i += 1
            self.expr()
            self.end()
        elif k == "retorna":
            self.i += 1
            if self.la not in (";", "nl"):
                self.expr()
            self.end()
        elif k in ("quebra", "continua"):
            self.i += 1
            self.end()
        elif k == "se":
            self.i += 1
            if self.has("iguala"):
                self.expr()
                self.take("=>")
                self.pattern()
                self.take("entao")
                self.body()
            else:
                self.expr()
                self.take("entao")
                self.body()
                while self.has("senaose"):
                    self.expr()
                    self.take("entao")
                    self.body()
            if self.has("senao"):
                self.body()
            self.take("fim")
        elif k == "enquanto":
            self.i += 1
            self.expr()
            self.take("faca")
            self.block()
        elif k == "para":
            self.i += 1
            self.take("id")
            self.take("de")
            self.expr()
            self.take("..")
            self.expr()
            if self.has("inc"):
                self.expr()
            self.take("faca")
            self.block()
        elif k == "escolha":
            self.i += 1
            self.expr()
            self.take(":")
            self.nls()
            while self.has("caso"):
                self.expr()
                self.take(":")
                self.body()
            if self.has("senao"):
                self.take(":")
                self.body()
            self.take("fim")
        elif k == "iguala":
            self.iguala()
        else:
            w = self.assignment()
            if self.la in ("+=", "-=", "*=", "/="):
                if w not in ("var", "place"):
                    self.bad("not a place")
                self.i += 1
                self.expr()
            elif w == "var" and self.has(":"):
                self.type()
                if self.has("="):
                    self.expr()
            elif w == "var" and self.la == ",":
                while self.has(","):
                    self.take("id")
                self.take(":")
                self.type()
            self.end()

    def assignment(self):
        w = self.expr()
        if self.la == "=":
            if w not in ("var", "place"):
                self.bad("not a place")
            self.i += 1
            self.assignment()
            return "assigned"
        return w

    def iguala(self):
        self.take("iguala")
        self.expr()
        self.nls()
        while self.la != "fim":
            self.arm()
            while self.has(","):
                self.arm()
        self.take("fim")

    def arm(self):
        self.nls()
        self.pattern()
        self.nls()
        self.take("=>")
        self.nls()
        if self.has("faca"):
            self.block()
        else:
            self.expr()
        self.nls()

    def pattern(self):
        if self.la == "(":
            self.i += 1
            self.nls()
            self.pattern()
            self.nls()
            self.take(")")
            return
        if self.la in ("int", "str", "fstr", "alvo"):
            self.i += 1
            return
        self.take("id")
        while self.has("::"):
            self.take("id")
        if self.has("("):
            self.nls()
            self.pattern()
            self.nls()
            while self.has(","):
                self.nls()
                self.pattern()
                self.nls()
            self.take(")")

    # -------------------------------------------------------- expressions
    LV = [("==", "!="), ("<", ">", "<=", ">="), ("+", "-", "ou"), ("*", "/", "//", "%", "e")]

    def expr(self, lv=0):
        if lv == 4:
            return self.unary()
        w = self.expr(lv + 1)
        while self.la in self.LV[lv]:
            self.i += 1
            self.expr(lv + 1)
            w = "value"
        return w

    def unary(self):
        n = 0
        while self.la in ("+", "-", "nao"):
            self.i += 1
            n += 1
        w = self.call()
        return "value" if n else w

    def call(self):
        w = self.primary()
        while self.la in ("(", ".", "["):
            k = self.la
            self.i += 1
            if k == ".":
                self.take("id")
                w = "place"
            elif k == "[":
                self.nls()
                self.expr()
                self.nls()
                self.take("]")
                w = "place"
            else:
                self.args()
                self.take(")")
                w = "value"
        if self.has(":>"):
            self.type()
            w = "value"
        return w

    def args(self):
        self.nls()
        if self.la == ")":
            return
        while True:
            self.nls()
            if self.expr() == "var" and self.has(":"):
                self.nls()
                self.expr()
            self.nls()
            if not self.has(","):
                return

    def primary(self):
        k = self.la
        if k == "id":
            self.i += 1
            if self.la != "::":
                return "var"
            while self.has("::"):
                self.take("id")
            return "value"
        if k == "alvo":
            self.i += 1
            return "var"
        if k in ("int", "real", "str", "nulo", "verdadeiro", "falso"):
            self.i += 1
            return "value"
        if k == "fstr":
            self.fstr()
            self.i += 1
            return "value"
        if k == "(":
            self.i += 1
            self.nls()
            w = self.expr()
            self.nls()
            self.take(")")
            return w
        if k == "[":
            self.i += 1
            self.nls()
            self.type()
            self.nls()
            self.take(":")
            self.nls()
            if self.la != "]":
                self.expr()
                self.nls()
                while self.has(","):
                    self.nls()
                    self.expr()
                    self.nls()
            self.take("]")
            return "value"
        if k == "iguala":
            self.iguala()
            return "value"
        self.bad("no expression starts with " + str(k))

    def fstr(self):
        line = self.base or self.t[self.i][2]
        s = self.t[self.i][3][1:-1]
        at = 0
        while True:
            a = s.find("{", at)
            if a < 0:
                return
            if s[a : a + 2] == "{{":
                at = a + 2
                continue
            b = s.find("}", a)
            if b < 0:
                raise Bad("open expression in f-string", line)
            x = s[a + 1 : b]
            if not x.strip():
                raise Bad("empty expression in f-string", line)
            if x.strip()[:2] in ("f'", 'f"'):
                raise Bad("f-string in f-string", line)
            q = Recog(x, line)
            q.expr()
            q.nls()
            if q.la != "eof":
                raise Bad("more after the expression in f-string", line)
            at = b + 1


def malformed(text):
    """-> None, or (what, line) when the text is surely not a program"""
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(max(lim, 60000))
    try:
        Recog(text.replace("\r\n", "\n").replace("\r", "\n")).module()
    except Bad as e:
        return e.what, e.line
    except RecursionError:
        return None
    finally:
        sys.setrecursionlimit(lim)
    return None
