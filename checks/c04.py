"""C04: a program that breaks one rule, anywhere, is rejected at the right
place. Constructs that break a rule are put into well-typed programs; the
diagnostic must be about that line and that rule, and nothing may run."""
import _boot
import re
from rt.check import Check
from rt.diag import wrong, DIAG
from rt import lang, rules
from rt.gen import Gen
from rt.lang import N
from rt.rules import HOLES, VALS, EXPRS, STMTS, PRE, MODS, takes, unsettled

c = Check("C04", "one construct that breaks a rule (every hole that needs a type with every type that does not fit, ill-typed expressions of every form in every hole and under operands, calls, matches and f-strings, declaration, scope, arity, return and placement errors) put in a random place of a random well-typed program, of its functions, methods and blocks, or of a module it imports; the diagnostic must name that file, that line and that rule, and nothing may run; the same program without the construct, or with one that follows the rule, must be accepted; non-trivial: distinct rejected programs")
c.system()

PROF = dict(funcs=2, methods=1, depth=3, edepth=2, stmts=7, blk=3, trace=0.2, unsafe=0, shadow=0.3, rec=0)
PR = [PROF, {**PROF, "regs": 1, "unis": 1, "iguala": 3, "seiguala": 2}, {**PROF, "vecs": 2, "opts": 2, "loops": 2}]
DECLS = {"func", "reg", "uni", "usa"}


class Host:
    """A well-typed program and the places in it"""

    def __init__(self, r):
        self.r = r
        g = Gen(r, **r.choice(PR))
        g.reserved |= set(re.findall(r"\w+", PRE))
        self.prog = g.program()
        self.places = []
        self.walk(self.prog, dict(fn=None, loop=False, arm=False, met=False, glob=True))
        self.seed = r.random()

    def walk(self, x, ctx, block=True):
        if isinstance(x, (list, tuple)):
            if block and isinstance(x, list) and x and all(isinstance(s, N) and s.k in STATEMENTS for s in x):
                self.places.append((x, ctx))
            for y in x:
                if isinstance(y, (list, tuple, N)):
                    self.walk(y, ctx, block)
            return
        if x.k == "func":
            self.walk(x.x.body, dict(ctx, fn=x.x, loop=False, met=x.x.recv is not None, glob=False))
            return
        sub = dict(ctx)
        if x.k in STATEMENTS:
            sub["glob"] = False
        if x.k in ("enquanto", "para"):
            sub["loop"] = True
        if x.k in ("iguala", "seiguala"):
            sub["arm"] = True
            sub["glob"] = False
        self.walk(x.a, sub, False)  # operands
        if isinstance(x.x, (list, tuple, N)):
            self.walk(x.x, sub)

    def fits(self, where, ctx):
        if where == "any":
            return True
        if where in ("glob", "glob1", "gfunc", "gvar"):
            return ctx["glob"]
        if where == "noloop":
            return not ctx["loop"] and not ctx["arm"]
        if where == "nofunc":
            return ctx["fn"] is None and not ctx["arm"]
        if where == "nomet":
            return not ctx["met"]
        if where == "noyield":
            return not ctx["arm"]
        if where == "inblock":
            return not ctx["glob"]
        raise ValueError(where)

    def put(self, text, where, inside=None):
        """-> program text with the text in one of the places"""
        r = self.r
        ps = [p for p in self.places if self.fits(where, p[1])]
        if not ps:
            return None
        deep = [p for p in ps if not p[1]["glob"]]
        lst, ctx = r.choice(deep) if deep and r.random() < 0.7 else r.choice(ps)
        end = len(lst)
        if lst[-1].k in ("retorna", "produz", "quebra", "continua"):
            end -= 1
        i = r.randint(0, end)
        raw = N("raw", None, [], "\n" + text + "\n")
        lst.insert(i, raw)
        try:
            t = lang.render(self.prog, self.seed)
        finally:
            lst.remove(raw)
        return t


STATEMENTS = {"decl", "mdecl", "assign", "expr", "mostra", "escrevaln", "escreva", "se", "escolha", "enquanto", "para", "iguala", "seiguala", "func", "reg", "uni", "quebra", "continua", "retorna", "produz", "usa", "nop"}
WRAP = ["se qb entao\n{S}\nfim", "se falso entao\n mostra 1\nsenaose qb entao\n{S}\nsenao\n mostra 2\nfim", "se falso entao\n mostra 1\nsenao\n{S}\nfim", "enquanto qb faca\n{S}\n quebra\nfim", "para w{n} de 0..2 faca\n mostra w{n}\n{S}\nfim", "escolha qi:\ncaso 3:\n{S}\nsenao:\n mostra 1\nfim", "escolha qt:\ncaso \"a\":\n mostra 1\nsenao:\n{S}\nfim", "iguala qu\n QU::B(w{n}) => faca\n{S}\n fim,\n _ => faca\n mostra 1\n fim\nfim", "iguala qe\n QE::X => faca\n mostra 1\n fim,\n QE::Y => faca\n{S}\n fim\nfim", "se iguala qu => QU::C(w{n}, _) entao\n{S}\nfim", "se iguala qu => QU::A entao\n mostra 1\nsenao\n{S}\nfim"]
LOOPS = ("enquanto", "para")
FWRAP = ["func f{n}(w{n}: int)\n{S}\nfim", "func f{n}(): int\n{S}\nretorna 1\nfim", "met QP::f{n}(alvo, w{n}: texto)\n{S}\nfim", "met int::f{n}(alvo): int\n{S}\n retorna alvo\nfim", "func f{n}(): int\n se qb entao\n  retorna 1\n senao\n{S}\n  retorna 2\n fim\nfim", "mostra iguala qi\n 1 => 2,\n _ => faca\n{S}\n produz 3\n fim\nfim"]


def wrapped(r, text, where):
    """The text inside of blocks written here, or None where it can't be"""
    if where in ("glob", "glob1", "gfunc", "gvar"):
        return text
    n = r.choice([0, 1, 1, 2, 3])
    for j in range(n):
        w = r.choice(WRAP)
        if where == "noloop" and (w.startswith(LOOPS) or w.startswith(("iguala", "se iguala"))):
            continue
        if where in ("noyield", "nofunc") and w.startswith(("iguala", "se iguala")):
            continue
        text = w.replace("{S}", text).replace("{n}", f"{j}_")
    return text


def functioned(r, text, where):
    w = r.choice(FWRAP)
    if where == "nofunc" and not w.startswith("mostra"):
        return text
    if where in ("nofunc", "noyield", "noloop") and w.startswith("mostra"):
        return text
    if where == "nomet" and w.startswith("met"):
        return text
    return w.replace("{S}", text).replace("{n}", "9_")


def located(text):
    """-> text without marks, line of the offending construct"""
    k = text.rfind("§")
    line = text.count("\n", 0, k) + 1
    return text.replace("§", ""), line


def judge(out, run, host, text, says, where, what, key):
    """text: the offending construct"""
    r = host.r
    lines = text[:text.rfind("§")].count("\n")  # of it that come before what is wrong
    text = wrapped(r, text, where)
    top = r.random() < 0.35 and where != "inblock"
    if where in ("any", "noloop", "nomet", "noyield", "nofunc") and top and r.random() < 0.6:
        text = functioned(r, text, where)
        t = host.put(text, "glob" if not text.startswith("mostra") else "nofunc")
    else:
        t = host.put(text, where)
    if t is None:
        out.n["no place"] += 1
        return
    t, line = located(PRE + t)
    files = dict(MODS)
    if r.random() < 0.2:
        # the program is a module that another imports
        files["zmod.ama"] = t
        name = "zmod.ama"
        files["main.ama"] = r.choice(['usa "zmod"\nmostra 1\n', 'usa "zmod" => z\nmostra 1\n', 'mostra 0\nusa "zmod"\n'.replace("mostra 0\n", "# nada\n\n")])
    else:
        files["main.ama"] = t
        name = "main.ama"
    res = run.run(files, cpu=20, wall=120)
    out.n["evaluations"] += 1
    out.n[what] += 1
    out.seen(t)
    w = wrong(files, res)
    if w:
        return out.violation(f"{what}:{w[0]}", f"{what} ({key}): {w[1]}\n" + res.brief(), {**files, "construct": text})
    if res.reached or res.module:
        return out.violation(f"accepted:{key}", f"{what}: accepted: {text}\n" + res.brief(), {**files, "construct": text})
    m = DIAG.fullmatch(res.err.decode("utf-8", "backslashreplace"))
    got, gline, _, _, _, msg = m.groups()
    if got != name:
        return out.violation(f"file:{key}", f"{what}: {text}\nthe diagnostic is about {got}, not {name}: {msg}", {**files, "construct": text})
    if not line - lines <= int(gline) <= line:
        return out.violation(f"line:{key}", f"{what}: {text}\nthe diagnostic is about line {gline}, not {line}: {msg}", {**files, "construct": text})
    if says and not re.search(says, msg):
        return out.violation(f"rule:{key}", f"{what}: {text}\nthe diagnostic says: {msg}; expected something like {says!r}", {**files, "construct": text})
    out.vals.setdefault("rules", set()).add(re.sub(r"'[^']*'|\d+", "#", msg)[:80])
    out.n["rejected at the right place"] += 1


# ------------------------------------------------------------- the inputs
PAIRS = [(h, a) for h in HOLES for a in VALS if a not in ("indef",) or True]
BAD = [(h, a) for h, a in PAIRS if not takes(h[1], a) and not unsettled(h, a)]
GOOD = [(h, a) for h, a in PAIRS if takes(h[1], a) and not unsettled(h, a)]
FULL = [(h, a, v) for h, a in BAD for v in VALS[a]]


def fill(h, v):
    if "f\"" in h[0] and INFSTR.search(v):
        return None
    return h[0].replace("{E}", v)


def mismatch(i, out, run):
    r = c.rng("m", i)
    host = Host(r)
    for k in range(8):
        j = (i * 8 + k) * 7919 + c.seed * 31
        if c.thorough:
            h, a, v = FULL[j % len(FULL)]
        else:
            h, a = BAD[j % len(BAD)]
            v = r.choice(VALS[a])
        s = fill(h, v)
        if s is not None:
            judge(out, run, host, s, h[2], "any", "value of another type", f"{h[0]} <- {a}")


# expressions around an expression, of its type
AROUND = {
    "*": ["(§{E})", "(iguala qi\n 1 => §{E},\n _ => §{E}\nfim)"],
    "int": ["qf(§{E}, qt)", "qs[§{E}]", "§{E} + 1", "2 * (§{E})", "qp.qm(§{E})", "qi.qmi(§{E})", "[int: 1, §{E}][0]", "qo.valor_ou(§{E})", "QP(x: §{E}, r: nulo, t: qt, vs: qs, f: nulo).x", "tam(vec(int, §{E}))", "qm_.mf(§{E})", "la(§{E})", "(((§{E}) :> texto) :> int)", "tam(f\"a{§{E}}\")", "(iguala §{E}\n 1 => 2,\n k9_ => k9_\nfim)", "(iguala qi\n 1 => 2,\n _ => faca\n  k8_: int = §{E}\n  produz k8_\n fim\nfim)"],
    "texto": ["f\"a{§{E}}b\"", "qs[0] :> texto", "(§{E})[0]", "[texto: §{E}][0]", "qot.valor_ou(§{E})"],
    "bool": ["nao (§{E})", "(§{E}) e qb", "qb ou (§{E})", "[bool: §{E}][0]"],
}
AROUND["texto"].remove("qs[0] :> texto")
INFSTR = re.compile(r"[{}\"\n]")


def inside(r, e, t, depth):
    """an expression of the type with the offending one somewhere in it"""
    own = "§" in e
    for _ in range(depth):
        w = r.choice(AROUND["*"] + AROUND.get(t, []) * 2)
        if "f\"" in w and INFSTR.search(e.replace("§", "")):
            continue
        e2 = e.replace("§", "\x01") if own else e
        e = w.replace("§", "" if own else "§", 1) if w.count("{E}") == 1 else w.replace("§", "") if own else w
        if w.count("{E}") == 2:
            # only the first one is offending: the first is reported
            a, b = e.split("{E}", 1)
            good = {"int": "1", "texto": "qt", "bool": "qb"}.get(t)
            if good is None:
                return e2.replace("\x01", "§") if own else "§" + e2
            if r.random() < 0.5:
                e = a + "{E}" + b.replace("§", "").replace("{E}", good)
            else:
                e = a.replace("§", "") + good + b
        e = e.replace("{E}", e2.replace("§", "") if not own else e2).replace("\x01", "§")
        own = True
    return e


def expressions(i, out, run):
    r = c.rng("x", i)
    host = Host(r)
    for k in range(8):
        e, t, says = EXPRS[((i * 8 + k) * 7919 + c.seed) % len(EXPRS)]
        key = e
        e = inside(r, e, t, r.choice([0, 0, 0, 1, 1, 2, 3]))
        if "§" not in e:
            e = "§" + e
        hs = [h for h in HOLES if (t == "*" and h[1] in rules.TYS) or (t != "*" and takes(h[1], t))]
        if "\n" in e or "\"" in e or "{" in e or "}" in e:
            hs = [h for h in hs if "f\"" not in h[0]]
        h = r.choice(hs)
        s = h[0]
        s = s.replace("§", "")
        s = s.replace("{E}", e)
        judge(out, run, host, s, says, "any", "ill-typed expression", f"{key} in {h[0]}")


def statements(i, out, run):
    r = c.rng("s", i)
    host = Host(r)
    for k in range(8):
        s, says, where = STMTS[((i * 8 + k) * 7919 + c.seed) % len(STMTS)]
        judge(out, run, host, s, says, where, "broken rule", s)


def accepted(i, out, run):
    """What follows the rules, in the same places, is not rejected"""
    r = c.rng("g", i)
    host = Host(r)
    ss = []
    for k in range(25):
        h, a = GOOD[((i * 25 + k) * 7919 + c.seed * 31) % len(GOOD)]
        s = fill(h, r.choice(VALS[a]))
        if s is not None:
            ss.append("se qb entao\n" + s.replace("§", "") + "\nfim")
    t = host.put("\n".join(ss), "any")
    files = {**MODS, "main.ama": PRE + t}
    res = run.run(files, norun=True, cpu=20, wall=120)
    out.n["evaluations"] += 1
    out.n["programs that follow the rules"] += 1
    if res.kind == "diag" or res.crashed:
        out.violation("rejected", "a program that follows the rules is rejected:\n" + res.brief(), files)


if __name__ == "__main__":
    n = c.scale(len(BAD) // 8 + 1, len(FULL) // 8 + 1)
    c.pmap(mismatch, n, budget=c.scale(150, 1500))
    c.pmap(expressions, c.scale(len(EXPRS) * 4 // 8, len(EXPRS) * 40 // 8), budget=c.scale(100, 1000))
    c.pmap(statements, c.scale(len(STMTS) * 4 // 8, len(STMTS) * 40 // 8), budget=c.scale(100, 1000))
    c.pmap(accepted, c.scale(60, 1200))
    c.finish()
