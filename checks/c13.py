"""C13: a match is accepted exactly when it covers every value."""
import _boot
import re
from rt.check import Check
from rt import pats, lang
from rt.lang import *

c = Check("C13", "random union types (nested, recursive) and int/texto, random rows of patterns near the edge of covering every value, in every position of a program; acceptance, the reported line and the listed missing patterns are judged against the enumerated classes of values the rows tell apart; non-trivial: distinct rows of at least two patterns looking at some part of the value")
c.system(vm="shim")

RE_FIN = re.compile(r"^\nFicheiro \"main\.ama\", linha (\d+)\n    (.*)\nErro: A instrução iguala deve especificar alternativas para todos os valores possíveis do tipo '([^']*)'\. Padrões em falta: \n(.*)\.\n$", re.S)


def context(r, ty, node, mk_target, decls, uid):
    """statements that hold the match at some place of a program"""
    where = r.choice(["func", "func", "top", "met", "loop", "se", "arm", "operand"])
    p = Decl("v", ty)
    node.a = [N("var", ty, x=p)]
    stmts = [node]
    if where == "met" and isinstance(ty, Uni):
        f = Func("f", [], VOID, None, ty, Decl("alvo", ty))
        node.a = [N("alvo", ty, x=f.alvo)]
    else:
        f = Func("f", [p], VOID)
    if where == "top":
        g = Decl("g", ty, glob=True)
        node.a = [N("var", ty, x=g)]
        return decls + [N("decl", None, [mk_target()], g), node]
    if where == "loop":
        stmts = [N("para", None, [lit(0), lit(2)], (Decl("i", INT), stmts))]
    elif where == "se":
        stmts = [N("se", None, [], ([(N("bin", BOOL, [lit(1), lit(2)], "<"), [N("mostra", None, [lit(1)])])], stmts))]
    elif where == "arm":
        stmts = [N("iguala", None, [lit(3)], [(N("p_lit", INT, x=3), "block", stmts), (N("p_any", INT), "block", [])])]
    elif where == "operand":
        d = Decl("res", INT)
        node.x = [(q, "expr", lit(k)) for k, (q, _, _) in enumerate(node.x)]
        e = N("bin", INT, [lit(10), N("paren", INT, [node])], "+")
        node.ty = INT
        stmts = [N("decl", None, [e], d)]
    f.body = stmts
    pre = [N("mostra", None, [lit(7)])] if r.random() < 0.5 else []
    return decls + pre + [N("func", None, [], f)]


def lit(v):
    return N("lit", INT, x=v)


def looks(p):
    return p.k == "p_lit" or p.k == "p_var"


def job(i, out, run):
    r = c.rng("m", i)
    ts = pats.Types(r)
    ty = r.choice(ts.unis * 4 + [INT, TXT])
    rw = pats.Rows(r)
    rows = rw.rows(ty, cap=30)
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.randrange(len(rows))
        if len(rows) > 1 and r.random() < 0.5:
            rows.pop(k)
        else:
            rows[k] = rw.narrow(rows[k], ty, 3)
    try:
        cl = pats.classes(rows, ty, 4000)
    except pats.TooMany:
        out.n["discarded_too_many_values"] += 1
        return
    missing = [v for v, k in cl if k is None]
    uid = [0]

    def fresh():
        uid[0] += 1
        return f"n{uid[0]}"

    arms = []
    for k, p in enumerate(rows):
        q, _ = rw.name(p, fresh, 0.4)
        if r.random() < 0.5:
            arms.append((q, "block", [N("mostra", None, [lit(k)])]))
        else:
            arms.append((q, "expr", lit(k)))
    if len({a[1] for a in arms}) > 1:
        # every arm of a match has a value of the same kind
        arms = [(q, "block", b if kd == "block" else [N("mostra", None, [b])]) for q, kd, b in arms]
    node = N("iguala", None, [None], arms)
    prog = context(r, ty, node, lambda: pats.concrete(ty, cl[0][0], r), ts.decls(), uid)
    wild = r.random() < 0.3
    src = lang.render(prog, r.random(), wild=wild)
    res = run.run({"main.ama": src}, norun=True, cpu=20)
    out.n["evaluations"] += 1
    out.n["value_classes"] += len(cl)
    if len(rows) >= 2 and any(looks(p) for p in rows):
        out.seen(src)
    out.sample(src)

    def bad(sig, msg):
        out.violation(sig, msg + "\n" + show_rows(rows, missing) + res.brief(), {"main.ama": src})

    if res.crashed:
        return bad("crash", f"compiling a match crashed ({res.crashed})")
    if not missing:
        out.n["covering"] += 1
        if res.kind != "ok":
            return bad("rejected", "a match that covers every value was rejected")
        return
    out.n["not_covering"] += 1
    if res.kind != "diag":
        return bad("accepted", f"a match that leaves {len(missing)} classes of values uncovered was accepted")
    err = res.err.decode("utf-8", "replace")
    m = re.search(r'linha (\d+)', err)
    if not m or not (int(m.group(1)) == node.l0):
        return bad("line", f"the match begins on line {node.l0}")
    if not isinstance(ty, Uni):
        if "* _ =>" not in err:
            return bad("list", "the missing pattern _ is not listed")
        out.n["listed_patterns"] += 1
        return
    m = RE_FIN.match(err)
    if not m:
        return bad("form", "the diagnostic does not list the missing patterns")
    if m.group(3) != ty.name:
        return bad("type", f"the type of the match is {ty.name}")
    listed = []
    for ln in m.group(4).split("\n"):
        ln = ln.strip()
        if not (ln.startswith("* ") and ln.endswith(" => ...")):
            return bad("form", f"unreadable line of missing patterns: {ln!r}")
        p = pats.parse_pattern(ln[2:-7].strip(), ty)
        if p is None:
            return bad("form", f"what is listed is not a pattern of the type: {ln!r}")
        listed.append((ln, p))
    # a listed pattern may look where the rows do not: split by both
    try:
        both = pats.expand(ty, rows + [p for _, p in listed], 20000)
    except pats.TooMany:
        out.n["lists_too_big_to_judge"] += 1
        return
    un = [v for v in both if not any(pats.matches(p, v) for p in rows)]
    for ln, p in listed:
        if not any(pats.matches(p, v) for v in un):
            return bad("spurious", f"the listed pattern is already covered: {ln}")
    for v in un:
        if not any(pats.matches(p, v) for _, p in listed):
            return bad("incomplete", f"no listed pattern accounts for the uncovered value {show_value(v)}")
    out.n["listed_patterns"] += len(listed)
    out.n["uncovered_classes"] += len(un)


def show_value(v):
    if v is pats.WILD:
        return "_"
    if isinstance(v, tuple):
        return f"{v[0].name}::{v[1]}({', '.join(map(show_value, v[2]))})"
    return repr(v)


def show_rows(rows, missing):
    return "uncovered, for example: " + "; ".join(show_value(v) for v in missing[:5]) + "\n"


c.pmap(job, c.scale(6000, 200000))
c.assumptions = ["a pattern name or '_' matches any value, a literal an equal one, a variant pattern that variant with matching parts; types whose parts admit only names (bool, real, records, vectors, options) have a value"]
c.finish()
