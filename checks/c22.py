"""C22: every function of 'mat' on reals and ints of every magnitude, through
every form of import, against elementary functions computed with hundreds of
digits by this check itself."""
import _boot
import math
import os
import re
import struct
from fractions import Fraction as F
from rt.check import Check
from rt import prec
from rt.lang import real_text
from rt.run import parse_rterr

c = Check("C22", "calls of the functions of 'mat' with zero, tiny, huge, half-way, near-integer, near-pole and random arguments, reals and ints, as literals, variables, operands, nested calls and converted texts, in every form of import; each printed result is compared with the exact value; non-trivial: distinct (function, arguments) whose result is a finite number and was compared")
c.system()

I64 = (-(2**63), 2**63 - 1)


def any_real(r):
    k = r.randrange(9)
    if k == 0:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        return x if x - x == 0 else 1.0
    if k == 1:
        return r.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.49999999999999994, -0.49999999999999994, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 4503599627370495.5, 4503599627370497.5, -4503599627370495.5, 9007199254740991.0, 9007199254740993.0, 9.223372036854775e18, -9.223372036854775e18, math.pi, math.pi / 2, -math.pi / 4, math.e, 10.0, 2.0, 8.0, 180.0, 360.0, 90.0, 1e22, 0.1, 100.0, 1000.0, 1e-10])
    if k == 2:
        return r.randrange(-(10**6), 10**6) + r.choice([0.5, -0.5, 0.0, 0.25, 0.75])
    if k == 3:
        # next to a whole or half-way number
        x = r.randrange(-(10 ** r.randrange(1, 15)), 10 ** r.randrange(1, 15)) / 2
        return math.nextafter(x, r.choice([-math.inf, math.inf]))
    if k == 4:
        return r.uniform(-10, 10)
    if k == 5:
        return r.uniform(-1, 1) * 10.0 ** r.randrange(-300, 300)
    if k == 6:
        x = r.randrange(1, 100000) * math.pi / r.choice([1, 2, 4, 6, 180])
        return r.choice([-1, 1]) * x
    if k == 7:
        return float(r.randrange(-360, 720))
    return 1 + r.uniform(-1, 1) * 10.0 ** r.randrange(-16, 0)


def any_int(r):
    return r.choice([0, 1, -1, 2, 3, 10, -7, 90, 180, 2**53, 2**53 + 1, 2**63 - 1, -(2**63) + 1, -(2**62) - 1, r.randrange(-(2**63) + 1, 2**63), r.randrange(-1000, 1000), r.randrange(-1000, 1000)])


class Pole:
    """Not judged, or one of several answers"""

    def __init__(self, *ok):
        self.ok = ok


def whole(v, x):
    if v is None:
        return Pole(("int", 0), "error")
    if v < I64[0]:
        return Pole(("int", I64[0]), "error")
    if v > I64[1]:
        return Pole(("int", I64[1]), "error")
    return ("int", v)


def half_away(x):
    f = F(x)
    v = math.floor(abs(f) + F(1, 2))
    return v if f >= 0 else -v


def expected(name, a):
    """-> ("int", n) | ("real", exact fraction, tolerance) | ("exactly", float) | Pole"""
    x = a[0]
    if name == "abs":
        return ("exactly", math.fabs(x))
    if name == "raizqd":
        if x < 0:
            return ("exactly", math.nan)
        return ("exactly", math.sqrt(x)) if x else Pole(("exactly", 0.0), ("exactly", -0.0))
    if name == "arredonda":
        return whole(half_away(x), x)
    if name == "piso":
        return whole(math.floor(F(x)), x)
    if name == "teto":
        return whole(math.ceil(F(x)), x)
    if name in ("sen", "cos", "tan"):
        s, co = prec.sincos(F(x))
        return ("real", s if name == "sen" else co if name == "cos" else s / co, 1)
    if name == "grausprad":
        return ("real", F(x) * prec.PI / 180, 2)
    if name == "radpgraus":
        return ("real", F(x) * 180 / prec.PI, 2)
    if name == "log":
        b = a[1]
        if x < 0 or b < 0:
            return ("exactly", math.nan)
        if b == 0 or (b == 1 and x in (0.0, 1.0)):
            return None
        if x == 0:
            return ("exactly", -math.inf if b > 1 else math.inf)
        if b == 1:
            return Pole(("exactly", math.inf), ("exactly", -math.inf), ("exactly", math.nan))
        lx, lb = prec.ln(F(x)), prec.ln(F(b))
        return ("real", F(lx, lb), 4)
    if name == "expoente":
        y = a[1]
        if x == 0 or y == 0 or x == 1:
            try:
                return ("exactly", math.pow(x, y))
            except (ValueError, OverflowError):
                return ("exactly", -math.inf if math.copysign(1, x) < 0 and y.is_integer() and F(y) % 2 == 1 else math.inf)
        if x < 0 and not y.is_integer():
            return ("exactly", math.nan)
        w = prec.power(F(abs(x)), F(y))
        if x < 0 and F(y) % 2 == 1:
            return ("minus", w, 2)
        return ("real", w, 2)
    raise KeyError(name)


def agrees(text, want):
    if want is None:
        return True
    if isinstance(want, Pole):
        return any(agrees(text, w) for w in want.ok if w != "error")
    try:
        if want[0] == "int":
            return text == str(want[1])
        if not re.fullmatch(r"-?\d+\.\d+|-?inf|NaN", text):
            return False
        g = float(text)
    except ValueError:
        return False
    if want[0] == "exactly":
        w = want[1]
        return g != g if w != w else g == w and math.copysign(1, g) == math.copysign(1, w)
    if want[0] == "minus":
        g = -g
    return prec.near(g, want[1], want[2])


ONE = ["abs", "raizqd", "arredonda", "piso", "teto", "sen", "cos", "tan", "grausprad", "radpgraus"]
TWO = ["expoente", "log"]
ALL = ONE + TWO


def arguments(name, r):
    if name in ONE:
        return [any_int(r) if r.random() < 0.2 else any_real(r)]
    k = r.randrange(8)
    if name == "expoente":
        if k == 0:
            return [r.choice([2, 3, 10, -2, 0, 1, -1, 5]), r.choice([0, 1, 2, 3, 10, 62, 63, -1, -2, 100, 1023, 1024])]
        if k == 1:
            return [r.choice([2.0, 10.0, 0.5, math.e, 1.0000001, 0.0, -0.0, -8.0, 4.0, 27.0]), r.choice([0.5, -0.5, 1 / 3, 2.0, -2.0, 0.0, -0.0, 1.0, 3.0, 1000.0, -1000.0, 0.25, 1e10])]
        if k < 6:
            x = abs(any_real(r)) or 2.0
            if r.random() < 0.2:
                x = -x
            y = r.uniform(-20, 20) if r.random() < 0.6 else float(r.randrange(-30, 30))
            return [x, y]
    else:
        if k == 0:
            return [r.choice([1, 2, 4, 8, 1024, 100, 1000, 0, 10, 2**62]), r.choice([2, 10, 3, 4, 8, 100])]
        if k < 6:
            return [abs(any_real(r)) or 1.0, r.choice([2.0, 10.0, math.e, 0.5, 3.0, 1.5, abs(any_real(r)) or 2.0])]
    return [any_int(r) if r.random() < 0.2 else any_real(r) for _ in range(2)]


def spell(p, v):
    """-> an expression with the value"""
    r = p.r
    if isinstance(v, int):
        e = f"({v})" if v < 0 else str(v)
        k = r.randrange(4)
        if k == 0:
            n = p.name()
            p.add(f"{n}: int = {e}")
            return n
        if k == 1:
            return f"({e} + 0)"
        return e
    t = real_text(v) if r.random() < 0.5 else repr(v)
    simple = "e" not in t and "E" not in t and not t.startswith("-") and len(t) < 60
    e = t if simple and r.random() < 0.7 else f'("{t}" :> real)'
    if t.startswith("-") and "e" not in t and len(t) < 60 and r.random() < 0.5:
        e = f"(-{t[1:]})"
    k = r.randrange(7)
    if k == 0:
        n = p.name()
        p.add(f"{n}: real = {e}")
        return n
    if k == 1:
        n = p.name()
        p.add(f"{n}: [real] = [real: 1.0, {e}]")
        return f"{n}[1]"
    if k == 2:
        n = p.name()
        p.add(f"func {n}(): real\n  retorna {e}\nfim")
        return f"{n}()"
    if k == 3:
        n = p.name()
        p.add(f"{n}: real? = {e}")
        return f"{n}.valor"
    return e


class Prog:
    def __init__(self, r):
        self.r, self.src, self.n = r, [], 0

    def name(self):
        self.n += 1
        return f"v{self.n}_"

    def add(self, s):
        self.src.append(s)


LIB = 'usa "mat"\nfunc ponte(x: real): real\n  retorna raizqd(abs(x))\nfim\n'


def forms(r):
    """-> (head, files, name -> callable expression)"""
    k = r.randrange(8)
    if k == 0:
        return 'usa "mat"\n', {}, lambda n: n
    if k == 1:
        return 'usa "mat";\n', {}, lambda n: n
    if k == 2:
        return 'usa "mat" => mat\n', {}, lambda n: "mat." + n
    if k == 3:
        a = r.choice(["m", "matematica", "_x", "vec2"])
        return f'usa "mat" => {a}\n', {}, lambda n: f"{a}.{n}"
    if k == 4:
        names = ALL + ["PI"]
        r.shuffle(names)
        return f'usa "mat" => [{", ".join(names)}]\n', {}, lambda n: n
    if k == 5:
        half = set(r.sample(ALL, 6))
        return f'usa "mat" => m1\nusa "mat" => [{", ".join(sorted(half))}, PI]\n', {}, lambda n: n if n in half or n == "PI" else "m1." + n
    if k == 6:
        return 'usa "mat" => ma\nusa "mat" => mb\n', {}, lambda n: r.choice(["ma.", "mb."]) + n
    return 'usa "lib" => lib\nusa "mat" => mm\n', {"lib.ama": LIB}, lambda n: "mm." + n


def wraps(p, e, isint):
    """The same value by way of something else"""
    r = p.r
    t = "int" if isint else "real"
    k = r.randrange(8)
    if k == 0:
        n = p.name()
        p.add(f"{n}: {t} = {e}")
        return n
    if k == 1:
        n = p.name()
        p.add(f"func {n}(): {t}\n  retorna {e}\nfim")
        return f"{n}()"
    if k == 2:
        return f"[{t}: {e}][0]"
    if k == 3 and not isint:
        return f"({e} :> texto)"
    return e


def calls(i, out, run):
    r = c.rng("c", i)
    head, files, fn = forms(r)
    p = Prog(r)
    want = []
    for _ in range(40):
        name = r.choice(ALL)
        a = arguments(name, r)
        w = expected(name, [float(x) for x in a])
        if isinstance(w, Pole) and "error" in w.ok:
            # may also be refused: alone
            continue
        e = f"{fn(name)}({', '.join(spell(p, x) for x in a)})"
        p.add(f"mostra {wraps(p, e, name in ('arredonda', 'piso', 'teto'))}")
        want.append((name, a, w))
    if r.random() < 0.5:
        p.add(f"mostra {fn('PI')}")
        want.append(("PI", [], ("exactly", math.pi)))
    if "lib.ama" in files:
        p.add("mostra lib.ponte(-2.25)")
        want.append(("ponte", [-2.25], ("exactly", 1.5)))
    src = head + "\n".join(p.src) + "\n"
    q = run.run({**files, "main.ama": src})
    out.n["programs"] += 1
    got = q.out.decode("utf-8", "replace").split("\n")
    if not q.reached:
        out.n["evaluations"] += 1
        out.violation("rejected", "a program that uses the functions of 'mat' was not compiled\n" + q.brief(), {**files, "main.ama": src})
        return
    out.sample(src)
    for k, (name, a, w) in enumerate(want):
        out.n["evaluations"] += 1
        g = got[k] if k < len(got) - 1 else None
        out.n["calls of " + name] += 1
        if g is None or not agrees(g, w):
            if isinstance(w, tuple) and w[0] in ("real", "minus"):
                m = f"{float(w[1]) if isinstance(w[1], F) and abs(w[1]) < prec.MAX else w[1]!r} within {w[2]} units in the last place" + (" (negated)" if w[0] == "minus" else "")
            else:
                m = repr(w.ok if isinstance(w, Pole) else w)
            out.violation(name, f"{name}({', '.join(map(repr, a))}): expected {m}, got {g}\n" + q.brief()[-600:], {**files, "main.ama": src})
            return
        if w is None:
            out.n["without a defined value (not judged)"] += 1
        elif isinstance(w, tuple) and (w[0] != "exactly" or math.isfinite(w[1])):
            out.seen(f"{name} {a!r}")
    if q.kind != "ok":
        out.violation("outcome", "the program did not end well\n" + q.brief(), {**files, "main.ama": src})


def limits(i, out, run):
    """Whole numbers that no int can hold: the nearest int or a reported error"""
    r = c.rng("z", i)
    name = r.choice(["arredonda", "piso", "teto"])
    x = r.choice([9.223372036854775807e18, 1e19, -1e19, 1e300, -1.7976931348623157e308, -9.223372036854777e18, float(r.randrange(2**64, 2**80))])
    head, files, fn = forms(r)
    p = Prog(r)
    p.add(f"mostra {fn(name)}({spell(p, x)})")
    src = head + "\n".join(p.src) + "\n"
    q = run.run({**files, "main.ama": src})
    out.n["evaluations"] += 1
    out.n["beyond every int"] += 1
    w = expected(name, [x])
    e = parse_rterr(q.err) if q.kind == "rterr" else None
    if not (q.kind == "ok" and agrees(q.out.decode().strip(), w) or e and q.rc == 1):
        out.violation("limits", f"{name}({x!r})\n" + q.brief(), {**files, "main.ama": src})


def same(i, out, run):
    """The same calls through every form of import print the same"""
    r = c.rng("f", i)
    cs = [(n, arguments(n, r)) for n in ALL]
    seen = {}
    for k in range(8):
        class R:
            pass

        rr = c.rng("ff", i, k)
        rr.randrange = (lambda f: (lambda *a: k if a == (8,) and not R.__dict__.get("used") and not setattr(R, "used", True) else f(*a)))(rr.randrange)
        head, files, fn = forms(rr)
        src = head + "".join(f"mostra {fn(n)}({', '.join((f'({x})' if x < 0 else str(x)) if isinstance(x, int) else chr(40) + chr(39) + repr(x) + chr(39) + ' :> real)' for x in a)})\n" for n, a in cs) + f"mostra {fn('PI')}\n"
        q = run.run({**files, "main.ama": src})
        out.n["evaluations"] += 1
        out.n["import forms compared"] += 1
        seen.setdefault((q.kind, q.rc, q.out), (files, src, q))
    if len(seen) > 1:
        (f1, s1, q1), (f2, s2, q2) = list(seen.values())[:2]
        out.violation("import forms", "the results differ between import forms\n" + q1.brief() + q2.brief(), {**f1, **f2, "main.ama": s1, "other.ama": s2})
    elif next(iter(seen))[0] != "ok":
        out.n["not judged"] += 1


K = float(os.environ.get("AMV_SCALE", "1"))
c.pmap(calls, int((30000 if c.thorough else 1100) * K), label="c")
c.pmap(limits, int((2000 if c.thorough else 120) * K), label="z")
c.pmap(same, int((3000 if c.thorough else 80) * K), label="f")


def probe(e, run):
    r = run.run({"main.ama": e["program"]})
    return r.out.decode("utf-8", "replace") != e["expected"]


c.probe_known(probe)
c.assumptions = ["sine, cosine and tangent within 1 unit in the last place, conversion and power within 2, logarithm within 4; the other functions exactly", "whole numbers beyond the ints may be the nearest int or a reported runtime error"]
c.finish()
