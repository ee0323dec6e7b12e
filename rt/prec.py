"""Elementary functions with hundreds of correct digits, on exact fractions.
Nothing here uses the machine's own mathematics library."""
import math
from fractions import Fraction
from functools import lru_cache

P = 1400  # bits: enough to reduce the biggest real by multiples of pi
Q = 320
ONE, ONEQ = 1 << P, 1 << Q


def atan_inv(n, one):
    s = t = one // n
    k, n2, sg = 3, n * n, -1
    while t:
        t //= n2
        s += sg * (t // k)
        k, sg = k + 2, -sg
    return s


PI_P = 4 * (4 * atan_inv(5, ONE << 20) - atan_inv(239, ONE << 20)) >> 20
PI = Fraction(PI_P, ONE)


def atanh_q(n, d):
    """atanh(n/d) * 2^Q for |n/d| <= 1/3"""
    x = (n << Q) // d
    x2 = x * x >> Q
    s = t = x
    k = 3
    while t:
        t = t * x2 >> Q
        s += t // k
        k += 2
        if t == -1:
            break
    return s


LN2 = 2 * atanh_q(1, 3)


def ln(x):
    """natural logarithm of a positive fraction, times 2^Q"""
    e = x.numerator.bit_length() - x.denominator.bit_length()
    m = x / Fraction(2) ** e
    if m > Fraction(3, 2):
        m, e = m / 2, e + 1
    y = (m - 1) / (m + 1)
    return 2 * atanh_q(y.numerator, y.denominator) + e * LN2


def exp(z):
    """e^z for z given times 2^Q"""
    k = round(Fraction(z, LN2))
    r = z - k * LN2
    s = t = ONEQ
    n = 1
    while t and t != -1:
        t = (t * r >> Q) // n
        s += t
        n += 1
    return Fraction(s, ONEQ) * Fraction(2) ** k


def sincos(x):
    """(sin, cos) of a fraction"""
    if abs(x) < Fraction(1, 1 << 40):
        return x - x**3 / 6 + x**5 / 120, 1 - x * x / 2 + x**4 / 24
    v = (x.numerator << P) // x.denominator
    half = PI_P // 2
    k = (2 * v + half) // (2 * half)
    r = v - k * PI_P // 2 if k % 2 == 0 else v - (k * PI_P) // 2
    # what is left has at most pi/4; 600 bits of it suffice
    S = 700
    r >>= P - S
    one = 1 << S
    r2 = r * r >> S
    s = t = r
    n = 2
    while t and t != -1:
        t = -((t * r2 >> S) // (n * (n + 1)))
        s += t
        n += 2
    cc = t = one
    n = 1
    while t and t != -1:
        t = -((t * r2 >> S) // (n * (n + 1)))
        cc += t
        n += 2
    s, cc = Fraction(s, one), Fraction(cc, one)
    return [(s, cc), (cc, -s), (-s, -cc), (-cc, s)][k % 4]


def power(x, y):
    """x^y for a positive x, or None when no real is near it, with its side"""
    z = ln(x)
    z = (z * y.numerator) // y.denominator
    if z > 800 * ONEQ:
        return "big"
    if z < -800 * ONEQ:
        return "small"
    return exp(z)


def ulp_of(x):
    """distance between reals near an exact value"""
    if x == 0:
        return Fraction(5e-324)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if abs(x) < Fraction(2) ** e:
        e -= 1
    return Fraction(2) ** max(e - 52, -1074)


MAX = Fraction(1.7976931348623157e308)


def near(got, want, tol):
    """Whether a real is within tol units in the last place of an exact value"""
    if want in ("big", "small") or abs(want) >= MAX:
        if want == "small":
            return abs(got) <= 1e-323
        s = 1 if want == "big" or want > 0 else -1
        return got == s * math.inf or want != "big" and got == s * float(MAX) and abs(want) < MAX * (1 + Fraction(1, 1 << 50))
    if got - got != 0:
        return got == got and abs(want) > MAX - 4 * Fraction(2) ** 971 and (got > 0) == (want > 0)
    return abs(Fraction(got) - want) <= tol * ulp_of(want)
