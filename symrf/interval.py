"""Signs of univariate polynomials on intervals

Used on paths with lines of inputs (ctx.line) to find branches which are not
feasible without calling the solver.  Exact rational arithmetic, coefficients
of the Bernstein form bound the polynomial from both sides.
"""
from fractions import Fraction
from math import comb

TINY = Fraction(1, 2 ** 34)


def coefficients(p):
    """list of coefficients of polynomial with monomials ((atom, exp),)"""
    n = max([m[0][1] if m else 0 for m in p] or [0])
    c = [Fraction(0)] * (n + 1)
    for m, v in p.items():
        c[m[0][1] if m else 0] += v
    return c


def bernstein(c, lo, hi):
    """Bernstein coefficients on [lo, hi]"""
    n = len(c) - 1
    # Taylor shift to lo
    c = list(c)
    for i in range(n):
        for j in range(n - 1, i - 1, -1):
            c[j] += lo * c[j + 1]
    w = hi - lo
    f = Fraction(1)
    for k in range(n + 1):
        c[k] = c[k] * f / comb(n, k)
        f *= w
    return [sum(comb(i, k) * c[k] for k in range(i + 1))
            for i in range(n + 1)]


def split(b):
    """coefficients of both halves (de Casteljau)"""
    left, right = [b[0]], [b[-1]]
    while len(b) > 1:
        b = [(x + y) / 2 for x, y in zip(b, b[1:])]
        left.append(b[0])
        right.append(b[-1])
    return left, right[::-1]


def sign(b, depth=6):
    """'+', '-', '0+', '0-' or None (mixed or not decided)"""
    lo, hi = min(b), max(b)
    if lo > 0:
        return '+'
    if hi < 0:
        return '-'
    if lo == 0:
        return '0+'
    if hi == 0:
        return '0-'
    # values at the ends are values of the polynomial
    if b[0] * b[-1] < 0 or depth == 0 or len(b) == 2:
        return None
    left, right = split(b)
    s = sign(left, depth - 1)
    if s is None:
        return None
    t = sign(right, depth - 1)
    if s == t:
        return s
    if t is not None and s[-1] == t[-1]:
        return '0' + s[-1]
    return None


def decide(p, op, lo, hi):
    """truth of p op 0 on [lo, hi], None if mixed"""
    s = sign(bernstein(coefficients(p), lo, hi))
    if op == '<':
        return {'-': True, '+': False, '0+': False}.get(s)
    if op == '<=':
        return {'-': True, '0-': True, '+': False}.get(s)
    return {'-': False, '+': False}.get(s)


def _round(x, up):
    f = 2 ** 60
    y = x * f
    n = y.numerator // y.denominator
    if up and n != y:
        n += 1
    return Fraction(n, f)


def shrink(p, op, truth, lo, hi):
    """smaller interval containing all points where (p op 0) == truth

    None if there are no such points.
    """
    if op == '==':
        if not truth:
            return lo, hi
        c = coefficients(p)
        if len(c) == 2:
            x = -c[0] / c[1]
            return (x, x) if lo <= x <= hi else None
        return lo, hi
    c = coefficients(p)
    if not truth:    # p >= 0 or p > 0
        c = [-x for x in c]
        op = '<=' if op == '<' else '<'
    # c < 0 or c <= 0
    if len(c) == 2:
        x = -c[0] / c[1]
        if c[1] > 0:
            hi = min(hi, _round(x, True))
        else:
            lo = max(lo, _round(x, False))
        return (lo, hi) if lo <= hi else None

    def impossible(x, y):
        s = sign(bernstein(c, x, y), 3)
        return s == '+' or (op == '<' and s == '0+')
    if impossible(lo, hi):
        return None
    w = hi - lo
    for _ in range(2):
        step = w / 2
        for _ in range(24):
            if lo + step <= hi and impossible(lo, lo + step):
                lo = _round(lo + step, False)
            step /= 2
        step = w / 2
        for _ in range(24):
            if lo <= hi - step and impossible(hi - step, hi):
                hi = _round(hi - step, True)
            step /= 2
    return lo, hi
