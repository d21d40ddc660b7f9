"""Dynamic symbolic execution core.

The real rf code is run with symbolic scalars (SymReal) in place of numbers.
A SymReal is a canonical (Laurent) polynomial with rational coefficients over
"atoms": input variables and defined terms (square roots, absolute values,
maxima, denominators, trigonometric terms).  Comparisons give SymBool objects;
asking one for its truth value forks the execution.  Paths are explored by
re-execution (depth first) and an SMT solver (z3) decides which branches are
feasible and, at the end of every path, whether an assertion can be violated.
"""
import math
import time
from fractions import Fraction

import numpy as np
import z3
from symrf import interval

ENGINE = None           # active engine or None (concrete execution)


class PathAbort(BaseException):
    """Current path is infeasible or has been cut."""


class Unsupported(BaseException):
    """Symbolic execution cannot continue faithfully on this path."""


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, bool,
                          np.bool_))


_FRAC = {}


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return Fraction(int(x))
    x = float(x)
    try:
        return _FRAC[x]
    except KeyError:
        # constants are rounded to 13 digits, so that results of equivalent
        # floating point expressions are recognized as equal
        f = Fraction('%.13g' % x if abs(x) < 1e6 else repr(x))
        if len(_FRAC) < 200000:
            _FRAC[x] = f
        return f


# ---------------------------------------------------------------------------
# atoms

class Atom(object):
    __slots__ = ('id', 'kind', 'args', 'name', 'z', 'zinv', 'lo', 'hi', 'sq',
                 'meta')

    def __init__(self, id, kind, args, name):
        self.id, self.kind, self.args, self.name = id, kind, args, name
        self.z = z3.Real(name)
        self.zinv = None
        self.lo = self.hi = None
        self.sq = None      # polynomial replacing the square of this atom
        self.meta = None


class AtomTable(object):
    def __init__(self):
        self.atoms = []
        self.index = {}

    def get(self, kind, key, name=None, args=None):
        k = (kind, key)
        try:
            return self.index[k], False
        except KeyError:
            i = len(self.atoms)
            a = Atom(i, kind, args if args is not None else key,
                     name or '%s_%d' % (kind, i))
            self.atoms.append(a)
            self.index[k] = a
            return a, True


TABLE = AtomTable()


def reset_table():
    global TABLE
    TABLE = AtomTable()


# ---------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction, monomial = tuple of (atom id, exp)

def p_const(c):
    c = to_frac(c)
    return {(): c} if c else {}


def p_atom(a, e=1):
    return {((a.id, e),): Fraction(1)}


def p_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(p, c):
    if not c:
        return {}
    if c == 1:
        return p
    return {m: v * c for m, v in p.items()}


def m_mul(m, n):
    """multiply monomials; returns (monomial, list of polys to multiply)"""
    if not m:
        d = None
        r = n
    elif not n:
        d = None
        r = m
    else:
        d = dict(m)
        for a, e in n:
            e2 = d.get(a, 0) + e
            if e2:
                d[a] = e2
            else:
                del d[a]
        r = tuple(sorted(d.items()))
    extra = None
    for a, e in r:
        if e >= 2 and TABLE.atoms[a].sq is not None:
            extra = []
            out = []
            for a, e in r:
                at = TABLE.atoms[a]
                if e >= 2 and at.sq is not None:
                    for _ in range(e // 2):
                        extra.append(at.sq)
                    if e % 2:
                        out.append((a, 1))
                else:
                    out.append((a, e))
            r = tuple(out)
            break
    return r, extra


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return p_scale(q, p[()])
    if len(q) == 1 and () in q:
        return p_scale(p, q[()])
    if len(p) * len(q) > 200000:
        raise Unsupported('polynomial too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mm, extra = m_mul(m, n)
            v = c * d
            if extra is None:
                o = r.get(mm)
                if o is None:
                    r[mm] = v
                else:
                    o = o + v
                    if o:
                        r[mm] = o
                    else:
                        del r[mm]
            else:
                t = {mm: v}
                for e in extra:
                    t = p_mul(t, e)
                r = p_add(r, t)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_near(p):
    """key which ignores rounding errors of the coefficients

    Roots of polynomials differing by rounding of floats only are identified.
    """
    return tuple(sorted((m, '%.11e' % c) for m, c in p.items()))


def p_isconst(p):
    return not p or (len(p) == 1 and () in p)


def p_constval(p):
    return p.get((), Fraction(0))


def p_linear(p):
    for m in p:
        if len(m) > 1 or (m and m[0][1] != 1):
            return False
    return True


def p_z3(p):
    e = ENGINE
    terms = []
    for m, c in p.items():
        cz = z3.RealVal(str(c)) if c.denominator != 1 else \
            z3.RealVal(c.numerator)
        if not m:
            terms.append(cz)
            continue
        t = None
        for a, x in m:
            at = TABLE.atoms[a]
            if at.id not in e.active:
                e.activate(at)
            if x > 0:
                b = at.z
            else:
                b = e.inverse(at)
            for _ in range(abs(x)):
                t = b if t is None else t * b
        terms.append(t if c == 1 else cz * t)
    if not terms:
        return z3.RealVal(0)
    if len(terms) == 1:
        return terms[0]
    return z3.Sum(terms)


# ---------------------------------------------------------------------------

class SymBool(object):
    # lit: (polynomial, comparison with zero, truth) of simple comparisons
    __slots__ = ('z', 'lit')
    __hash__ = None

    def __init__(self, z, lit=None):
        self.z = z
        self.lit = lit

    def __bool__(self):
        return ENGINE.branch(self.z, self.lit)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.z, o.z))
        return self if o else False
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.z, o.z))
        return True if o else self
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.z), None if self.lit is None else
                       self.lit[:2] + (not self.lit[2],))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.z == o.z)
        return self if o else ~self

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else \
            not (self == o)

    # arithmetic use of truth values
    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return '<symbool>'

    def __deepcopy__(self, memo):
        return self


def s_and(*args):
    zs = []
    for a in args:
        if isinstance(a, SymBool):
            zs.append(a.z)
        elif not a:
            return False
    if not zs:
        return True
    return SymBool(z3.And(zs))


def s_or(*args):
    zs = []
    for a in args:
        if isinstance(a, SymBool):
            zs.append(a.z)
        elif a:
            return True
    if not zs:
        return False
    return SymBool(z3.Or(zs))


def s_not(a):
    return ~a if isinstance(a, SymBool) else not a


def _positive_atom(at):
    """atom which cannot be negative"""
    return at.kind in ('sqrt', 'abs', 'exp') or \
        (at.lo is not None and at.lo >= 0) or \
        (at.kind == 'den' and _sum_of_squares(at.args))


def p_clear(p, limit=400):
    """polynomial with the sign of p, without denominators

    Denominators are not zero on the current path (division forks).
    """
    neg = {}
    for m in p:
        for a, e in m:
            if e < 0 and -e > neg.get(a, 0):
                neg[a] = -e
    if not neg:
        return p
    # worth it for polynomials of a single variable only
    names = set()
    for q in [p] + [TABLE.atoms[a].args for a in neg
                    if TABLE.atoms[a].kind == 'den']:
        for m in q:
            for a, e in m:
                if not (a in neg and TABLE.atoms[a].kind == 'den'):
                    names.add(a)
    if len(names) > 1 or any(TABLE.atoms[a].kind != 'var' for a in names):
        return p
    r = p
    dens = []
    for a, k in neg.items():
        at = TABLE.atoms[a]
        if not _positive_atom(at):
            k += k % 2
        if at.kind == 'den':
            dens.append((a, k, at.args))
        else:
            r = p_mul(r, {((a, k),): Fraction(1)})
    for a, k, q in dens:
        # r / den^i  ->  r * q^(k - i)
        parts = {}
        for m, c in r.items():
            d = dict(m)
            e = d.pop(a, 0)
            parts.setdefault(k + e, {})[tuple(sorted(d.items()))] = c
        r = {}
        for e, t in parts.items():
            for _ in range(e):
                if len(t) * len(q) > limit * 10:
                    return p
                t = p_mul(t, q)
            r = p_add(r, t)
        if len(r) > limit:
            return p
    return _shorten(r)


def p_round(p, tol):
    """p with coefficients rounded and bound for the error of p

    The error is small compared to tol.
    """
    r = {}
    err = Fraction(0)
    if tol <= 0:
        return p, err
    for m, c in p.items():
        b = Fraction(1)
        for a, e in m:
            at = TABLE.atoms[a]
            if e < 0 and at.lo is not None and at.lo > 0:
                b *= at.lo ** e
            elif e < 0 and at.hi is not None and at.hi < 0:
                b *= (-at.hi) ** e
            elif e < 0 or at.lo is None or at.hi is None:
                b = None
                break
            else:
                b *= max(abs(at.lo), abs(at.hi)) ** e
        if b is None or b == 0:
            r[m] = c
            continue
        f = 2 ** 24
        step = Fraction(tol) / (b * f)
        # power of two
        x = step.denominator.bit_length() - step.numerator.bit_length()
        q = Fraction(2) ** x
        n = round(c * q)
        if n and sum(abs(e) for a, e in m) > 1:
            # higher order terms are not changed except if negligible
            r[m] = c
            continue
        if n:
            r[m] = n / q
        err += abs(c - n / q) * b
    return r, err


def _univariate(p):
    """polynomial of degree > 1 of a single variable"""
    a = None
    deg = 0
    for m in p:
        if len(m) > 1 or (m and a not in (None, m[0][0])):
            return False
        if m:
            a, e = m[0]
            if e < 0:
                return False
            deg = max(deg, e)
    return deg > 1


def _shorten(p, bits=44):
    """coefficients of p rounded to 44 bits (common factor removed)

    Results of two calculations of the same value which differ by rounding
    errors only get the same polynomial.
    """
    if not p:
        return p
    big = max(abs(c) for c in p.values())
    f = 2 ** bits / big
    r = {}
    for m, c in p.items():
        n = round(c * f)
        if n:
            r[m] = Fraction(n, 2 ** bits)
    return r


def _pure_abs(p):
    """atom |q| which occurs in one term c |q| of p only"""
    found = []
    for m in p:
        if len(m) == 1 and m[0][1] == 1 and \
                TABLE.atoms[m[0][0]].kind == 'abs':
            found.append(m[0][0])
    if not 0 < len(found) <= 2:
        return None
    for a in found:
        if sum(any(x == a for x, e in m) for m in p) == 1:
            return a


def _cmp(p, op):
    """truth of  p op 0"""
    if p_isconst(p):
        c = p_constval(p)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
    a = _pure_abs(p) if len(p) > 1 else None
    if a is not None:
        c = p[((a, 1),)]
        q = p_scale(TABLE.atoms[a].args, c)
        r = {m: v for m, v in p.items() if m != ((a, 1),)}
        x, y = p_add(r, q), p_add(r, p_scale(q, Fraction(-1)))
        if op == '==':
            return s_and(_cmp(r if c > 0 else p_scale(r, Fraction(-1)), '<='),
                         s_or(_cmp(x, '=='), _cmp(y, '==')))
        return (s_and if c > 0 else s_or)(_cmp(x, op), _cmp(y, op))
    p = p_clear(p)
    if len(p) > 1 and _univariate(p):
        p = _shorten(p)
    if p_isconst(p):
        c = p_constval(p)
        return {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
    if len(p) == 1:
        # single monomial: drop positive coefficient
        (m, c), = p.items()
        p = {m: Fraction(1 if c > 0 else -1)}
    if ENGINE is not None and ENGINE.poly < 2 and \
            any(sum(e for a, e in m) > 1 for m in p):
        ENGINE.poly = 1 if ENGINE.poly < 2 and _univariate(p) else 2
    lit = None
    if ENGINE is not None and ENGINE.boxes and not ENGINE.stating:
        a = _line(p)
        if a is not None:
            r = interval.decide(p, op, *ENGINE.boxes[a])
            if r is not None:
                return r
            lit = (p, op, True)
    z = p_z3(p)
    return SymBool(z < 0 if op == '<' else z <= 0 if op == '<=' else z == 0,
                   lit)


def _line(p):
    """single variable of p if it is the parameter of a line"""
    a = None
    for m in p:
        if len(m) > 1 or (m and a not in (None, m[0][0])):
            return None
        if m:
            a, e = m[0]
            if e < 0:
                return None
    return a if a in ENGINE.boxes else None


class NumStr(str):
    """string representation of a symbolic number: agrees with that of
    another number if and only if the numbers agree"""

    def __new__(cls, x):
        o = str.__new__(cls, '<sym>')
        o.x = x
        return o

    def _o(self, other):
        if isinstance(other, NumStr):
            return other.x
        try:
            return float(other)
        except Exception:
            return None

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if not isinstance(other, str):
            return False
        o = self._o(other)
        return o is not None and bool(self.x == o)

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return bool(self.x < self._o(other))

    def __gt__(self, other):
        return bool(self.x > self._o(other))


class SymReal(object):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    # -- helpers
    @staticmethod
    def wrap(p):
        if p_isconst(p):
            c = p_constval(p)
            return float(c)
        return SymReal(p)

    def __hash__(self):
        return 0

    def _other(self, o):
        if isinstance(o, SymReal):
            return o.p
        if is_num(o):
            if isinstance(o, (float, np.floating)) and not math.isfinite(o):
                return None
            return p_const(o)
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0.) + o
        q = self._other(o)
        if q is NotImplemented:
            return q
        if q is None:
            return float(o)
        return SymReal.wrap(p_add(self.p, q))
    __radd__ = __add__

    def __neg__(self):
        return SymReal(p_scale(self.p, Fraction(-1)))

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0.) - o
        q = self._other(o)
        if q is NotImplemented:
            return q
        if q is None:
            return -float(o)
        return SymReal.wrap(p_add(self.p, p_scale(q, Fraction(-1))))

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0.) * o
        q = self._other(o)
        if q is NotImplemented:
            return q
        if q is None:
            if math.isnan(o):
                return math.nan
            if self == 0:
                return math.nan
            return float(o) if self > 0 else -float(o)
        return SymReal.wrap(p_mul(self.p, q))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(self, 0.) / o
        if isinstance(o, SymReal):
            return _div(self, o)
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return math.nan
            if isinstance(o, (float, np.floating)) and math.isinf(o):
                return 0.
            if o == 0:
                return math.nan if self == 0 else \
                    (math.inf if self > 0 else -math.inf)
            return SymReal.wrap(p_scale(self.p, 1 / to_frac(o)))
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(o.real, o.imag) / self
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isnan(o):
                return math.nan
            return _div(o, self)
        return NotImplemented

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        return (o / self).__floor__()

    def __mod__(self, o):
        return self - (self / o).__floor__() * o

    def __divmod__(self, o):
        q = (self / o).__floor__()
        return q, self - q * o

    def __rmod__(self, o):
        return o - (o / self).__floor__() * self

    def __pow__(self, o):
        if isinstance(o, SymReal):
            raise Unsupported('symbolic exponent')
        if is_num(o):
            if float(o) == int(o):
                n = int(o)
                if n >= 0:
                    r = 1.
                    for _ in range(n):
                        r = r * self
                    return r
                return 1. / (self ** (-n))
            if float(o) == 0.5:
                return self.sqrt()
            if float(o) == -0.5:
                return 1. / self.sqrt()
            if float(o) * 2 == int(o * 2):
                return self.sqrt() ** int(o * 2)
        raise Unsupported('power %r' % (o,))

    def __rpow__(self, o):
        raise Unsupported('symbolic exponent')

    # -- comparisons
    def _diff(self, o):
        q = self._other(o)
        if q is NotImplemented or q is None:
            return q
        return p_add(self.p, p_scale(q, Fraction(-1)))

    def __lt__(self, o):
        d = self._diff(o)
        if d is NotImplemented:
            return d
        if d is None:
            return bool(o == math.inf)
        return _cmp(d, '<')

    def __le__(self, o):
        d = self._diff(o)
        if d is NotImplemented:
            return d
        if d is None:
            return bool(o == math.inf)
        return _cmp(d, '<=')

    def __gt__(self, o):
        d = self._diff(o)
        if d is NotImplemented:
            return d
        if d is None:
            return bool(o == -math.inf)
        return _cmp(p_scale(d, Fraction(-1)), '<')

    def __ge__(self, o):
        d = self._diff(o)
        if d is NotImplemented:
            return d
        if d is None:
            return bool(o == -math.inf)
        return _cmp(p_scale(d, Fraction(-1)), '<=')

    def __eq__(self, o):
        if isinstance(o, SymComplex):
            return NotImplemented
        d = self._diff(o)
        if d is NotImplemented:
            return d
        if d is None:
            return False
        return _cmp(d, '==')

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        raise Unsupported('float() of symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of symbolic value')

    def __int__(self):      # truncation towards zero
        if self >= 0:
            return self.__floor__()
        return -((-self).__floor__())
    __trunc__ = __int__

    def __index__(self):
        raise TypeError('symbolic real used as index')

    def __floor__(self):
        return ENGINE.floor(self)

    def __ceil__(self):
        return -((-self).__floor__())

    def __round__(self, ndigits=None):
        if ndigits is None or ndigits == 0:
            n = (self + 0.5).__floor__()     # ties: half to even
            if n % 2 and self + 0.5 == n:
                n = n - 1
            return n if ndigits is None else float(n)
        if ndigits >= 6:
            # removal of rounding errors
            return self
        f = 10 ** ndigits
        if ndigits < 0:
            return float(Fraction((self * f + 0.5).__floor__(), f))
        return s_floor(self * f + 0.5) / float(f)

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return '<sym>'

    def __str__(self):
        return NumStr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic value')

    # -- numpy object array hooks
    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def item(self):
        return self

    def is_integer(self):
        return bool(self == self.__floor__())

    def __abs__(self):
        return s_abs(self)

    def fabs(self):
        return s_abs(self)

    def sqrt(self):
        return s_sqrt(self)

    def square(self):
        return self * self

    def floor(self):
        return float(self.__floor__())

    def ceil(self):
        return float(self.__ceil__())

    def trunc(self):
        return float(self.__int__())

    def rint(self):
        return float(self.__round__())

    def radians(self):
        return self * (math.pi / 180)
    deg2rad = radians

    def degrees(self):
        return self * (180 / math.pi)
    rad2deg = degrees

    def cos(self):
        return s_cis(self).real

    def sin(self):
        return s_cis(self).imag

    def exp(self):
        return s_exp(self)

    def sign(self):
        if self > 0:
            return 1.
        return -1. if self < 0 else 0.


def poly_of(x):
    return x.p if isinstance(x, SymReal) else p_const(x)


def _lead(p):
    m = min(p)
    return p[m]


def _div(a, b):
    """a / b, b SymReal"""
    p = b.p
    if b == 0:                      # forks
        ENGINE.note('division by zero path')
        if is_num(a):
            return math.nan if a == 0 else math.inf
        return math.nan
    if len(p) == 1:
        (m, c), = p.items()
        q = {tuple((x, -e) for x, e in m): 1 / c}
        return SymReal.wrap(p_mul(poly_of(a), q))
    c = _lead(p)
    pn = p_scale(p, 1 / c)
    pa = poly_of(a)
    if not pa:
        return 0.
    # exact multiple?
    if len(pa) == len(p):
        r = None
        for m, v in pa.items():
            w = p.get(m)
            if w is None or (r is not None and v / w != r):
                break
            r = v / w
        else:
            return float(r)
    at, new = TABLE.get('den', p_key(pn))
    if new:
        at.args = pn
    return SymReal.wrap(p_mul(pa, {((at.id, -1),): 1 / c}))


def s_abs(x):
    if isinstance(x, SymComplex):
        return abs(x)
    if not isinstance(x, SymReal):
        return abs(x)
    p = x.p
    if _lead(p) < 0:
        p = p_scale(p, Fraction(-1))
    if len(p) == 1:
        (m, c), = p.items()
        if all(TABLE.atoms[a].kind in ('sqrt', 'abs') or e % 2 == 0 or
               (TABLE.atoms[a].lo is not None and TABLE.atoms[a].lo >= 0)
               for a, e in m):
            return SymReal(p)
        if c != 1:
            return s_abs(SymReal({m: Fraction(1)})) * c
    if ENGINE is not None and ENGINE.boxes:
        c = p_clear(p)
        if _line(c) is not None:
            return -x if x < 0 else x
    at, new = TABLE.get('abs', p_key(p))
    if new:
        at.args = p
        at.sq = p_mul(p, p)
    return SymReal(p_atom(at))


def s_sqrt(x):
    if not isinstance(x, SymReal):
        return math.sqrt(x) if x >= 0 else math.nan
    p = x.p
    if len(p) == 1:
        (m, c), = p.items()
        if all(e % 2 == 0 for a, e in m) and c > 0:
            r = s_abs(SymReal({tuple((a, e // 2) for a, e in m):
                               Fraction(1)}))
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return r * Fraction(n, d)
            return r * math.sqrt(c)
    if not (len(p) > 1 and _sum_of_squares(p)) and x < 0:
        return math.nan
    at, new = TABLE.get('sqrt', p_near(p))
    if new:
        at.args = p
        at.sq = p
    return SymReal(p_atom(at))


def _sum_of_squares(p):
    return all(c > 0 and all(e % 2 == 0 for a, e in m) for m, c in p.items())


def s_floor(x):
    """largest integer below x as a symbolic value"""
    at, new = TABLE.get('floor', p_near(x.p))
    if new:
        at.args = x.p
    return SymReal(p_atom(at))


def s_exp(x):
    if not isinstance(x, SymReal):
        return math.exp(x)
    at, new = TABLE.get('exp', p_near(x.p))
    if new:
        at.args = x.p
        at.lo = Fraction(0)
    return SymReal(p_atom(at))


def _as_deg(c):
    """coefficient in rad -> rational number of degrees or None"""
    d = float(c) * 180 / math.pi
    r = Fraction(d).limit_denominator(3600)
    if abs(float(r) - d) < 1e-9 * max(1, abs(d)):
        return r
    return None


def _cis_const(deg):
    deg = deg % 360
    exact = {0: (1., 0.), 90: (0., 1.), 180: (-1., 0.), 270: (0., -1.)}
    if deg in exact:
        return SymComplex(*exact[deg])
    a = math.radians(float(deg))
    return SymComplex(math.cos(a), math.sin(a))


def s_cis(x):
    """exp(i x) for a symbolic angle x (rad)"""
    p = x.p
    r = SymComplex(1., 0.)
    for m, c in p.items():
        d = _as_deg(c)
        if m == ():
            if d is not None:
                f = _cis_const(d)
            else:
                f = SymComplex(math.cos(c), math.sin(c))
            r = r * f
            continue
        if len(m) != 1 or m[0][1] != 1 or d is None or d.denominator != 1:
            break
        at = TABLE.atoms[m[0][0]]
        ca, new = TABLE.get('cos', at.id, args=at.id)
        sa, new2 = TABLE.get('sin', at.id, args=at.id)
        if new:
            # 1 - cos^2
            sa.sq = {(): Fraction(1), ((ca.id, 2),): Fraction(-1)}
            ca.meta = sa
            sa.meta = ca
            ca.lo = sa.lo = Fraction(-1)
            ca.hi = sa.hi = Fraction(1)
        n = int(d)
        base = SymComplex(SymReal(p_atom(ca)),
                          SymReal(p_atom(sa)) * (1 if n >= 0 else -1))
        for _ in range(abs(n)):
            r = r * base
    else:
        return r
    raise Unsupported('trigonometric function of general angle')


def s_max(vals):
    """maximum of a list of real values without forking"""
    sym = [v for v in vals if isinstance(v, SymReal)]
    con = [v for v in vals if not isinstance(v, SymReal)]
    if any(isinstance(v, float) and math.isnan(v) for v in con):
        return math.nan
    if not sym:
        return max(con)
    keys = {}
    for v in sym:
        keys[p_key(v.p)] = v
    sym = list(keys.values())
    con = [to_frac(max(con))] if con else []
    if con and con[0] <= 0 and any(_nonneg(v.p) for v in sym):
        con = []
    if len(sym) == 1 and not con:
        return sym[0]
    if ENGINE is not None and ENGINE.fork_max:
        best = sym[0]
        for v in sym[1:] + [float(c) for c in con]:
            if best < v:
                best = v
        return best
    key = (tuple(sorted(keys)), tuple(con))
    at, new = TABLE.get('max', key)
    if new:
        at.args = [v.p for v in sym] + [p_const(c) for c in con]
        if all(_nonneg(q) for q in at.args):
            at.lo = Fraction(0)
    return SymReal(p_atom(at))


def _nonneg(p):
    return all(c >= 0 and all(e % 2 == 0 or TABLE.atoms[a].kind in
                              ('sqrt', 'abs') or
                              (TABLE.atoms[a].lo is not None and
                               TABLE.atoms[a].lo >= 0) for a, e in m)
               for m, c in p.items())


def s_min(vals):
    return -s_max([-v for v in vals])


class SymComplex(object):
    __slots__ = ('real', 'imag')
    __hash__ = None

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, SymReal):
            return SymComplex(x, 0.)
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(float(x.real), float(x.imag))
        if is_num(x):
            return SymComplex(float(x), 0.)
        return None

    def __add__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.real * o.real - self.imag * o.imag,
                          self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        if not isinstance(o.imag, SymReal) and o.imag == 0:
            return SymComplex(self.real / o.real, self.imag / o.real)
        d = o.real * o.real + o.imag * o.imag
        n = self * o.conjugate()
        return SymComplex(n.real / d, n.imag / d)

    def __rtruediv__(self, o):
        return SymComplex.of(o) / self

    def __pow__(self, n):
        if float(n) == int(n) and n >= 0:
            r = SymComplex(1., 0.)
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('complex power')

    def conjugate(self):
        return SymComplex(self.real, -self.imag)
    conj = conjugate

    def __abs__(self):
        if not isinstance(self.imag, SymReal) and self.imag == 0:
            return s_abs(self.real)
        if not isinstance(self.real, SymReal) and self.real == 0:
            return s_abs(self.imag)
        return s_sqrt(self.real * self.real + self.imag * self.imag)

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def exp(self):
        r = self.imag
        r = s_cis(r) if isinstance(r, SymReal) else \
            SymComplex(math.cos(r), math.sin(r))
        if isinstance(self.real, SymReal) or self.real != 0:
            r = r * s_exp(self.real)
        return r

    def __eq__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        return s_and(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        return s_not(self == o)

    def _lex(self, o, strict):
        o = SymComplex.of(o)
        if self.real == o.real:
            return self.imag < o.imag if strict else self.imag <= o.imag
        return self.real < o.real

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return not self._lex(o, False)

    def __ge__(self, o):
        return not self._lex(o, True)

    def __complex__(self):
        raise Unsupported('complex() of symbolic value')

    def __float__(self):
        raise Unsupported('float() of symbolic value')

    def __repr__(self):
        return '<symcomplex>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex, SymBool))


# ---------------------------------------------------------------------------
# engine

class Stats(object):
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.cut = 0


class Model(object):
    """model of the solver; evaluation never computes with algebraic numbers

    Irrational values are approximated.  This does not affect the answers
    of the solver, the values only select the branch which is taken first.
    """

    def __init__(self, model):
        self.model = model
        self.subst = None
        vals = {}
        for d in model.decls():
            if d.arity() == 0:
                v = model[d]
                if z3.is_algebraic_value(v):
                    self.subst = []
                    v = z3.RealVal(str(v.approx(30).as_fraction()))
                vals[d.name()] = (d(), v)
        self.vals = vals
        if self.subst is not None:
            self.subst = list(vals.values())

    def value(self, z):
        """value of a constant"""
        return self.eval(z)

    def eval(self, z, model_completion=True):
        if self.subst is None:
            return self.model.eval(z, model_completion=True)
        if z3.is_const(z) and z.decl().name() in self.vals:
            return self.vals[z.decl().name()][1]
        r = z3.simplify(z3.substitute(z, *self.subst))
        if z3.is_rational_value(r) or z3.is_true(r) or z3.is_false(r):
            return r
        # constants without value
        free = {}
        todo = [r]
        while todo:
            e = todo.pop()
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                free[e.decl().name()] = e
            todo.extend(e.children())
        zero = [(e, z3.RealVal(0) if z3.is_real(e) else z3.IntVal(0)
                 if z3.is_int(e) else z3.BoolVal(False))
                for e in free.values()]
        return z3.simplify(z3.substitute(r, *zero))


class Engine(object):
    """Explores all paths of a function fn(engine) up to the limits."""

    def __init__(self, max_paths=2000, timeout_ms=5000, deadline=None):
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.stats = Stats()
        self.notes = {}
        self.truncated = False

    # -- path life cycle
    def start_path(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.vars = {}
        self.pc = []
        self.branch_pc = []
        self.active = set()
        self.inv_active = set()
        self.model = None
        self.nonlinear = False
        self.fork_max = False
        self.poly = 0
        self.boxes = {}
        self.stating = False
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def add(self, z, keep_model=False, branch=False):
        self.pc.append(z)
        if branch:
            self.branch_pc.append(z)
        self.solver.add(z)
        if not keep_model:
            self.model = None

    def check(self, *assump):
        if self.deadline is not None and time.time() > self.deadline:
            self.truncated = True
            raise PathAbort('deadline')
        t = time.time()
        self.found = self.solver
        if self.poly:
            # short try with the incremental solver, then nlsat
            r = 'unknown'
            if self.poly > 1 or not self.boxes:
                self.solver.set('timeout', min(300, self.timeout_ms))
                r = str(self.solver.check(*assump))
            if r == 'unknown':
                s = z3.Tactic('qfnra-nlsat').solver()
                s.set('timeout', self.timeout_ms)
                for z in self.pc:
                    s.add(z)
                for z in assump:
                    s.add(z)
                try:
                    r = str(s.check())
                except z3.Z3Exception:
                    r = 'unknown'
                self.found = s
            if r == 'unknown':
                self.solver.set('timeout', self.timeout_ms)
                r = str(self.solver.check(*assump))
                self.found = self.solver
        else:
            r = str(self.solver.check(*assump))
        self.stats.queries += 1
        dt = time.time() - t
        self.stats.solver_s += dt
        if r == 'unknown':
            self.stats.unknown += 1
        return r

    # -- atoms
    def inverse(self, at):
        if at.zinv is None:
            at.zinv = z3.Real('inv_' + at.name)
        if at.id not in self.inv_active:
            self.inv_active.add(at.id)
            self.nonlinear = True
            self.add(at.z * at.zinv == 1)
        return at.zinv

    def activate(self, at):
        if at.id in self.active:
            return
        self.active.add(at.id)
        k = at.kind
        if k == 'var':
            if at.lo is not None:
                self.add(at.z >= z3.RealVal(str(at.lo)))
            if at.hi is not None:
                self.add(at.z <= z3.RealVal(str(at.hi)))
        elif k == 'abs':
            q = p_z3(at.args)
            self.add(z3.And(at.z >= 0, z3.Or(at.z == q, at.z == -q)))
        elif k == 'sqrt':
            q = p_z3(at.args)
            self.nonlinear = True
            self.add(z3.And(at.z >= 0, at.z * at.z == q))
        elif k == 'den':
            self.add(at.z == p_z3(at.args))
        elif k == 'max':
            qs = [p_z3(a) for a in at.args]
            self.add(z3.And([at.z >= q for q in qs] +
                            [z3.Or([at.z == q for q in qs])]))
        elif k == 'exp':
            self.add(at.z > 0)
        elif k == 'floor':
            n, q = z3.Int('int_' + at.name), p_z3(at.args)
            self.add(z3.And(at.z == z3.ToReal(n), at.z <= q, q < at.z + 1))
        elif k in ('cos', 'sin'):
            if k == 'sin':
                self.activate(at.meta)
                return
            sa = at.meta
            self.active.add(sa.id)
            self.nonlinear = True
            self.add(z3.And(at.z * at.z + sa.z * sa.z == 1, at.z >= -1,
                            at.z <= 1, sa.z >= -1, sa.z <= 1))

    def var(self, name, lo=None, hi=None, kind='var'):
        at, new = TABLE.get('var', (name, lo, hi), name=name)
        if self.vars.get(name, at) is not at:
            raise ValueError('input %s has different ranges' % name)
        if new:
            at.lo = None if lo is None else to_frac(lo)
            at.hi = None if hi is None else to_frac(hi)
        self.vars[name] = at
        self.activate(at)
        return SymReal(p_atom(at))

    def fresh(self, hint):
        n = self.fresh_count = getattr(self, 'fresh_count', 0) + 1
        return self.var('fresh_%s_%d' % (hint, n))

    # -- decisions
    def _ensure_model(self):
        if self.model is None:
            r = self.check()
            if r == 'unsat':
                raise PathAbort('infeasible')
            if r == 'sat':
                self.model = Model(self.found.model())
        return self.model

    def box_conditions(self):
        out = []
        for a, (lo, hi) in self.boxes.items():
            z = TABLE.atoms[a].z
            out += [z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))]
        return out

    def learn(self, lit, truth):
        """make interval of a line smaller"""
        if lit is None:
            return
        p, op, t = lit
        a = _line(p)
        r = interval.shrink(p, op, truth == t, *self.boxes[a])
        if r is None:
            raise PathAbort('infeasible')
        self.boxes[a] = r
        if r[1] - r[0] < interval.TINY and self.check() == 'unsat':
            raise PathAbort('infeasible')

    def branch(self, z, lit=None):
        i = len(self.trail)
        self.stats.branches += 1
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            self.add(z if d else z3.Not(z), branch=True)
            self.learn(lit, d)
            return d
        if lit is not None:
            # both sides may be feasible
            self.stats.forks += 1
            self.pending.append(self.trail + [False])
            self.trail.append(True)
            self.add(z, branch=True)
            self.learn(lit, True)
            return True
        m = self._ensure_model()
        side = None
        if m is not None:
            v = None
            if m.subst is None or not z3.is_eq(z):
                v = m.eval(z)
            if v is None:
                pass
            elif z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        if side is None:
            r = self.check(z)
            side = r != 'unsat'
            other_unknown = r == 'unknown'
            if r == 'sat':
                self.model = Model(self.found.model())
        oz = z3.Not(z) if side else z
        r = self.check(oz)
        if r != 'unsat':
            self.stats.forks += 1
            self.pending.append(self.trail + [not side])
        self.trail.append(side)
        m = self.model
        self.add(z if side else z3.Not(z), keep_model=True, branch=True)
        return side

    def floor(self, x):
        """complete case split of floor(x); returns int"""
        z = p_z3(x.p)
        i = len(self.trail)
        self.stats.branches += 1
        excl = ()
        chosen = None
        if i < len(self.prefix):
            _, excl, chosen = self.prefix[i]
        for v in excl:
            self.add(z3.Or(z < v, z >= v + 1))
        if chosen is None:
            m = self._ensure_model()
            if m is None:
                raise Unsupported('no model for floor')
            v = m.eval(z, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            chosen = int(math.floor(v.as_fraction()))
            keep = self.model
            r = self.check(z3.Or(z < chosen, z >= chosen + 1))
            if r != 'unsat':
                self.stats.forks += 1
                self.pending.append(self.trail +
                                    [('F', excl + (chosen,), None)])
            self.trail.append(('F', excl, chosen))
            self.add(z3.And(z >= chosen, z < chosen + 1), keep_model=True,
                     branch=True)
        else:
            self.trail.append(('F', excl, chosen))
            self.add(z3.And(z >= chosen, z < chosen + 1), branch=True)
        return chosen

    def assume(self, c):
        if isinstance(c, SymBool):
            self.add(c.z, branch=True)
            if c.lit is not None:
                self.learn(c.lit, True)
                return
            r = self.check()
            if r == 'unsat':
                raise PathAbort('assumption')
            self.model = Model(self.found.model()) if r == 'sat' else None
        elif not c:
            raise PathAbort('assumption')

    def explore(self, fn):
        """run fn on all paths; yields after each path"""
        global ENGINE
        self.pending = [[]]
        while self.pending:
            if self.stats.paths >= self.max_paths or (
                    self.deadline is not None and
                    time.time() > self.deadline):
                self.truncated = True
                break
            prefix = self.pending.pop()
            self.start_path(prefix)
            self.fresh_count = 0
            ENGINE = self
            try:
                fn(self)
            finally:
                ENGINE = None
            yield self
