"""Strings with symbolic characters

A symbolic character is represented by a character of the private use area,
so that the code under test can join, slice, split and format strings as
usual.  Which strings are equal or match is decided by the solver.
"""
import z3
from obspy import UTCDateTime

from symrf import engine as E
from symrf.engine import SymBool, SymReal, Unsupported

FIRST = 0xE000
CODE = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'


def _texts(ctx):
    if not hasattr(ctx, 'texts'):
        ctx.texts = []
    return ctx.texts


def _token(ctx, what):
    t = _texts(ctx)
    t.append(what)
    return chr(FIRST + len(t) - 1)


def char(ctx, name, alphabet=CODE):
    n = len(alphabet)
    if not ctx.sym:
        return alphabet[min(n - 1, int(ctx.real(name, 0, n)))]
    v = ctx.real(name, 0, n - 1)
    z = z3.Int('char_' + name)
    ctx.e.add(E.p_z3(v.p) == z3.ToReal(z))
    return _token(ctx, (z, alphabet))


def text(ctx, name, length, alphabet=CODE):
    return ''.join(char(ctx, name + str(i), alphabet) for i in range(length))


def _meaning(ctx, c):
    i = ord(c) - FIRST
    t = _texts(ctx)
    return t[i] if 0 <= i < len(t) else None


def _same(ctx, a, b):
    """condition for two characters to be equal"""
    if a == b:
        return True
    ta, tb = _meaning(ctx, a), _meaning(ctx, b)
    if ta is None and tb is None:
        return False
    if ta is None:
        ta, tb, a, b = tb, ta, b, a
    if isinstance(ta[0], SymReal) or (
            tb is not None and isinstance(tb[0], SymReal)):
        if tb is None or not (isinstance(ta[0], SymReal) and
                              isinstance(tb[0], SymReal)):
            raise Unsupported('number compared with character')
        if ta[1] != tb[1]:
            raise Unsupported('numbers with different formats')
        return E.p_z3((ta[0] - tb[0]).p) == 0 if isinstance(
            ta[0] - tb[0], SymReal) else ta[0] - tb[0] == 0
    if tb is None:
        i = ta[1].find(b)
        return ta[0] == i if i >= 0 else False
    if ta[1] == tb[1]:
        return ta[0] == tb[0]
    both = [z3.And(ta[0] == i, tb[0] == tb[1].index(c))
            for i, c in enumerate(ta[1]) if c in tb[1]]
    return z3.Or(both) if both else False


def _all(conds):
    conds = [c for c in conds if c is not True]
    if any(c is False for c in conds):
        return False
    return z3.And(conds) if conds else True


def _any(conds):
    conds = [c for c in conds if c is not False]
    if any(c is True for c in conds):
        return True
    return z3.Or(conds) if conds else False


def _bool(z):
    return z if isinstance(z, bool) else SymBool(z)


def same(ctx, a, b):
    """strings a and b are equal"""
    if not ctx.sym:
        return a == b
    if len(a) != len(b):
        return False
    return _bool(_all([_same(ctx, x, y) for x, y in zip(a, b)]))


def match(ctx, pattern, name):
    """file name matches pattern of glob (without character sets)"""
    if '[' in pattern:
        raise Unsupported('character sets in pattern')
    memo = {}

    def hidden(j):
        # wildcards do not match dots at the beginning of a name
        return name[j] == '.' and (j == 0 or name[j - 1] == '/')

    def m(i, j):
        if (i, j) not in memo:
            if i == len(pattern):
                r = j == len(name)
            elif pattern[i] == '*':
                r = m(i + 1, j)
                if j < len(name) and name[j] != '/' and not hidden(j):
                    r = _any([r, m(i, j + 1)])
            elif j == len(name):
                r = False
            elif pattern[i] == '?':
                mean = _meaning(ctx, name[j])
                if mean is not None and isinstance(mean[0], SymReal):
                    raise Unsupported('number in pattern')
                r = name[j] != '/' and not hidden(j) and m(i + 1, j + 1)
            else:
                mean = _meaning(ctx, name[j])
                if mean is not None and isinstance(mean[0], SymReal):
                    # a number is not cut into parts
                    r = False
                else:
                    r = _same(ctx, pattern[i], name[j])
                if r is not False:
                    r = _all([r, m(i + 1, j + 1)])
            memo[i, j] = r
        return memo[i, j]
    return _bool(m(0, 0))


class Number(SymReal):
    """number which can be used in names"""
    __slots__ = ('ctx',)

    def __format__(self, spec):
        # with other formats different numbers may have the same string
        if spec in ('', 's', 'r'):
            return _token(self.ctx, (self, ''))
        if spec.startswith('.') and spec.endswith('f'):
            k = int(spec[1:-1])
            z = z3.Int('round_%d' % len(_texts(self.ctx)))
            p = E.p_z3((self * 10 ** k).p)
            self.ctx.e.add(z3.And(2 * z3.ToReal(z) - 1 <= 2 * p,
                                  2 * p < 2 * z3.ToReal(z) + 1))
            return _token(self.ctx, (z, NumberAlphabet(spec)))
        raise Unsupported('format %s of number' % spec)

    def __str__(self):
        return self.__format__('')

    __repr__ = __str__


class NumberAlphabet(str):
    """representations of integers"""

    def find(self, c):
        raise Unsupported('number compared with character')


def number(ctx, name, lo, hi):
    v = ctx.real(name, lo, hi)
    if not ctx.sym:
        return v
    n = Number(v.p)
    n.ctx = ctx
    return n


class DateTime(object):
    """datetime with symbolic digits"""

    def __init__(self, ctx, fields, micro):
        self.ctx = ctx
        self.f = fields
        self.micro = micro

    def strftime(self, spec):
        out = ''
        it = iter(spec)
        for c in it:
            if c != '%':
                out += c
                continue
            c = next(it, '')
            if c in self.f:
                out += self.f[c]
            elif c == 'I':
                out += self.hour()
            elif c == 'f':
                out += self.micro
            elif c == 'y':
                out += self.f['Y'][2:]
            elif c == 'T':
                out += self.strftime('%H:%M:%S')
            elif c == 'F':
                out += self.strftime('%Y-%m-%d')
            elif c == '%':
                out += '%'
            else:
                raise Unsupported('directive %' + c)
        return out

    def hour(self):
        """hour from 1 to 12"""
        zs = [z3.Int('hour_%d_%d' % (i, len(_texts(self.ctx))))
              for i in range(2)]
        h = 0
        for c in self.f['H']:
            h = 10 * h + _meaning(self.ctx, c)[0]
        i = 10 * zs[0] + zs[1]
        self.ctx.e.add(z3.And(
            zs[0] >= 0, zs[0] <= 1, zs[1] >= 0, zs[1] <= 9, i >= 1, i <= 12,
            z3.Or([h == i + 12 * k for k in (-1, 0, 1)])))
        return ''.join(_token(self.ctx, (z, DIGITS)) for z in zs)

    def __format__(self, spec):
        return self.strftime(spec) if spec else self.isoformat(' ')

    def isoformat(self, sep='T', timespec='auto'):
        s = self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')
        return s if timespec == 'seconds' else s + '.' + self.micro

    def __str__(self):
        return self.isoformat(' ')


class Time(object):
    """time in place of UTCDateTime"""

    def __init__(self, ctx, fields, micro):
        self.datetime = DateTime(ctx, fields, micro)

    def strftime(self, spec):
        return self.datetime.strftime(spec)

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def isoformat(self, sep='T', timespec='auto'):
        return self.datetime.isoformat(sep, timespec)

    def __str__(self):
        return self.isoformat() + 'Z'

    def __deepcopy__(self, memo):
        return self

    # any time, used for headers of files only
    def __sub__(self, other):
        return 0.

    def __rsub__(self, other):
        return 0.

    def __add__(self, other):
        return self


RANGES = {'m': (1, 12), 'd': (1, 28), 'H': (0, 23), 'M': (0, 59),
          'S': (0, 59)}


def time(ctx, name):
    """any time between 1900 and 2099; object and its seconds as string"""
    if not ctx.sym:
        f = dict((k, int(ctx.real(name + k, lo, hi + 1)))
                 for k, (lo, hi) in RANGES.items())
        year = int(ctx.real(name + 'Y', 1900, 2100))
        micro = int(ctx.real(name + 'f', 0, 1000000))
        t = UTCDateTime(year, f['m'], min(f['d'], 28), min(f['H'], 23),
                        min(f['M'], 59), min(f['S'], 59), min(micro, 999999))
        return t, t.datetime.strftime('%Y-%m-%dT%H:%M:%S')
    f = {}
    for k, (lo, hi) in list(RANGES.items()) + [('Y', (1900, 2099)),
                                               ('f', (0, 999999))]:
        v = E.p_z3(ctx.real(name + k, lo, hi).p)
        n = {'Y': 4, 'f': 6}.get(k, 2)
        zs = [z3.Int('digit_%s%s%d' % (name, k, i)) for i in range(n)]
        s = 0
        for z in zs:
            ctx.e.add(z3.And(z >= 0, z <= 9))
            s = 10 * s + z
        ctx.e.add(v == z3.ToReal(s))
        f[k] = ''.join(_token(ctx, (z, DIGITS)) for z in zs)
    micro = f.pop('f')
    t = Time(ctx, f, micro)
    return t, t.strftime('%Y-%m-%dT%H:%M:%S')
