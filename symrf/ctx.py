"""Interface between property harnesses and the two ways of running them.

A harness is a function ``fn(ctx)`` which obtains its inputs from ctx, runs
the real rf code and states what must hold.  With SymCtx the inputs are
symbolic and the statements are decided by the solver for all values on the
current path; with ConCtx the inputs are ordinary numbers (a counterexample
or the model of a path) and nothing of numpy, scipy or obspy is patched.
"""
import hashlib
import json
import math
import os
from fractions import Fraction

import numpy as np
import z3
from obspy import UTCDateTime

from symrf import engine as E
from symrf.engine import SymReal, SymComplex, SymBool, to_frac

KNOWN = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'known_findings.json')
_known = {}


def known_findings():
    """findings recorded in known_findings.json, by id"""
    if not _known:
        with open(KNOWN) as f:
            for d in json.load(f)['findings']:
                _known[d['id']] = d
    return _known


T0 = UTCDateTime('2010-01-01T00:00:00')


class Check(object):
    __slots__ = ('label', 'neg', 'negm', 'const')

    def __init__(self, label, neg, negm=None):
        self.label = label
        self.neg = neg          # z3 expression or bool: property violated
        self.negm = negm        # violated with a margin


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


class BaseCtx(object):
    tol = 1e-6

    def fork_max(self):
        """decide maxima by cases instead of using auxiliary variables"""
        if self.sym:
            self.e.fork_max = True

    def line(self, *names):
        """parameters of lines: decide all cases of comparisons, without
        auxiliary variables"""
        if self.sym:
            self.e.fork_max = True
            for v in names:
                (m, c), = v.p.items()
                at = E.TABLE.atoms[m[0][0]]
                self.e.boxes[at.id] = at.lo, at.hi

    def arr(self, values):
        raise NotImplementedError

    def array(self, name, n, lo=-10, hi=10):
        return self.arr([self.real('%s%d' % (name, i), lo, hi)
                         for i in range(n)])

    def utc(self, seconds, base=T0):
        return base + seconds

    def any_of(self, conds):
        return E.s_or(*conds)

    def all_of(self, conds):
        return E.s_and(*conds)

    def arr_eq(self, label, a, b, tol=None):
        """arrays a (result) and b (expected) agree"""
        try:
            la, lb = len(a), len(b)
        except TypeError:
            self.true(label + ' is array', False)
            return
        self.true(label + ' length', la == lb)
        for i in range(min(la, lb)):
            self.eq('%s[%d]' % (label, i), a[i], b[i], tol)

    def same(self, label, a, b):
        """non-numeric equality (identity of values)"""
        self.true('%s: %.60r == %.60r' % (label, a, b), bool(a == b))

    def equal(self, label, a, b):
        """equality of header values of any kind"""
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        num = (int, float, Fraction, SymReal)
        if isinstance(a, UTCDateTime) and isinstance(b, UTCDateTime):
            self.eq(label, a - b, 0.)
        elif isinstance(a, num) and isinstance(b, num):
            self.eq(label, a, b)
        elif isinstance(a, dict) and isinstance(b, dict):
            self.same(label + ' keys', sorted(a), sorted(b))
            for k in a:
                if k in b:
                    self.equal('%s.%s' % (label, k), a[k], b[k])
        else:
            self.true(label, type(a) == type(b) and a == b)

    def raises(self, label, exc, f, *args, **kwargs):
        try:
            f(*args, **kwargs)
        except exc:
            ok = True
        except Exception as ex:
            ok = False
            label += ' (got %s)' % type(ex).__name__
        else:
            ok = False
        self.true(label, ok)


class SymCtx(BaseCtx):
    sym = True

    def __init__(self, engine, near=None):
        self.e = engine
        # choices and values of a concrete run, only its vicinity is explored
        self.near = near
        self.checks = []
        self.choices = {}
        self.angles = {}
        self.info = []

    # inputs
    def real(self, name, lo=-10, hi=10):
        if self.near and name in self.near[1]:
            v = self.near[1][name]
            d = 1e-3 * (1 + abs(v))
            lo, hi = max(lo, v - d), min(hi, v + d)
        return self.e.var(name, lo, hi)

    def angle(self, name, lo=-360, hi=360):
        """angle in degrees which is used in trigonometric functions only"""
        v = self.e.var(name, lo, hi)
        self.angles[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.choices[name] = 0
            return options[0]
        if self.near and name in self.near[0]:
            i = min(self.near[0][name], len(options) - 1)
            self.choices[name] = i
            return options[i]
        z = z3.Int('choice_' + name)
        self.e.add(z3.And(z >= 0, z < len(options)))
        for i in range(len(options) - 1):
            if self.e.branch(z == i):
                break
        else:
            i = len(options) - 1
        self.choices[name] = i
        return options[i]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def integer(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def arr(self, values):
        from symrf.array import objarr, SymArray
        return objarr(list(values)).view(SymArray)

    def assume(self, c):
        self.e.assume(c)

    # statements
    def true(self, label, cond):
        if isinstance(cond, SymBool):
            self.checks.append(Check(label, z3.Not(cond.z)))
        else:
            self.checks.append(Check(label, not cond))

    def eq(self, label, a, b, tol=None):
        tol = self.tol if tol is None else tol
        a, b = _scalar(a), _scalar(b)
        if isinstance(a, (SymComplex, complex, np.complexfloating)) or \
                isinstance(b, (SymComplex, complex, np.complexfloating)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            self.eq(label + '.re', a.real, b.real, tol)
            self.eq(label + '.im', a.imag, b.imag, tol)
            return
        if not (isinstance(a, SymReal) or E.is_num(a)) or \
                not (isinstance(b, SymReal) or E.is_num(b)):
            self.checks.append(Check(label + ' type %s' % type(a), True))
            return
        if _isnan(a) or _isnan(b):
            self.checks.append(Check(label, not (_isnan(a) and _isnan(b))))
            return
        if _isinf(a) or _isinf(b):
            self.checks.append(Check(label, not (_isinf(a) and _isinf(b) and
                                                 a == b)))
            return
        d = a - b
        if not isinstance(d, SymReal):
            self.checks.append(Check(label, not abs(d) <= tol * (
                1 + (abs(float(b)) if E.is_num(b) else 0))))
            return
        self.e.stating = True
        r, err = E.p_round(d.p, tol)
        near = SymReal(r) if any(r) else sum(r.values(), Fraction(0))
        out = _outside(near, Fraction(tol) - err) if any(r) else \
            z3.BoolVal(abs(near) > Fraction(tol) - err)
        self.checks.append(Check(
            label, out, _outside(d, max(1e-3, 1000 * tol))))
        self.e.stating = False

    def known_eq(self, finding, label, a, b, alt, tol=None):
        """a is b, or alt if this is a finding recorded for the property"""
        if finding not in known_findings():
            return self.eq(label, a, b, tol)
        n = len(self.checks)
        self.eq(label, a, b, tol)
        self.eq(label, a, alt, tol)
        c1, c2 = self.checks[n:]
        del self.checks[n:]

        def both(x, y):
            if isinstance(x, bool):
                return x and y
            if isinstance(y, bool):
                return y and x
            return z3.And(x, y)
        neg = both(c1.neg, c2.neg)
        negm = None if isinstance(neg, bool) else both(
            c1.neg if c1.negm is None else c1.negm,
            c2.neg if c2.negm is None else c2.negm)
        self.checks.append(Check(label, neg, negm))

    def known_true(self, finding, label, cond):
        """statement whose violation is a recorded finding"""
        if finding not in known_findings():
            self.true(label, cond)

    def le(self, label, a, b, tol=None):
        """a <= b"""
        tol = self.tol if tol is None else tol
        d = _scalar(a) - _scalar(b)
        if not isinstance(d, SymReal):
            self.checks.append(Check(label, not d <= tol))
            return
        self.e.stating = True
        self.checks.append(Check(
            label, _zof(d > float(tol)),
            _zof(d > max(1e-3, 1000. * tol))))
        self.e.stating = False


def _zof(b):
    return b.z if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def _outside(d, tol):
    if not isinstance(tol, Fraction):
        tol = float(tol)
    return z3.Or(_zof(d > tol), _zof(d < -tol))


def _scalar(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, np.generic):
        x = x.item()
    return x


class AssumptionFailed(BaseException):
    pass


class ConCtx(BaseCtx):
    sym = False

    def __init__(self, values, choices, seed=None):
        self.values = values
        self.choices_in = choices
        self.seed = seed
        self.failed = []
        self.known = []
        self.nchecks = 0
        self.used = {}
        self.used_choices = {}

    def _rand(self, name):
        h = hashlib.sha256(('%s:%s' % (self.seed, name)).encode()).digest()
        return int.from_bytes(h[:8], 'big') / 2. ** 64

    def real(self, name, lo=-10, hi=10):
        v = self.values.get(name)
        if v is None:
            if self.seed is None:
                v = 0. if lo <= 0 <= hi else float(lo)
            else:
                v = float(lo) + self._rand(name) * float(hi - lo)
                # multiples of 2^-20 keep sums of times exact
                v = min(max(round(v * 2 ** 20) / 2. ** 20, float(lo)),
                        float(hi))
        self.used[name] = float(v)
        return float(v)

    angle = real

    def choice(self, name, options):
        options = list(options)
        i = self.choices_in.get(name)
        if i is None:
            i = 0 if self.seed is None else \
                int(self._rand('c' + name) * len(options))
        i = min(i, len(options) - 1)
        self.used_choices[name] = i
        return options[i]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def integer(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def arr(self, values):
        return np.array(list(values), dtype=float)

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def true(self, label, cond):
        self.nchecks += 1
        if not cond:
            self.failed.append((label, 'false'))

    def eq(self, label, a, b, tol=None):
        self.nchecks += 1
        tol = self.tol if tol is None else tol
        a, b = _scalar(a), _scalar(b)
        try:
            if _isnan(a) or _isnan(b):
                ok = _isnan(a) and _isnan(b)
            elif _isinf(a) or _isinf(b):
                ok = _isinf(a) and _isinf(b) and a == b
            else:
                ok = abs(a - b) <= tol * (1 + abs(b))
        except Exception:
            ok = False
        if not ok:
            self.failed.append((label, '%r != %r' % (a, b)))

    def known_eq(self, finding, label, a, b, alt, tol=None):
        n = len(self.failed)
        self.eq(label, a, b, tol)
        if len(self.failed) > n and finding in known_findings():
            first = self.failed[n:]
            del self.failed[n:]
            self.eq(label, a, alt, tol)
            if len(self.failed) > n:
                self.failed[n:] = first
            else:
                text = known_findings()[finding]['what']
                if text not in self.known:
                    self.known.append(text)

    def known_true(self, finding, label, cond):
        if finding not in known_findings():
            return self.true(label, cond)
        text = known_findings()[finding]['what']
        if not cond and text not in self.known:
            self.known.append(text)

    def le(self, label, a, b, tol=None):
        self.nchecks += 1
        tol = self.tol if tol is None else tol
        if not _scalar(a) <= _scalar(b) + tol:
            self.failed.append((label, '%r > %r' % (a, b)))
