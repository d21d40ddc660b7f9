"""Symbolic times: UTCDateTime plus a symbolic number of seconds."""
from obspy import UTCDateTime
from obspy.core import trace as _tr
import numpy as np

from symrf import engine as E
from symrf.engine import SymReal, Unsupported, is_num
from symrf import array as A


class SymStr(str):
    """string representation of a symbolic time"""

    def __new__(cls, utc):
        o = str.__new__(cls, '<symutc %d>' % hash(E.p_key(utc.off.p)))
        o.utc = utc
        return o

    def _o(self, other):
        if isinstance(other, SymStr):
            return other.utc
        try:
            return UTCDateTime(other)
        except Exception:
            return None

    def __hash__(self):
        return 0

    def __eq__(self, other):
        if not isinstance(other, str):
            return False
        o = self._o(other)
        return o is not None and bool(self.utc == o)

    def __ne__(self, other):
        return not self == other

    def __lt__(self, other):
        return bool(self.utc < self._o(other))

    def __le__(self, other):
        return bool(self.utc <= self._o(other))

    def __gt__(self, other):
        return bool(self.utc > self._o(other))

    def __ge__(self, other):
        return bool(self.utc >= self._o(other))


class SymUTC(UTCDateTime):
    def __init__(self, base=None, off=None, *a, **k):
        if off is None:
            return
        UTCDateTime.__init__(self, base)
        self.__dict__['base'] = UTCDateTime(base)
        self.__dict__['off'] = off

    @staticmethod
    def make(base, off):
        if not isinstance(off, SymReal):
            return base + off
        o = UTCDateTime.__new__(SymUTC)
        o.__init__(base, off)
        return o

    def _rel(self, other):
        """self - other in seconds"""
        if isinstance(other, SymUTC):
            return self.off - other.off + (self.base - other.base)
        if not isinstance(other, UTCDateTime):
            other = UTCDateTime(other)
        return self.off + (self.base - other)

    def __add__(self, value):
        if isinstance(value, UTCDateTime):
            raise TypeError("unsupported operand type(s) for +")
        if hasattr(value, 'total_seconds'):
            value = value.total_seconds()
        return SymUTC.make(self.base, self.off + value)

    def __radd__(self, value):
        return self + value

    def __sub__(self, value):
        if isinstance(value, UTCDateTime):
            return self._rel(value)
        if hasattr(value, 'total_seconds'):
            value = value.total_seconds()
        return SymUTC.make(self.base, self.off - value)

    def __rsub__(self, other):
        return -self._rel(other)

    def __lt__(self, o):
        return self._rel(o) < 0

    def __le__(self, o):
        return self._rel(o) <= 0

    def __gt__(self, o):
        return self._rel(o) > 0

    def __ge__(self, o):
        return self._rel(o) >= 0

    def __eq__(self, o):
        if not isinstance(o, (UTCDateTime, str)) and not is_num(o):
            return False
        return self._rel(o) == 0

    def __ne__(self, o):
        return E.s_not(self == o)

    def __hash__(self):
        return 0

    def __bool__(self):
        return True

    def __float__(self):
        raise Unsupported('float() of symbolic time')

    @property
    def timestamp(self):
        return self.off + self.base.timestamp

    @property
    def ns(self):
        raise Unsupported('ns of symbolic time')
    _ns = ns

    @property
    def datetime(self):
        raise Unsupported('datetime of symbolic time')

    def __str__(self):
        return SymStr(self)

    def isoformat(self, *a):
        return SymStr(self)

    def __repr__(self):
        return '<symutc>'

    def __format__(self, spec):
        return '<symutc>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle of symbolic time')


_saved = {}


def install():
    if _saved:
        return
    add, sub = UTCDateTime.__add__, UTCDateTime.__sub__
    radd = UTCDateTime.__dict__.get('__radd__')
    setat = _tr.Trace.__setattr__
    _saved.update(add=add, sub=sub, setat=setat, radd=radd)

    def __add__(self, value):
        if isinstance(value, SymReal):
            return SymUTC.make(self, value)
        return add(self, value)

    def __radd__(self, value):
        return self + value

    def __sub__(self, value):
        if isinstance(value, SymReal):
            return SymUTC.make(self, -value)
        return sub(self, value)

    def __new__(cls, *a, **k):
        if cls is UTCDateTime and len(a) == 1 and isinstance(a[0], SymUTC):
            return a[0]
        return object.__new__(cls)

    def __setattr__(self, key, value):
        if (key == 'data' and E.ENGINE is not None and
                isinstance(value, np.ndarray) and value.dtype == object):
            if isinstance(value, np.ma.MaskedArray):
                if not np.ma.is_masked(value):
                    pass
            elif not isinstance(value, A.SymArray):
                value = value.view(A.SymArray)
        return setat(self, key, value)
    UTCDateTime.__add__ = __add__
    UTCDateTime.__radd__ = __radd__
    UTCDateTime.__sub__ = __sub__
    UTCDateTime.__new__ = __new__
    _tr.Trace.__setattr__ = __setattr__


def uninstall():
    if not _saved:
        return
    UTCDateTime.__add__ = _saved['add']
    UTCDateTime.__sub__ = _saved['sub']
    if _saved['radd'] is None:
        del UTCDateTime.__radd__
    else:
        UTCDateTime.__radd__ = _saved['radd']
    UTCDateTime.__new__ = staticmethod(
        lambda cls, *a, **k: object.__new__(cls))
    _tr.Trace.__setattr__ = _saved['setat']
    _saved.clear()
