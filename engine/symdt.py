"""Datetimes whose components are solver variables."""
import datetime as _dt

import z3

from . import core
from .core import SymInt, SymBool, mkbool, mkint, tand, tor, bterm

DAY = 86400 * 10**6
_before = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def term(x):
    return core.num(x)[0]


def sym(*xs):
    return any(isinstance(x, (SymInt, SymDT, SymDate, SymTime, SymDelta)) or type(x) is SymBool for x in xs)


def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def dim(y, m):
    return z3.If(m == 2, z3.If(leap(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, z3.IntVal(31)))


def ordinal(y, m, d):
    p = y - 1
    b = z3.IntVal(_before[12])
    for i in range(11, 0, -1):
        b = z3.If(m == i, _before[i], b)
    return p * 365 + p / 4 - p / 100 + p / 400 + b + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d


_n = [0]


def fresh(name, lo, hi):
    _n[0] += 1
    t = z3.Int("dt!%s!%d" % (name, _n[0]))
    core.cur().add(z3.And(t >= lo, t <= hi))
    return SymInt(t, lo, hi)


def date_of(o):
    """components of an ordinal"""
    y, m, d = fresh("y", 1, 9999), fresh("m", 1, 12), fresh("d", 1, 31)
    c = core.cur()
    if not core.decide(z3.And(o >= 1, o <= 3652059)):
        raise OverflowError("date value out of range")
    c.add(d.t <= dim(y.t, m.t))
    c.add(ordinal(y.t, m.t, d.t) == o)
    return y, m, d


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)


def _check(ok, what):
    if not core.decide(bterm(ok)):
        raise ValueError(what + " is out of range")


def _num(x, lo, hi, what):
    if isinstance(x, bool) or not isinstance(x, int):
        if not isinstance(x, int):
            raise TypeError("an integer is required (got type %s)" % type(x).__name__)
    if type(x) is SymInt and x.lo is not None and x.hi is not None and lo <= x.lo and x.hi <= hi:
        return x
    _check(mkbool(tand(bterm(x >= lo), bterm(x <= hi))), what)
    return x


class _Cmp:
    def _cmp(self, o, op):
        a, b = self._key(), o._key() if hasattr(o, "_key") else None
        if b is None:
            return NotImplemented
        return getattr(a, op)(b)

    def __eq__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else core.mkbool(bterm(self._key() == k))

    def __ne__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else core.mkbool(bterm(self._key() != k))

    def __lt__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else self._key() < k

    def __le__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else self._key() <= k

    def __gt__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else self._key() > k

    def __ge__(self, o):
        k = _lift(self, o)
        return NotImplemented if k is None else self._key() >= k

    def __hash__(self):
        raise core.Unsupported("hash of a symbolic time")

    def __repr__(self):
        raise core.Unsupported("text of a symbolic time")

    __str__ = isoformat = strftime = __format__ = __repr__


def _lift(a, b):
    """comparison key of b, if comparable with a"""
    w = wrap(b)
    if type(w) is not type(a):
        return None
    return w._key()


def wrap(x):
    if type(x) in (SymDT, SymDate, SymTime, SymDelta):
        return x
    if isinstance(x, _dt.datetime):
        return SymDT(x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, x.tzinfo, x.fold)
    if isinstance(x, _dt.date):
        return SymDate(x.year, x.month, x.day)
    if isinstance(x, _dt.timedelta):
        return SymDelta((x.days * 86400 + x.seconds) * 10**6 + x.microseconds)
    if isinstance(x, _dt.time):
        return SymTime(x.hour, x.minute, x.second, x.microsecond, x.tzinfo, x.fold)
    return None


def _us(h, mi, s, us):
    return ((h * 60 + mi) * 60 + s) * 10**6 + us


class SymDelta(_Cmp):
    def __init__(self, us):
        self.us = us

    __class__ = property(lambda self: _dt.timedelta)

    def _key(self):
        return self.us

    @property
    def days(self):
        return self.us // DAY

    @property
    def seconds(self):
        return self.us // 10**6 % 86400

    @property
    def microseconds(self):
        return self.us % 10**6

    def total_seconds(self):
        return core.sym_div(self.us, 10**6)

    def __neg__(self):
        return SymDelta(-self.us)

    def __add__(self, o):
        o = wrap(o)
        return SymDelta(self.us + o.us) if type(o) is SymDelta else NotImplemented

    def __radd__(self, o):
        o = wrap(o)
        if type(o) is SymDT:
            return o + self
        return self + o

    def __sub__(self, o):
        return self + (-wrap(o))

    def __rsub__(self, o):
        o = wrap(o)
        if type(o) is SymDT:
            return o + (-self)
        return o - self

    def __mul__(self, n):
        return SymDelta(self.us * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        return SymDelta(self.us % int(o.total_seconds() * 10**6))

    def __floordiv__(self, o):
        if isinstance(o, int):
            return SymDelta(self.us // o)
        return self.us // int(o.total_seconds() * 10**6)

    def __bool__(self):
        return bool(self.us != 0)


class SymDate(_Cmp):
    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    __class__ = property(lambda self: _dt.date)

    def _key(self):
        return self.toordinal()

    def toordinal(self):
        return mkint(z3.simplify(ordinal(term(self.year), term(self.month), term(self.day))), 1, 3652059)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def replace(self, year=None, month=None, day=None):
        y, m, d = (self.year if year is None else year), (self.month if month is None else month), (self.day if day is None else day)
        return SymDate(*_valid(y, m, d))

    def __add__(self, o):
        o = wrap(o)
        if type(o) is not SymDelta:
            return NotImplemented
        return SymDate(*date_of(term(self.toordinal() + o.days)))

    __radd__ = __add__

    def __sub__(self, o):
        o = wrap(o)
        if type(o) is SymDate:
            return SymDelta((self.toordinal() - o.toordinal()) * DAY)
        return self + (-o)


def _valid(y, m, d):
    y, m = _num(y, 1, 9999, "year"), _num(m, 1, 12, "month")
    if not (type(d) is int and 1 <= d <= 28):
        if not isinstance(d, int):
            raise TypeError("an integer is required")
        _check(mkbool(tand(term(d) >= 1, term(d) <= dim(term(y), term(m)))), "day")
    return y, m, d


class SymTime(_Cmp):
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo, self.fold = tzinfo, fold

    __class__ = property(lambda self: _dt.time)

    def _key(self):
        return _us(self.hour, self.minute, self.second, self.microsecond)


class SymDT(_Cmp):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        self.year, self.month, self.day = year, month, day
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond
        self.tzinfo, self.fold = tzinfo, fold

    __class__ = property(lambda self: _dt.datetime)

    def _offset(self):
        if self.tzinfo is None:
            return None
        if type(self.tzinfo) is not _dt.timezone:
            raise core.Unsupported("time zone with rules")
        return self.tzinfo.utcoffset(None)

    def utcoffset(self):
        return self._offset()

    def date(self):
        return SymDate(self.year, self.month, self.day)

    def time(self):
        return SymTime(self.hour, self.minute, self.second, self.microsecond, None, self.fold)

    def timetz(self):
        return SymTime(self.hour, self.minute, self.second, self.microsecond, self.tzinfo, self.fold)

    def toordinal(self):
        return self.date().toordinal()

    def weekday(self):
        return self.date().weekday()

    def timetuple(self):
        return (self.year, self.month, self.day, self.hour, self.minute, self.second, self.weekday(), self.toordinal() - SymDate(self.year, 1, 1).toordinal() + 1, -1)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None, tzinfo=True, *, fold=None):
        g = lambda a, b: b if a is None else a
        return datetime.make(
            g(year, self.year), g(month, self.month), g(day, self.day), g(hour, self.hour), g(minute, self.minute),
            g(second, self.second), g(microsecond, self.microsecond), self.tzinfo if tzinfo is True else tzinfo,
            fold=g(fold, self.fold), known=self)

    def _of_day(self):
        return _us(self.hour, self.minute, self.second, self.microsecond)

    def _key(self):
        k = self.toordinal() * DAY + self._of_day()
        o = self._offset()
        return k if o is None else k - (o.days * 86400 + o.seconds) * 10**6 - o.microseconds

    def __add__(self, o):
        o = wrap(o)
        if type(o) is not SymDelta:
            return NotImplemented
        us = self._of_day() + o.us
        ds, us = us // DAY, us % DAY
        y, m, d = self.year, self.month, self.day
        if type(ds) is int and ds == 0 or not core.cur().feasible(term(ds) != 0):
            pass
        else:
            nd = term(d) + term(ds)
            if not core.cur().feasible(z3.Not(z3.And(nd >= 1, nd <= dim(term(y), term(m))))):
                d = mkint(nd, 1, 31)
            else:
                y, m, d = date_of(term(self.toordinal()) + term(ds))
        return SymDT(y, m, d, us // (3600 * 10**6), us // (60 * 10**6) % 60, us // 10**6 % 60, us % 10**6, self.tzinfo, 0)

    __radd__ = __add__

    def __sub__(self, o):
        o = wrap(o)
        if type(o) is SymDT:
            if (self.tzinfo is None) != (o.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return SymDelta(self._key() - o._key())
        return self + (-o)

    def __rsub__(self, o):
        return wrap(o) - self


class datetime(metaclass=_Meta):
    _real = _dt.datetime

    @staticmethod
    def make(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0, known=None):
        if not sym(year, month, day, hour, minute, second, microsecond):
            return _dt.datetime(year, month, day, hour, minute, second, microsecond, tzinfo, fold=fold)
        if known is not None and year is known.year and month is known.month and day is known.day:
            pass
        else:
            year, month, day = _valid(year, month, day)
        return SymDT(
            year, month, day, _num(hour, 0, 23, "hour"), _num(minute, 0, 59, "minute"), _num(second, 0, 59, "second"),
            _num(microsecond, 0, 999999, "microsecond"), tzinfo, fold)

    @staticmethod
    def combine(d, t, tzinfo=True):
        if not sym(d, t):
            return _dt.datetime.combine(d, t) if tzinfo is True else _dt.datetime.combine(d, t, tzinfo)
        return SymDT(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo if tzinfo is True else tzinfo, t.fold)

    @staticmethod
    def fromordinal(n):
        if not sym(n):
            return _dt.datetime.fromordinal(n)
        return SymDT(*date_of(term(n)))


class date(metaclass=_Meta):
    _real = _dt.date

    @staticmethod
    def make(year, month, day):
        if not sym(year, month, day):
            return _dt.date(year, month, day)
        return SymDate(*_valid(year, month, day))


class time(metaclass=_Meta):
    _real = _dt.time

    @staticmethod
    def make(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, *, fold=0):
        if not sym(hour, minute, second, microsecond):
            return _dt.time(hour, minute, second, microsecond, tzinfo, fold=fold)
        return SymTime(hour, minute, second, microsecond, tzinfo, fold)


class timedelta(metaclass=_Meta):
    _real = _dt.timedelta

    @staticmethod
    def make(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not sym(*a):
            return _dt.timedelta(*a)
        us = microseconds + 1000 * milliseconds + 10**6 * (seconds + 60 * minutes + 3600 * hours + 86400 * (days + 7 * weeks))
        return SymDelta(us)


CLASSES = {_dt.datetime: datetime, _dt.date: date, _dt.time: time, _dt.timedelta: timedelta}
