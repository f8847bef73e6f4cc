"""Symbolic `pyroaring`: a bitmap maps concrete positions to boolean terms.

The library itself is trusted (C code); this is its documented semantics.
"""
import z3

from . import core
from .core import (
    Unsupported,
    SymInt,
    count_terms,
    decide,
    mkbool,
    mkint,
    sym_div,
    tand,
    tite,
    tnot,
    tor,
    txor,
    tiff,
    bterm,
)

MAXV = 2**32


def _val(x):
    if type(x) is SymInt:
        if x.lo is None or x.lo < 0:
            if decide(x.t < 0):
                raise OverflowError("can't convert negative value to uint32_t")
        x = x.__index__()
    if type(x) is bool:
        x = int(x)
    if type(x) is float:
        x = int(x)
    if not isinstance(x, int):
        f = getattr(type(x), "__index__", None)
        if f is None:
            raise TypeError("an integer is required")
        x = x.__index__()
    if x < 0:
        raise OverflowError("can't convert negative value to uint32_t")
    if x >= MAXV:
        raise OverflowError("value too large to convert to uint32_t")
    return x


class Blob(bytes):
    """Serialised bitmap: an opaque, immutable byte string."""


    def __new__(cls, d):
        o = bytes.__new__(cls, b"\x00bitmap")
        o.d = d
        return o

    def __eq__(self, o):
        if isinstance(o, Blob):
            return _same(self.d, o.d)
        return False

    def __ne__(self, o):
        return mkbool(tnot(bterm(self == o)))

    def __hash__(self):
        return 17

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __len__(self):
        return 8 + len(self.d)

    def _sx_merge(self, c, o):
        return Blob(_zip(self.d, o.d, lambda a, b: tite(c, a, b)))

    def __reduce__(self):
        raise Unsupported("pickling a symbolic blob")


def _same(a, b):
    ts = []
    for k in sorted(set(a) | set(b)):
        ts.append(tiff(a.get(k, False), b.get(k, False)))
    return mkbool(tand(*ts))


def _zip(a, b, f):
    out = {}
    for k in a.keys() | b.keys():
        t = f(a.get(k, False), b.get(k, False))
        if t is not False:
            out[k] = t
    return out


def _or(a, b):
    if not b:
        return dict(a)
    return _zip(a, b, tor)


def _and(a, b):
    out = {}
    for k in a.keys() & b.keys():
        t = tand(a[k], b[k])
        if t is not False:
            out[k] = t
    return out


def _sub(a, b):
    out = {}
    for k, v in a.items():
        t = tand(v, tnot(b.get(k, False)))
        if t is not False:
            out[k] = t
    return out


def _xor(a, b):
    return _zip(a, b, txor)


class AbstractBitMap:
    __slots__ = ("d",)

    def __init__(self, values=None, copy_on_write=False, optimize=True):
        d = {}
        if values is None:
            pass
        elif isinstance(values, AbstractBitMap):
            d = dict(values.d)
        elif isinstance(values, range):
            for v in values:
                d[_val(v)] = True
        else:
            for v in values:
                d[_val(v)] = True
        self.d = d

    @classmethod
    def _of(cls, d):
        o = cls.__new__(cls)
        o.d = d
        return o

    @staticmethod
    def _other(o):
        if not isinstance(o, AbstractBitMap):
            raise TypeError(
                "Argument 'other' has incorrect type (expected pyroaring.AbstractBitMap, got %s)"
                % type(o).__name__
            )
        return o.d

    # -- protocol ------------------------------------------------------------
    def _sx_len(self):
        return count_terms([self.d[k] for k in sorted(self.d)])

    def __len__(self):
        n = self._sx_len()
        return n if type(n) is int else n.__index__()

    def __bool__(self):
        return decide(tor(*[self.d[k] for k in sorted(self.d)]))

    def __contains__(self, x):
        return decide(self.d.get(_val(x), False))

    def __iter__(self):
        for k in sorted(self.d):
            t = self.d.get(k, False)
            if t is True or decide(t):
                yield k

    def __reversed__(self):
        return iter(sorted(self, reverse=True))

    def iter_equal_or_larger(self, v):
        v = _val(v)
        for k in sorted(self.d):
            if k >= v and decide(self.d[k]):
                yield k

    def __eq__(self, o):
        if type(o) is not type(self):
            return False
        return _same(self.d, o.d)

    def __ne__(self, o):
        return mkbool(tnot(bterm(self == o)))

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return mkbool(tand(bterm(self.issubset(o)), tnot(bterm(_same(self.d, o.d)))))

    def __gt__(self, o):
        return mkbool(tand(bterm(self.issuperset(o)), tnot(bterm(_same(self.d, o.d)))))

    __hash__ = None

    def __or__(self, o):
        return type(self)._of(_or(self.d, self._other(o)))

    def __and__(self, o):
        return type(self)._of(_and(self.d, self._other(o)))

    def __sub__(self, o):
        return type(self)._of(_sub(self.d, self._other(o)))

    def __xor__(self, o):
        return type(self)._of(_xor(self.d, self._other(o)))

    # class methods / variadic
    def union(self, *os):
        d = self.d
        for o in os:
            d = _or(d, self._other(o))
        return type(self)._of(dict(d))

    def intersection(self, *os):
        d = self.d
        for o in os:
            d = _and(d, self._other(o))
        return type(self)._of(dict(d))

    def difference(self, *os):
        d = self.d
        for o in os:
            d = _sub(d, self._other(o))
        return type(self)._of(dict(d))

    def symmetric_difference(self, o):
        return self ^ o

    def union_cardinality(self, o):
        return type(self)._of(_or(self.d, self._other(o)))._sx_len()

    def intersection_cardinality(self, o):
        return type(self)._of(_and(self.d, self._other(o)))._sx_len()

    def difference_cardinality(self, o):
        return type(self)._of(_sub(self.d, self._other(o)))._sx_len()

    def symmetric_difference_cardinality(self, o):
        return type(self)._of(_xor(self.d, self._other(o)))._sx_len()

    def intersect(self, o):
        return mkbool(tor(*_and(self.d, self._other(o)).values()))

    def isdisjoint(self, o):
        return mkbool(tnot(bterm(self.intersect(o))))

    def issubset(self, o):
        od = self._other(o)
        return mkbool(tand(*[tor(tnot(t), od.get(k, False)) for k, t in sorted(self.d.items())]))

    def issuperset(self, o):
        self._other(o)
        return o.issubset(self)

    def jaccard_index(self, o):
        i = self.intersection_cardinality(o)
        u = self.union_cardinality(o)
        if u == 0:
            return float("nan")
        return sym_div(i, u)

    def copy(self):
        return type(self)._of(dict(self.d))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return type(self)._of(dict(self.d))

    def __reduce__(self):
        raise Unsupported("pickling a symbolic bitmap")

    def rank(self, x):
        if type(x) is not SymInt:
            x = _val(x)
            return count_terms([self.d[k] for k in sorted(self.d) if k <= x])
        return count_terms([tand(self.d[k], bterm(x >= k)) for k in sorted(self.d)])

    def range_cardinality(self, a, b):
        assert a <= b, "range_end must not be lower than range_start"
        return count_terms(
            [tand(self.d[k], bterm(a <= k), bterm(b > k)) for k in sorted(self.d)]
        )

    def contains_range(self, a, b):
        a, b = _val(a), _val(b)
        return mkbool(tand(*[self.d.get(k, False) for k in range(a, b)]))

    def min(self):
        for k in sorted(self.d):
            if decide(self.d[k]):
                return k
        raise ValueError("Empty roaring bitmap, there is no minimum.")

    def max(self):
        for k in sorted(self.d, reverse=True):
            if decide(self.d[k]):
                return k
        raise ValueError("Empty roaring bitmap, there is no maximum.")

    def next_set_bit(self, v):
        for k in self.iter_equal_or_larger(v):
            return k
        raise ValueError("No value larger or equal to specified value.")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self)(list(self)[i])
        ks = sorted(self.d)
        if type(i) is not SymInt and all(self.d[k] is True for k in ks):
            if not isinstance(i, int):
                raise TypeError("Indices must be integers or slices, not %s" % type(i))
            try:
                return ks[i]
            except IndexError:
                raise IndexError("Index out of bound") from None
        n = self._sx_len()
        if i < 0:
            i = n + i
            if i < 0:
                raise IndexError("Index out of bound")
        if i >= n:
            raise IndexError("Index out of bound")
        # symbolic select
        out = None
        seen = []
        opts = []
        for k in ks:
            below = count_terms(seen)
            here = tand(self.d[k], bterm(below == i))
            if here is True:
                return k
            if here is not False:
                opts.append((k, here))
            seen.append(self.d[k])
        if not opts:
            return 0
        out = z3.IntVal(opts[-1][0])
        for k, c in reversed(opts[:-1]):
            out = z3.If(c, z3.IntVal(k), out)
        return mkint(out, opts[0][0], opts[-1][0])

    def to_array(self):
        return list(self)

    def run_optimize(self):
        return False

    def shrink_to_fit(self):
        return 0

    def serialize(self):
        return Blob(dict(self.d))

    @classmethod
    def deserialize(cls, b):
        if not isinstance(b, Blob):
            raise ValueError("Could not deserialize bitmap")
        return cls._of(dict(b.d))

    def shift(self, off):
        return type(self)._of({k + off: t for k, t in self.d.items() if 0 <= k + off < MAXV})

    def flip(self, a, b):
        return type(self)._of(_xor(self.d, {k: True for k in range(_val(a), _val(b))}))

    def get_statistics(self):
        raise Unsupported("get_statistics")

    def __repr__(self):
        return "%s(%s)" % (
            type(self).__name__,
            {k: ("1" if t is True else str(t)) for k, t in sorted(self.d.items())},
        )

    def _sx_merge(self, c, o):
        return type(self)._of(_zip(self.d, o.d, lambda a, b: tite(c, a, b)))


class FrozenBitMap(AbstractBitMap):
    __slots__ = ()

    def __hash__(self):
        return hash(tuple(self))


class BitMap(AbstractBitMap):
    __slots__ = ()

    def add(self, x):
        self.d[_val(x)] = True

    def add_checked(self, x):
        x = _val(x)
        if decide(self.d.get(x, False)):
            raise KeyError(x)
        self.d[x] = True

    def _set_range(self, a, b, on):
        symbolic = type(a) is SymInt or type(b) is SymInt
        if symbolic:
            lo = a.lo if type(a) is SymInt else a
            hi = b.hi if type(b) is SymInt else b
            if lo is None or hi is None or hi - lo > 400:
                a, b = int(a.__index__()), int(b.__index__())
                symbolic = False
        if not symbolic:
            if a < 0 or b < 0:
                raise OverflowError("can't convert negative value to uint64_t")
            if b - a > 100000:
                raise Unsupported("very large range")
            for k in range(a, b):
                if on:
                    self.d[k] = True
                else:
                    self.d.pop(k, None)
            return
        if a < 0 or b < 0:
            raise OverflowError("can't convert negative value to uint64_t")
        for k in range(max(0, lo), hi):
            c = tand(bterm(a <= k), bterm(b > k))
            old = self.d.get(k, False)
            t = tor(old, c) if on else tand(old, tnot(c))
            if t is False:
                self.d.pop(k, None)
            else:
                self.d[k] = t

    def add_range(self, a, b):
        self._set_range(a, b, True)

    def remove_range(self, a, b):
        self._set_range(a, b, False)

    def discard(self, x):
        self.d.pop(_val(x), None)

    def remove(self, x):
        x = _val(x)
        if not decide(self.d.get(x, False)):
            raise KeyError(x)
        self.d.pop(x, None)

    def pop(self):
        k = self.min()
        self.d.pop(k)
        return k

    def clear(self):
        self.d = {}

    def update(self, *its):
        for it in its:
            if isinstance(it, AbstractBitMap):
                self.d = _or(self.d, it.d)
            else:
                for v in it:
                    self.add(v)

    def intersection_update(self, *os):
        for o in os:
            if not isinstance(o, AbstractBitMap):
                o = BitMap(o)
            self.d = _and(self.d, o.d)

    def difference_update(self, *os):
        for o in os:
            if not isinstance(o, AbstractBitMap):
                o = BitMap(o)
            self.d = _sub(self.d, o.d)

    def symmetric_difference_update(self, o):
        self.d = _xor(self.d, self._other(o))

    def overwrite(self, o):
        self.d = dict(self._other(o))

    def flip_inplace(self, a, b):
        self.d = self.flip(a, b).d

    def __ior__(self, o):
        self.d = _or(self.d, self._other(o))
        return self

    def __iand__(self, o):
        self.d = _and(self.d, self._other(o))
        return self

    def __isub__(self, o):
        self.d = _sub(self.d, self._other(o))
        return self

    def __ixor__(self, o):
        self.d = _xor(self.d, self._other(o))
        return self


def concrete(bm, model_eval):
    """positions of bm under a model"""
    return [k for k in sorted(bm.d) if model_eval(bm.d[k])]
