"""Path-wise symbolic execution core.

Real Python code runs natively on proxy values (SymBool, SymInt, SymReal,
SymVal, symbolic bitmaps).  Whenever control flow needs the truth of a symbolic
condition, z3 decides which outcomes are possible under the path condition; if
both are, one is taken and the other queued.  Paths are re-executed from their
list of decisions.
"""
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# control flow of the engine: BaseException, so that the code under test does
# not catch it with `except Exception`.


class EngineSignal(BaseException):
    pass


class PathInfeasible(EngineSignal):
    """An assumption does not hold on this path."""


class Unsupported(EngineSignal):
    """The encoding does not cover an operation: the path is inconclusive."""


class PathBudget(EngineSignal):
    """A path exceeds the step bound."""


class SolverUnknown(EngineSignal):
    pass


class Diverged(EngineSignal):
    """Re-executing the beginning of a path asked for other decisions."""


# --------------------------------------------------------------------------
# terms: python bool or z3 BoolRef


def is_sym(t):
    return not isinstance(t, bool) if type(t) is bool else isinstance(t, z3.ExprRef)


def tnot(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def tand(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[0].eq(out[1]):
        return out[0]
    return z3.And(*out)


def tor(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[0].eq(out[1]):
        return out[0]
    return z3.Or(*out)


def txor(a, b):
    if a is True:
        return tnot(b)
    if a is False:
        return b
    if b is True:
        return tnot(a)
    if b is False:
        return a
    return z3.Xor(a, b)


def tiff(a, b):
    return tnot(txor(a, b))


def tite(c, a, b):
    """ite over boolean terms"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if a is True:
        return tor(c, b)
    if a is False:
        return tand(tnot(c), b)
    if b is True:
        return tor(tnot(c), a)
    if b is False:
        return tand(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def timplies(a, b):
    return tor(tnot(a), b)


def zb(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


# --------------------------------------------------------------------------
# path context


class Ctx:
    """One path."""

    def __init__(self, prefix, stats, limits):
        self.prefix = prefix
        self.pos = 0
        self.trace = []  # decisions made on this path
        self.alternatives = []  # decision prefixes left to explore
        self.solver = z3.Solver()
        self.solver.set("timeout", limits.get("query_ms", 20000))
        self.model = None
        self.stats = stats
        self.aborting = None
        self.abort_calls = 0
        self.max_decisions = limits.get("decisions", 20000)
        self.names = {}  # input name -> z3 term / description
        self.cache = {}
        self.tokens = []  # opaque texts that were formatted

    # -- solver -----------------------------------------------------------
    def _check(self, *extra):
        t0 = time.time()
        self.stats["queries"] += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats["solver_s"] += time.time() - t0
        if r == z3.unknown:
            self.abort(SolverUnknown(self.solver.reason_unknown()))
        return r == z3.sat, m

    def abort(self, sig):
        self.aborting = sig
        raise sig

    def add(self, term):
        if term is True:
            return
        self.solver.add(zb(term))
        if self.model is not None and not self._holds(term):
            self.model = None

    def _holds(self, term):
        """truth of term in the cached model"""
        if isinstance(term, bool):
            return term
        return z3.is_true(self.model.eval(term, model_completion=True))

    def ensure_model(self):
        if self.model is None:
            sat, m = self._check()
            if not sat:
                self.abort(PathInfeasible("path condition"))
            self.model = m
        return self.model

    def feasible(self, term):
        """Can term hold on this path?  (No decision is recorded.)"""
        if isinstance(term, bool):
            return term
        if self.model is not None and self._holds(term):
            return True
        sat, m = self._check(term)
        if sat and self.model is None:
            pass
        return sat

    def valid(self, term):
        return not self.feasible(tnot(term))

    # -- decisions ----------------------------------------------------------
    def decide(self, term):
        if isinstance(term, bool):
            return term
        if self.aborting is not None:
            # only clean-up code runs now; do not let it loop
            self.abort_calls += 1
            if self.abort_calls > 300:
                raise self.aborting
            return False
        # keyed by structure: z3.simplify may order arguments by creation time,
        # and re-execution has to ask for the same decisions
        key = term.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        s = z3.simplify(term)
        if z3.is_true(s):
            out = True
        elif z3.is_false(s):
            out = False
        else:
            out = self._decide(s, term.hash())
        # keep the term alive so that its id is not reused
        self.cache[key] = (term, out)
        return out

    def _next(self, mark):
        """the recorded decision to repeat here"""
        rec = self.prefix[self.pos]
        if rec[0] != mark:
            self.abort(Diverged("decision %d of %d" % (self.pos, len(self.prefix))))
        self.pos += 1
        self.trace.append(rec)
        return rec

    def _decide(self, term, mark):
        if self.pos < len(self.prefix):
            out = self._next(mark)[1]
            self.add(term if out else tnot(term))
            return out
        if len(self.trace) >= self.max_decisions:
            self.abort(PathBudget("more than %d decisions" % self.max_decisions))
        self.ensure_model()
        guess = self._holds(term)
        other = tnot(term) if guess else term
        sat, m = self._check(zb(other))
        self.stats["decisions"] += 1
        if sat:
            self.stats["forks"] += 1
            self.alternatives.append(list(self.trace) + [(mark, not guess)])
        self.pos += 1
        self.trace.append((mark, guess))
        self.solver.add(zb(term) if guess else zb(tnot(term)))
        return guess

    def assume(self, term):
        if self.aborting is not None:
            return
        if isinstance(term, SymBool):
            term = term.t
        if term is True:
            return
        if term is False:
            self.abort(PathInfeasible("assumption"))
        self.add(term)
        if self.model is None and self.pos >= len(self.prefix):
            self.ensure_model()

    def concretise(self, term, lo=None, hi=None):
        """Fork over the values of an integer term; returns the value."""
        mark = ("i", term.hash())
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        if self.aborting is not None:
            return 0
        while True:
            if self.pos < len(self.prefix):
                _, v, out = self._next(mark)
                self.add(term == v if out else term != v)
                if out:
                    return v
                continue
            if len(self.trace) >= self.max_decisions:
                self.abort(PathBudget("concretisation"))
            m = self.ensure_model()
            v = m.eval(term, model_completion=True).as_long()
            sat, _ = self._check(term != v)
            self.stats["decisions"] += 1
            if sat:
                self.stats["forks"] += 1
                self.alternatives.append(list(self.trace) + [(mark, v, False)])
            self.pos += 1
            self.trace.append((mark, v, True))
            self.solver.add(term == v)
            return v


_ctx = None


def cur():
    return _ctx


def set_ctx(c):
    global _ctx
    _ctx = c


def decide(t):
    if isinstance(t, SymBool):
        t = t.t
    if isinstance(t, bool):
        return t
    return _ctx.decide(t)


# --------------------------------------------------------------------------
# values


def mkbool(t):
    return t if isinstance(t, bool) else SymBool(t)


def bterm(x):
    """boolean term of a python/symbolic value"""
    if isinstance(x, SymBool):
        return x.t
    if type(x) is bool:
        return x
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymInt:
        return x.t != 0
    if type(x) is SymReal:
        return x.t != 0
    return bool(x)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return decide(self.t)

    def __and__(self, o):
        return mkbool(tand(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(tor(self.t, bterm(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(txor(self.t, bterm(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(tnot(self.t))

    def _int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool) or type(o) is bool:
            return mkbool(tiff(self.t, bterm(o)))
        return self._int() == o

    def __ne__(self, o):
        return mkbool(tnot(bterm(self == o)))

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._int() < o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "SymBool(%s)" % self.t

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def rational(x):
    """the number a float stands for: the simple fraction it was rounded from,
    if there is one"""
    r = Fraction(x)
    s = r.limit_denominator(1000000)
    return s if abs(s - r) <= abs(r) * Fraction(1, 2**51) else r


def num(x):
    """(z3 arith term, lo, hi, is_int) of a numeric value, or None"""
    tx = type(x)
    if tx is bool:
        x = int(x)
        tx = int
    if tx is int:
        return z3.IntVal(x), x, x, True
    if tx is SymInt:
        return x.t, x.lo, x.hi, True
    if tx is SymBool:
        return num(x._int())
    if tx is SymReal:
        return x.t, None, None, False
    if tx is float:
        if x != x or x in (float("inf"), float("-inf")):
            return None
        return z3.RealVal(rational(x)), None, None, False
    if tx is Fraction:
        return z3.RealVal(x), None, None, False
    return None


def mkint(t, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t, lo, hi)


def mkreal(t):
    return SymReal(t)


def _add(a, b):
    return None if a is None or b is None else a + b


def _isc(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


class SymInt:
    __slots__ = ("t", "lo", "hi")

    def __init__(self, t, lo=None, hi=None):
        self.t = t
        self.lo = lo
        self.hi = hi

    # `isinstance(x, int)` holds
    @property
    def __class__(self):
        return int

    def __bool__(self):
        if self.lo is not None and self.lo > 0:
            return True
        return decide(self.t != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return cur().concretise(self.t, self.lo, self.hi)

    def __int__(self):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, nd=None):
        return self

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "SymInt(%s)" % (self.t,)

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic integer")

    def _bin(self, o, f, lo=None, hi=None):
        n = num(o)
        if n is None:
            return NotImplemented
        return f(n)

    def __add__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        t, lo, hi, i = n
        if i:
            if lo == 0 == hi:
                return self
            return mkint(self.t + t, _add(self.lo, lo), _add(self.hi, hi))
        return mkreal(z3.ToReal(self.t) + t)

    __radd__ = __add__

    def __neg__(self):
        return mkint(-self.t, None if self.hi is None else -self.hi, None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo is not None and self.lo >= 0:
            return self
        hi = None
        if self.lo is not None and self.hi is not None:
            hi = max(abs(self.lo), abs(self.hi))
        return mkint(z3.If(self.t >= 0, self.t, -self.t), 0, hi)

    def __sub__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        t, lo, hi, i = n
        if i:
            if lo == 0 == hi:
                return self
            return mkint(
                self.t - t,
                None if self.lo is None or hi is None else self.lo - hi,
                None if self.hi is None or lo is None else self.hi - lo,
            )
        return mkreal(z3.ToReal(self.t) - t)

    def __rsub__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        if type(o) is int:
            return SymInt(z3.IntVal(o), o, o) - self
        return mkreal(n[0] - z3.ToReal(self.t))

    def __mul__(self, o):
        n = num(o)
        if n is None:
            return NotImplemented
        t, lo, hi, i = n
        if i:
            rl = rh = None
            if None not in (self.lo, self.hi, lo, hi):
                c = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
                rl, rh = min(c), max(c)
            return mkint(self.t * t, rl, rh)
        return mkreal(z3.ToReal(self.t) * t)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return sym_div(self, o)

    def __rtruediv__(self, o):
        return sym_div(o, self)

    def __floordiv__(self, o):
        n = num(o)
        if n is None or not n[3]:
            return NotImplemented
        if type(o) is int and o > 0:
            return mkint(self.t / o, None if self.lo is None else self.lo // o, None if self.hi is None else self.hi // o)
        return self.__index__() // (o.__index__() if type(o) is SymInt else o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.t % o, 0, o - 1)
        return self.__index__() % (o.__index__() if type(o) is SymInt else o)

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 3:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** (o.__index__() if type(o) is SymInt else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        return self.__index__() & o

    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | o

    __ror__ = __or__

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self.__index__() >> o

    def __cmp(self, o, op):
        n = num(o)
        if n is None:
            return NotImplemented
        t, lo, hi, i = n
        a = self.t if i else z3.ToReal(self.t)
        if i and None not in (self.lo, self.hi, lo, hi):
            if op == "<":
                if self.hi < lo:
                    return True
                if self.lo >= hi:
                    return False
            elif op == "<=":
                if self.hi <= lo:
                    return True
                if self.lo > hi:
                    return False
            elif op == "==":
                if self.hi < lo or self.lo > hi:
                    return False
        if op == "<":
            r = a < t
        elif op == "<=":
            r = a <= t
        else:
            r = a == t
        return mkbool(_simp(r))

    def __eq__(self, o):
        return self.__cmp(o, "==")

    def __ne__(self, o):
        r = self.__cmp(o, "==")
        return r if r is NotImplemented else mkbool(tnot(bterm(r)))

    def __lt__(self, o):
        return self.__cmp(o, "<")

    def __le__(self, o):
        return self.__cmp(o, "<=")

    def __gt__(self, o):
        r = self.__cmp(o, "<=")
        return r if r is NotImplemented else mkbool(tnot(bterm(r)))

    def __ge__(self, o):
        r = self.__cmp(o, "<")
        return r if r is NotImplemented else mkbool(tnot(bterm(r)))

    def bit_length(self):
        return self.__index__().bit_length()


SHOWN = {}  # formatted symbolic numbers


class SymReal:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return decide(self.t != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __float__(self):
        raise Unsupported("float() of a symbolic real at a C boundary")

    def __repr__(self):
        return "SymReal(%s)" % (self.t,)

    def __format__(self, spec):
        # a name for the number, so that a check can find it in a page
        name = "real#%d#" % len(SHOWN)
        SHOWN[name] = self
        return name

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def _r(self, o):
        n = num(o)
        if n is None:
            return None
        return z3.ToReal(n[0]) if n[3] else n[0]

    def __add__(self, o):
        r = self._r(o)
        return NotImplemented if r is None else mkreal(self.t + r)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._r(o)
        return NotImplemented if r is None else mkreal(self.t - r)

    def __rsub__(self, o):
        r = self._r(o)
        return NotImplemented if r is None else mkreal(r - self.t)

    def __mul__(self, o):
        r = self._r(o)
        return NotImplemented if r is None else mkreal(self.t * r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return sym_div(self, o)

    def __rtruediv__(self, o):
        return sym_div(o, self)

    def __neg__(self):
        return mkreal(-self.t)

    def __abs__(self):
        return mkreal(z3.If(self.t >= 0, self.t, -self.t))

    def __eq__(self, o):
        r = self._r(o)
        if r is None:
            if type(o) is float:  # inf / nan
                return False
            return NotImplemented
        return mkbool(_simp(self.t == r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(tnot(bterm(r)))

    def __lt__(self, o):
        r = self._r(o)
        if r is None:
            if type(o) is float:
                return o == float("inf")
            return NotImplemented
        return mkbool(_simp(self.t < r))

    def __le__(self, o):
        r = self._r(o)
        if r is None:
            if type(o) is float:
                return o == float("inf")
            return NotImplemented
        return mkbool(_simp(self.t <= r))

    def __gt__(self, o):
        r = self._r(o)
        if r is None:
            if type(o) is float:
                return o == float("-inf")
            return NotImplemented
        return mkbool(_simp(self.t > r))

    def __ge__(self, o):
        r = self._r(o)
        if r is None:
            if type(o) is float:
                return o == float("-inf")
            return NotImplemented
        return mkbool(_simp(self.t >= r))


def _simp(t):
    """t, or its value if it is constant.  t itself is returned and not its
    simplified form, which depends on the order terms were created in."""
    s = z3.simplify(t)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return t


def sym_div(a, b):
    """True division.  Exact rational arithmetic (floats are treated as reals)."""
    na, nb = num(a), num(b)
    if na is None or nb is None:
        return NotImplemented
    bz = _simp(nb[0] == 0)
    if decide(bz):
        raise ZeroDivisionError("division by zero")
    # finite integer ranges: tabulate the quotient, which keeps terms linear
    if na[3] and nb[3] and None not in (na[1], na[2], nb[1], nb[2]):
        n_a, n_b = na[2] - na[1] + 1, nb[2] - nb[1] + 1
        if n_a * n_b <= 600:
            if n_b == 1:
                return mkreal(z3.ToReal(na[0]) / z3.RealVal(nb[1]))
            out = z3.RealVal(0)
            for vb in range(nb[1], nb[2] + 1):
                if vb == 0:
                    continue
                q = z3.ToReal(na[0]) * z3.RealVal(Fraction(1, vb))
                out = z3.If(nb[0] == vb, q, out)
            return mkreal(out)
    ra = z3.ToReal(na[0]) if na[3] else na[0]
    rb = z3.ToReal(nb[0]) if nb[3] else nb[0]
    return mkreal(ra / rb)


def valstr(i):
    """The text standing for opaque value i: value 0 is the empty string."""
    return "v%03d" % i if i else ""


class SymVal:
    """An opaque feature value / text: only equality and order are observable.

    In real mode it becomes a string ordered like its label."""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return str

    def __hash__(self):
        return 7919

    def __eq__(self, o):
        if type(o) is SymVal:
            return mkbool(_simp(self.t == o.t))
        if type(o) is str and o == "":
            return mkbool(_simp(self.t == 0))
        return False

    def __ne__(self, o):
        return mkbool(tnot(bterm(self == o)))

    def __lt__(self, o):
        if type(o) is SymVal:
            return mkbool(_simp(self.t < o.t))
        if isinstance(o, str):
            return mkbool(_simp(self.t == 0)) if o else False
        return NotImplemented

    def __gt__(self, o):
        if type(o) is SymVal:
            return mkbool(_simp(self.t > o.t))
        if isinstance(o, str):
            return mkbool(_simp(self.t > 0))
        return NotImplemented

    def __le__(self, o):
        return mkbool(tnot(bterm(self > o)))

    def __ge__(self, o):
        return mkbool(tnot(bterm(self < o)))

    def __bool__(self):
        return bool(mkbool(_simp(self.t != 0)))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "SymVal(%s)" % (self.t,)

    def __str__(self):
        if z3.is_int_value(self.t):
            return valstr(self.t.as_long())
        toks = _ctx.tokens
        toks.append(self)
        return "\ue000%d\ue001" % (len(toks) - 1)

    def __format__(self, spec):
        return format(str(self), spec)

    def __len__(self):
        raise Unsupported("length of an opaque text")

    def strip(self, *a):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("opaque text has no operation %r" % name)


# --------------------------------------------------------------------------
# merging


def merge(c, a, b):
    """ite(c, a, b) for values; raises Unsupported if they cannot be merged"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    if ta in (bool, SymBool) and tb in (bool, SymBool):
        return mkbool(tite(c, bterm(a), bterm(b)))
    if ta is SymVal and tb is SymVal:
        return SymVal(z3.If(c, a.t, b.t))
    na, nb = num(a), num(b)
    if na is not None and nb is not None:
        if na[3] and nb[3]:
            if ta is int and tb is int and a == b:
                return a
            lo = None if na[1] is None or nb[1] is None else min(na[1], nb[1])
            hi = None if na[2] is None or nb[2] is None else max(na[2], nb[2])
            return mkint(z3.If(c, na[0], nb[0]), lo, hi)
        ra = z3.ToReal(na[0]) if na[3] else na[0]
        rb = z3.ToReal(nb[0]) if nb[3] else nb[0]
        return mkreal(z3.If(c, ra, rb))
    if hasattr(ta, "_sx_merge") and ta is tb:
        return a._sx_merge(c, b)
    if ta is tb and not isinstance(a, (SymInt, SymReal)) and ta in (str, bytes, type(None)) and a == b:
        return a
    raise Unsupported("cannot merge %r and %r" % (ta, tb))


def count_terms(terms):
    """number of true terms, as an int or SymInt"""
    base = 0
    sym = []
    for t in terms:
        if t is True:
            base += 1
        elif t is not False:
            sym.append(t)
    if not sym:
        return base
    one, zero = z3.IntVal(1), z3.IntVal(0)
    s = z3.Sum([z3.If(t, one, zero) for t in sym])
    if base:
        s = s + base
    return SymInt(s, base, base + len(sym))


# --------------------------------------------------------------------------
# builtins that should not force concrete values; injected in the modules under
# test


import builtins as _b


def sym_len(x):
    f = getattr(type(x), "_sx_len", None)
    if f is not None:
        return f(x)
    return _b.len(x)


def _minmax(args, kw, pick, native):
    if kw.get("key") is None and "default" not in kw:
        items = list(args[0]) if len(args) == 1 else list(args)
        if items and all(type(i) in (int, SymInt, float, SymReal) for i in items) and any(
            type(i) in (SymInt, SymReal) for i in items
        ):
            r = items[0]
            for i in items[1:]:
                r = merge(bterm(pick(i, r)), i, r)
            return r
        if len(args) == 1:
            return native(items, **kw)
    return native(*args, **kw)


def sym_min(*args, **kw):
    return _minmax(args, kw, lambda a, b: a < b, _b.min)


def sym_max(*args, **kw):
    return _minmax(args, kw, lambda a, b: a > b, _b.max)


def sym_int(x=0, *a):
    if type(x) is SymInt:
        return x
    return _b.int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.int)


BUILTINS = {"len": sym_len, "min": sym_min, "max": sym_max}


# --------------------------------------------------------------------------
# exploration


def new_stats():
    return {
        "paths": 0,
        "infeasible": 0,
        "decisions": 0,
        "forks": 0,
        "queries": 0,
        "solver_s": 0.0,
        "checks": 0,
        "unsupported": 0,
    }
