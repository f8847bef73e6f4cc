"""What a scenario sees: inputs, assumptions, checks, observations.

The same scenario code runs symbolically (SymEnv: inputs are solver variables,
checks become assertions) and on the real code (RealEnv: inputs come from a
model).  Free choices of the environment - completion order, random draws, fault
points - are inputs like any other."""
import contextlib
import itertools
import os
import shutil
import tempfile
from fractions import Fraction

_env = None


def env():
    return _env


def set_env(e):
    global _env
    _env = e


def symbolic_process():
    from . import hr

    return hr.SYMBOLIC


class CheckFailed(Exception):
    """stops a scenario after a check that makes the rest meaningless"""


class AssumeFailed(BaseException):
    pass


class Fault(Exception):
    """an injected failure"""


SCRATCH = os.environ.get("HRSYM_SCRATCH") or (
    "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
)


class EnvBase:
    symbolic = False

    def __init__(self):
        self.used = {}
        self.obs = []
        self.checks = []
        self.havoc = {}
        self.submit_hook = None
        self.job_hook = None
        self.completed = []
        self.fseq = itertools.count()
        self.schedule = "fixed"
        self.flip = False
        self.draws = "free"
        self._tmp = None
        self.undo = []
        self.reached = set()

    # -- naming
    def name(self, n):
        k = self.used.get(n, 0)
        self.used[n] = k + 1
        return n if k == 0 else "%s#%d" % (n, k)

    # -- scratch space
    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="hrsym.", dir=SCRATCH)
        return tempfile.mkdtemp(dir=self._tmp)

    def close(self):
        for f in reversed(self.undo):
            f()
        self.undo = []
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    def patch(self, obj, attr, value):
        old = getattr(obj, attr)
        setattr(obj, attr, value)
        self.undo.append(lambda: setattr(obj, attr, old))

    # -- environment choices
    def eager(self, f):
        if self.schedule == "free":
            return self.pick("eager", 2) == 0
        return self.schedule == "eager"

    def next_future(self, fs):
        if self.schedule in ("free", "order") and len(fs) > 1:
            return fs[self.pick("order", len(fs))]
        if self.schedule == "last":
            return fs[-1]
        if callable(self.schedule) and len(fs) > 1:
            return fs[self.schedule(len(fs))]
        return fs[0]

    def draw(self, n, rng=None):
        if self.draws == "first" or n == 1:
            return 0
        if callable(self.draws):
            return self.draws(n, rng)
        return self.pick("draw", n)

    def draw_real(self, rng=None):
        if self.draws == "first":
            return 0.25
        if callable(self.draws):
            return self.draws(None, rng)
        r = self.real("u", 0, 1)
        self.assume(r < 1)
        return r

    # -- connectives over bool / symbolic bool
    def not_(self, a):
        return not a

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def reach(self, label):
        self.reached.add(label)

    def stale(self, x):
        """Does the exception say that the scenario no longer fits the code
        (a name it uses is gone or called differently), rather than that the
        code failed?"""
        tb = x.__traceback__
        if tb is None:
            return False
        while tb.tb_next is not None:
            tb = tb.tb_next
        if os.sep + "checks" + os.sep not in tb.tb_frame.f_code.co_filename:
            return False
        if isinstance(x, (AttributeError, ImportError)):
            return True
        return isinstance(x, TypeError) and any(
            w in str(x) for w in ("unexpected keyword argument", "object is not callable", "required positional argument", "positional arguments but")
        )

    # -- structural equality
    def same(self, a, b):
        from . import hr

        AB = hr.AbstractBitMap
        if isinstance(a, AB) or isinstance(b, AB):
            if not (isinstance(a, AB) and isinstance(b, AB)):
                return False
            return self.bm_eq(a, b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
                return False
            return self.and_(*[self.same(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
                return False
            return self.and_(
                *[
                    self.or_(*[self.and_(self.same(k, k2), self.same(v, v2)) for k2, v2 in b.items()])
                    for k, v in a.items()
                ]
            )
        if isinstance(a, (set, frozenset)) or isinstance(b, (set, frozenset)):
            if not (isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset))):
                return False
            return self.and_(self.subset(a, b), self.subset(b, a))
        if a is None or b is None:
            return a is b
        return self.eq(a, b)

    def subset(self, a, b):
        return self.and_(*[self.or_(*[self.same(x, y) for y in b]) for x in a])

    def same_multiset(self, a, b):
        """equal up to order (elements pairwise comparable)"""
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        return self.and_(
            *[
                self.eq(self.count([self.same(x, y) for y in a]), self.count([self.same(x, y) for y in b]))
                for x in a + b
            ]
        )

    def member(self, x, xs):
        return self.or_(*[self.same(x, y) for y in xs])


class RealEnv(EnvBase):
    symbolic = False

    def __init__(self, inputs):
        EnvBase.__init__(self)
        self.inputs = inputs
        self.failed = []
        self.missing = []

    def _get(self, n, default):
        n = self.name(n)
        if n not in self.inputs:
            self.missing.append(n)
            return default
        return self.inputs[n]

    def bool(self, n):
        return bool(self._get(n, False))

    def int(self, n, lo, hi):
        return int(self._get(n, lo))

    def pick(self, n, k):
        return int(self._get(n, 0))

    def real(self, n, lo, hi):
        return float(Fraction(self._get(n, str(lo))))

    def val(self, n, k):
        return self.vconst(int(self._get(n, 0)))

    def vconst(self, i):
        return "v%03d" % i if i else ""

    def bits(self, n, size, base=0):
        from . import hr

        return hr.BitMap([base + i for i in range(size) if self._get("%s[%d]" % (n, i), False)])

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label):
        if not c:
            self.failed.append(label)
        return bool(c)

    def fail(self, label):
        self.failed.append(label)

    def observe(self, label, v):
        self.obs.append((label, jsonable(v)))

    def is_possible(self, c):
        return bool(c)

    def concrete(self, x):
        return x

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def ite(self, c, a, b):
        return a if c else b

    def count(self, xs):
        return sum(1 for x in xs if x)

    def eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            try:
                return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
            except TypeError:
                return False
        return a == b

    def le(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            return a <= b + 1e-9 * max(1, abs(a), abs(b))
        return a <= b

    def bm_eq(self, a, b):
        return set(a) == set(b)

    def bit(self, bm, i):
        return i in bm

    def mkbits(self, terms, base=0):
        from . import hr

        return hr.BitMap([base + i for i, t in enumerate(terms) if t])

    def faults(self, hook):
        from . import faults

        faults.hook = hook

    def close(self):
        from . import faults

        faults.hook = None
        EnvBase.close(self)


def jsonable(v):
    """canonical JSON form of a concrete value"""
    from . import hr

    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (float, Fraction)):
        return round(float(v), 6) + 0.0
    if isinstance(v, hr.AbstractBitMap):
        return ["bm"] + sorted(int(x) for x in v)
    if isinstance(v, dict):
        return ["dict"] + sorted(([jsonable(k), jsonable(x)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((jsonable(x) for x in v), key=repr)
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, BaseException):
        return type(v).__name__
    return "<%s>" % type(v).__name__
