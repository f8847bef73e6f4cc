"""Environment stubs used in both modes: background pools, completion order,
random draws.  Every free choice is an input of the scenario (env.pick...)."""
import array as _array
import concurrent.futures as _cf
import copy
import datetime as _dt
import itertools
import multiprocessing as _mp
import pickle
import random as _random
import types

from . import env as E


class Lock:
    def acquire(self, *a, **k):
        return True

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Manager:
    def Lock(self):
        return Lock()

    RLock = Lock

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Cancelled(Exception):
    pass


class Future:
    """A background task.  It runs at a moment the environment chooses, no
    later than when its result is needed."""

    def __init__(self, pool, fn, args, kw):
        self.pool = pool
        self.fn = fn
        self.args = args
        self.kw = kw
        self.state = "pending"
        self._value = self._exc = None
        self.callbacks = []
        self.flip = E.env().flip

    def __hash__(self):
        # sets of tasks have no order a program may rely on
        return -1 - self.seq if self.flip else self.seq

    def __eq__(self, o):
        return self is o

    def run(self):
        if self.state != "pending":
            return
        self.state = "running"
        try:
            # What a task is given is copied when a worker takes it, which may be
            # long after it was submitted.
            fn, args, kw = self.fn, ship(self.args), ship(self.kw)
            hav = E.env().havoc.get(getattr(fn, "__name__", None))
            if hav is not None:
                fn = hav
            if E.env().job_hook is not None:
                E.env().job_hook(fn)
            self._value = ship(fn(*args, **kw))
        except Exception as e:
            self._exc = e
        self.state = "done"
        if self in self.pool.pending:
            self.pool.pending.remove(self)
        E.env().completed.append(self)
        for cb in self.callbacks:
            cb(self)

    def result(self, timeout=None):
        self.run()
        if self.state == "cancelled":
            raise _cf.CancelledError()
        if self._exc is not None:
            raise self._exc
        return self._value

    def exception(self, timeout=None):
        self.run()
        return self._exc

    def done(self):
        return self.state in ("done", "cancelled")

    def running(self):
        return False

    def cancelled(self):
        return self.state == "cancelled"

    def cancel(self):
        if self.state == "pending":
            self.state = "cancelled"
            self.pool.pending.remove(self)
            return True
        return False

    def add_done_callback(self, cb):
        if self.done():
            cb(self)
        else:
            self.callbacks.append(cb)


def ship(x):
    """what crosses a process boundary is copied"""
    if E.env().symbolic:
        return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x))


class Pool:
    """stands for ProcessPoolExecutor"""

    def __init__(self, max_workers=2, mp_context=None, **kw):
        self._max_workers = max_workers or 2
        self.pending = []
        self.down = False
        self.counter = itertools.count()

    def submit(self, fn, *args, **kw):
        if self.down:
            raise RuntimeError("cannot schedule new futures after shutdown")
        e = E.env()
        if e.submit_hook is not None:
            e.submit_hook(fn)
        f = Future(self, ship(fn) if not isinstance(fn, types.FunctionType) else fn, args, kw)
        f.seq = next(e.fseq)
        self.pending.append(f)
        if e.eager(f):
            f.run()
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        run_all(fs)

        def results():
            for f in fs:
                yield f.result()

        return results()

    def shutdown(self, wait=True, cancel_futures=False):
        self.down = True
        if not cancel_futures:
            for f in list(self.pending):
                f.run()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def order_next(fs):
    """The environment chooses which of these futures completes next."""
    fs = list(fs)
    return E.env().next_future(fs)


def run_all(fs):
    todo = [f for f in fs if not f.done()]
    while todo:
        f = order_next(todo)
        f.run()
        todo = [f for f in todo if not f.done()]


def as_completed(fs, timeout=None):
    todo = []
    for f in fs:
        if f not in todo:
            todo.append(f)
    todo.sort(key=lambda f: f.seq)
    while todo:
        f = order_next(todo)
        f.run()
        todo.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = sorted(set(fs), key=lambda f: f.seq)
    if return_when == "ALL_COMPLETED":
        run_all(fs)
    elif fs and not any(f.done() for f in fs):
        order_next(fs).run()
        if return_when == "FIRST_EXCEPTION":
            while not all(f.done() for f in fs) and not any(f.done() and f._exc for f in fs):
                order_next([f for f in fs if not f.done()]).run()
    r = _cf._base.DoneAndNotDoneFutures(
        set(f for f in fs if f.done()), set(f for f in fs if not f.done())
    )
    return r


class Random:
    """draws are inputs of the scenario"""

    def __init__(self, seed=None):
        self.seed(seed)

    def seed(self, a=None, version=2):
        # what this generator was asked for so far
        self.seed_value, self.asked = a, ()

    def _draw(self, n):
        return E.env().draw(n, self)

    def getstate(self):
        return ()

    def setstate(self, s):
        pass

    def random(self):
        return E.env().draw_real(self)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randrange(self, a, b=None):
        if b is None:
            a, b = 0, a
        return a + self._draw(b - a)

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def choice(self, seq):
        n = len(seq)
        if not n:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._draw(int(n))]

    def choices(self, seq, k=1, **kw):
        return [self.choice(seq) for _ in range(k)]

    def shuffle(self, x):
        n = len(x)
        for i in range(n - 1, 0, -1):
            j = self._draw(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, population, k, counts=None):
        if isinstance(population, (set, frozenset)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        n = len(population)
        n, k = n.__index__(), k.__index__()
        if not 0 <= k <= n:
            raise ValueError("Sample larger than population or is negative")
        left = list(range(n))
        out = []
        for _ in range(k):
            out.append(population[left.pop(self._draw(len(left)))])
        return out


class SymArray(list):
    """array.array with symbolic numbers as elements"""

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        items = list(init)
        for x in items:
            self._ok(x)
        list.__init__(self, items)

    def _ok(self, x):
        if self.typecode in "bBhHiIlLqQ" and not isinstance(x, int):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        if self.typecode in "fd" and not isinstance(x, (int, float)):
            raise TypeError("must be real number, not %s" % type(x).__name__)

    def append(self, x):
        self._ok(x)
        list.append(self, x)

    def __setitem__(self, i, x):
        if not isinstance(i, slice):
            self._ok(x)
        list.__setitem__(self, i, x)

    def __deepcopy__(self, memo):
        return SymArray(self.typecode, [copy.deepcopy(x) for x in self])

    def __reduce__(self):
        return (SymArray, (self.typecode, list(self)))


_made = {}


def _module(name, base, **over):
    m = _made.get(name)
    if m is None:
        m = types.ModuleType(name)
        m.__dict__.update({k: v for k, v in base.__dict__.items() if not k.startswith("__")})
        m.__dict__.update(over)
        _made[name] = m
    return m


def replacement(name, sqlite3):
    if name == "concurrent.futures":
        return _module(
            name, _cf, ProcessPoolExecutor=Pool, ThreadPoolExecutor=Pool, as_completed=as_completed, wait=wait
        )
    if name == "multiprocessing":
        return _module(name, _mp, Manager=Manager, Lock=Lock, get_context=lambda m=None: None)
    if name == "random":
        r = Random()
        return _module(
            name,
            _random,
            Random=Random,
            **{n: getattr(r, n) for n in ("random", "choice", "shuffle", "sample", "randint", "randrange")}
        )
    if name == "sqlite3":
        return sqlite3
    if name == "array" and E.symbolic_process():
        return _module(name, _array, array=SymArray)
    if name == "datetime" and E.symbolic_process():
        from . import symdt

        return _module(name, _dt, **{c.__name__: s for c, s in symdt.CLASSES.items()})
    return None


_objects = {}


def replace_object(v):
    try:
        if v is _random.Random:
            return Random
        if v is _cf.ProcessPoolExecutor or v is _cf.ThreadPoolExecutor:
            return Pool
        if v is _cf.as_completed:
            return as_completed
        if v is _cf.wait:
            return wait
        if E.symbolic_process() and v is _array.array:
            return SymArray
        if E.symbolic_process() and any(v is c for c in (_dt.datetime, _dt.date, _dt.time, _dt.timedelta)):
            from . import symdt

            return symdt.CLASSES[v]
    except Exception:
        pass
    return None
