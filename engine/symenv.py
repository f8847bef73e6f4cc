"""The symbolic environment of one path."""
from fractions import Fraction

import z3

from . import core, env as E, bitmap
from .core import bterm, mkbool, tand, tor, tnot, tite, SymInt, SymReal, SymVal, SymBool


class SymEnv(E.EnvBase):
    symbolic = True

    def __init__(self, ctx):
        E.EnvBase.__init__(self)
        self.ctx = ctx
        self.inputs = {}  # name -> (kind, term)

    # -- inputs
    def _new(self, n, kind, sort):
        n = self.name(n)
        t = z3.Const(n, sort)
        self.inputs[n] = (kind, t)
        return t

    def bool(self, n):
        return SymBool(self._new(n, "bool", z3.BoolSort()))

    def int(self, n, lo, hi):
        if lo == hi:
            n = self.name(n)
            self.inputs[n] = ("const", lo)
            return lo
        t = self._new(n, "int", z3.IntSort())
        self.ctx.add(z3.And(t >= lo, t <= hi))
        return SymInt(t, lo, hi)

    def pick(self, n, k):
        assert k >= 1
        if k == 1:
            n = self.name(n)
            self.inputs[n] = ("const", 0)
            return 0
        t = self._new(n, "int", z3.IntSort())
        self.ctx.add(z3.And(t >= 0, t < k))
        return self.ctx.concretise(t, 0, k - 1)

    def real(self, n, lo, hi):
        t = self._new(n, "real", z3.RealSort())
        self.ctx.add(z3.And(t >= lo, t <= hi))
        return SymReal(t)

    def val(self, n, k):
        t = self._new(n, "int", z3.IntSort())
        self.ctx.add(z3.And(t >= 0, t < k))
        return SymVal(t)

    def vconst(self, i):
        return SymVal(z3.IntVal(i))

    def bits(self, n, size, base=0):
        d = {}
        for i in range(size):
            d[base + i] = self._new("%s[%d]" % (n, i), "bool", z3.BoolSort())
        return bitmap.BitMap._of(d)

    # -- logic
    def assume(self, c):
        t = bterm(c)
        if t is False and any(x is not True for _, x in self.checks):
            # what was checked until here still counts
            raise E.CheckFailed()
        self.ctx.assume(t)

    def check(self, c, label):
        t = bterm(c)
        self.checks.append((label, t))
        return t

    def fail(self, label):
        self.checks.append((label, False))

    def observe(self, label, v):
        self.obs.append((label, v))

    def is_possible(self, c):
        return self.ctx.feasible(bterm(c))

    def concrete(self, x):
        if type(x) is SymInt:
            return x.__index__()
        return x

    def and_(self, *xs):
        return mkbool(tand(*[bterm(x) for x in xs]))

    def or_(self, *xs):
        return mkbool(tor(*[bterm(x) for x in xs]))

    def not_(self, a):
        return mkbool(tnot(bterm(a)))

    def ite(self, c, a, b):
        return core.merge(bterm(c), a, b)

    def count(self, xs):
        return core.count_terms([bterm(x) for x in xs])

    def eq(self, a, b):
        r = a == b
        if r is NotImplemented:
            return False
        return mkbool(bterm(r))

    def le(self, a, b):
        return mkbool(bterm(a <= b))

    def bm_eq(self, a, b):
        return mkbool(bterm(a == b))

    def bit(self, bm, i):
        return mkbool(bm.d.get(i, False))

    def mkbits(self, terms, base=0):
        return bitmap.BitMap._of({base + i: bterm(t) for i, t in enumerate(terms) if bterm(t) is not False})

    def faults(self, hook):
        from . import symsql

        symsql.world().hook = hook

    # -- models
    def model_inputs(self, m):
        out = {}
        for n, (kind, t) in self.inputs.items():
            if kind == "const":
                out[n] = t
                continue
            v = m.eval(t, model_completion=True)
            if kind == "bool":
                out[n] = z3.is_true(v)
            elif kind == "int":
                out[n] = v.as_long()
            else:
                out[n] = _frac(v)
        return out

    def model_obs(self, m):
        return [(l, self.value(v, m)) for l, v in self.obs]

    def value(self, v, m):
        if type(v) is SymBool:
            return z3.is_true(m.eval(v.t, model_completion=True))
        if type(v) is SymInt:
            return m.eval(v.t, model_completion=True).as_long()
        if type(v) is SymReal:
            return round(float(Fraction(_frac(m.eval(v.t, model_completion=True)))), 6) + 0.0
        if type(v) is SymVal:
            return core.valstr(m.eval(v.t, model_completion=True).as_long())
        if isinstance(v, bitmap.AbstractBitMap):
            return ["bm"] + sorted(
                int(x) for x in bitmap.concrete(v, lambda t: z3.is_true(m.eval(core.zb(t), model_completion=True)))
            )
        if isinstance(v, dict):
            return ["dict"] + sorted(([self.value(k, m), self.value(x, m)] for k, x in v.items()), key=repr)
        if isinstance(v, (set, frozenset)):
            return ["set"] + sorted((self.value(x, m) for x in v), key=repr)
        if isinstance(v, (list, tuple)):
            return [self.value(x, m) for x in v]
        return E.jsonable(v)


def _frac(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    return str(v.as_fraction()) if hasattr(v, "as_fraction") else str(v)
