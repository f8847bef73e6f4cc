"""C25: time buckets truncate correctly."""
import datetime as dt

from engine import hr
from . import common as K

BOUNDS = {
    "quick": "every two timestamps of the years 1 to 9999 with microseconds, naive or in one of three fixed time zones, with either fold",
    "thorough": "as quick",
}
ASSUMPTIONS = ["Time zones are fixed offsets or absent (what isoparse returns for the supported corpora)."]
UNITS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
FIRST = (1, 1, 1, 0, 0, 0, 0)
GRAINS = ("year", "month", "day", "hour", "minute")
ZONES = [None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=30)), dt.timezone(-dt.timedelta(hours=9, minutes=30))]


def stamp(env, n):
    y, mo = env.int(n + ".year", 1, 9999), env.int(n + ".month", 1, 12)
    d = env.int(n + ".day", 1, 31)
    leap = env.and_(env.eq(y % 4, 0), env.or_(env.not_(env.eq(y % 100, 0)), env.eq(y % 400, 0)))
    short = env.or_(*[env.eq(mo, i) for i in (4, 6, 9, 11)])
    env.assume(env.le(d, env.ite(env.eq(mo, 2), env.ite(leap, 29, 28), env.ite(short, 30, 31))))
    h, mi, s, us = env.int(n + ".hour", 0, 23), env.int(n + ".minute", 0, 59), env.int(n + ".second", 0, 59), env.int(n + ".us", 0, 999999)
    tz, fold = ZONES[env.pick(n + ".zone", len(ZONES))], env.pick(n + ".fold", 2)
    if env.symbolic:
        from engine.symdt import SymDT

        return SymDT(y, mo, d, h, mi, s, us, tz, fold)
    return dt.datetime(y, mo, d, h, mi, s, us, tz, fold=fold)


def parts(x):
    return [getattr(x, u) for u in UNITS]


def buckets(env, t, label=""):
    r = hr.utilities.round_datetime(t)
    env.check(sorted(r) == sorted(GRAINS), label + "one bucket for each granularity")
    return {g: r[g] for g in GRAINS if g in r}


def run_truncate(env):
    t = stamp(env, "t")
    r = buckets(env, t)
    for g, b in r.items():
        n = UNITS.index(g) + 1
        env.check(env.same(parts(b), parts(t)[:n] + list(FIRST[n:])), g + ": the latest start of a bucket not after the timestamp")
        env.check(b.tzinfo == t.tzinfo, g + ": in the timestamp's own time zone")
        for g2, b2 in buckets(env, b).items():
            if UNITS.index(g2) >= UNITS.index(g):
                env.check(env.same(parts(b2), parts(b)), "bucketing the start of a bucket returns it")
    env.check(isinstance(t, dt.datetime) and all(isinstance(b, dt.datetime) for b in r.values()), "buckets are datetimes")
    env.observe("buckets", {g: parts(b) for g, b in r.items()})
    env.reach("truncated")


def run_agree(env):
    a, b = stamp(env, "a"), stamp(env, "b")
    env.assume(a.tzinfo == b.tzinfo)
    ra, rb = buckets(env, a), buckets(env, b)
    for g in GRAINS:
        if g in ra and g in rb:
            n = UNITS.index(g) + 1
            env.check(
                env.iff(env.same(parts(ra[g]), parts(rb[g])), env.same(parts(a)[:n], parts(b)[:n])),
                g + ": the same bucket exactly when all components down to it agree",
            )
    env.reach("compared")


SCENARIOS = {
    "truncate": {"run": run_truncate, "quick": [dict()], "reach": ["truncated"]},
    "agree": {"run": run_agree, "quick": [dict()], "reach": ["compared"]},
}
