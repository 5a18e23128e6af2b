"""Datetimes: epochs as Julian years, conversions to and from minutes."""
import math
import re
import time
from fractions import Fraction

import z3

from sgp import *
import intconv
import native
import strmodels

CRATES = ("harness", "sgp4", "chrono", "num_traits")


class Run:
    def __init__(self, fn, args, out=8, overrides=None):
        ex = self.ex = Engine(build.modules("std", CRATES), strmodels.ALL)
        ex.feas = smt.feasible_near
        for name in ex.byname:
            for pat, model in (overrides or {}).items():
                if re.search(pat, name):
                    ex.overrides[name] = model
        st = St()
        o = ex.new_obj(st, out, "out")
        for i in range(0, out, 8):
            ex.store_prim(st, ptr(o, i), 8, bv(0, 64))
        self.tag, s = ex.run(fn, list(args) + [ptr(o)], st)
        if s is None:
            raise EngineError(fn + " never returns")
        self.panics = list(ex.panics)
        self.get = lambda i, sort: ex.load_prim(s, ptr(o, 8 * i), 8, sort)


def moment(k=""):
    """a symbolic datetime: year (19 bits, signed), ordinal (9 bits), seconds (17 bits), nanoseconds (30 bits)"""
    y, o, s, n = [var(x + k, w) for x, w in (("y", 19), ("o", 9), ("s", 17), ("n", 30))]
    return [mk_sext(y, 32), mk_zext(o, 32), mk_zext(s, 32), mk_zext(n, 32)]


def bvdays(y, o):
    """the calendar distance from 2000-01-01 in 64-bit arithmetic (positive years)"""
    y, o = mk_zext(y, 64), mk_zext(o, 64)
    p = mk_sub(y, bv(1, 64))
    d = lambda k: mk_bin("udiv", p, bv(k, 64))
    return mk_add(mk_add(mk_mul(p, bv(365, 64)), mk_sub(d(4), d(100))), mk_add(mk_add(d(400), o), bv(-730120 % 2 ** 64, 64)))


def bvvalid(k="", lo=1901, hi=2099):
    """1901..2099, where a leap year is a multiple of four"""
    y, o, s, n = [var(x + k, w) for x, w in (("y", 19), ("o", 9), ("s", 17), ("n", 30))]
    lim = mk_ite(mk_eq(mk_extract(y, 1, 0), bv(0, 2)), bv(367, 9), bv(366, 9))
    return mk_and(mk_not(mk_ult(y, bv(lo, 19))), mk_ult(y, bv(hi + 1, 19)), mk_not(mk_eq(o, bv(0, 9))), mk_ult(o, lim),
                  mk_ult(s, bv(86400, 17)), mk_ult(n, bv(10 ** 9, 30)))


def bvcheck(*terms):
    cv = smt.Conv("uf")
    sv = z3.Solver()
    for t in terms:
        sv.add(cv(t))
    return sv, cv


def at(t, env):
    """value of an integer term at a point"""
    sub = {x.id: bv(env[x.aux] % 2 ** x.sort, x.sort) for x in tm.topo([t]) if x.op == "v" and x.aux in env}
    r = tm.subst([t], sub)[0]
    return r.aux if is_c(r) else None


# ------------------------------------------------------------------ C08
def date_of(day):
    """year and ordinal of a day number relative to 2000-01-01"""
    import datetime
    d = datetime.date(2000, 1, 1) + datetime.timedelta(days=day)
    return d.year, d.timetuple().tm_yday


def day_of(y, o):
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400 + o - 1 - 730119


FUNCTIONS = ("julian_years_since_j2000", "julian_years_since_j2000_afspc_compatibility_mode", "Elements::epoch", "Elements::epoch_afspc_compatibility_mode")
TOLERANCE = (Fraction(1, 10 ** 13), Fraction(1, 10 ** 11))


def native_epoch(which, rows):
    res = native.run([("impl_epoch", "u32", [("u32", which)] + [("u32", x) for x in r] + [("o", [native.hx(0.0)])]) for r in rows])
    return res


def replay_epoch(chk, w, rows):
    """first row whose native result is off"""
    for r, got in zip(rows, native_epoch(w, rows)):
        y, o, s, n = r
        exact = (day_of(y, o) * 86400 + s - 43200 + Fraction(n, 10 ** 9)) / Fraction(31557600)
        if got[0] != "ok":
            return r, got[0]
        if got[1] != 0:
            return r, "rejected"
        x = got[2][0][0]
        if x != x or abs(Fraction(x) - exact) > TOLERANCE[w % 2]:
            return r, "%r, expected %.15f" % (x, float(exact))
    return None


def C08(chk):
    chk.bound("years 1901 to 2099, every day, second and nanosecond")
    chk.assume(
        "chrono's date representation is executed as compiled; leap seconds (nanoseconds above 10^9) are outside",
        "every rounded operation has an error of at most half an ulp of the largest value it can take",
        "tolerance 1e-13 years (accurate), 1e-11 years (AFSPC, whose days are counted from -4712)",
    )
    y, o = var("y", 19), var("o", 9)
    spec = bvdays(y, o)
    dom = bvvalid()
    done = {}
    for w, name in enumerate(FUNCTIONS):
        r = Run("impl_epoch", [bv(w, 32)] + moment())
        chk.encoded(r.ex)
        out = r.get(0, "F")
        panic = mk_or(*[p.cond for p in r.panics]) if r.panics else FALSE
        key = (out.id, r.tag.id, panic.id)
        if key in done:
            chk.obligation("%s is %s" % (name, done[key][0]), done[key][1])
            continue
        rows = []
        ok = True

        def ask(what, sv, read, side=()):
            v = smt.check_hard(sv, 120000)
            if v == z3.unsat:
                chk.obligation("%s: %s" % (name, what), True)
                return True
            cand = list(SAMPLES)
            if v == z3.sat:
                m = smt.model_hard(sv, 60000, read)
                if m:
                    cand.insert(0, m)
            bad = replay_epoch(chk, w, cand)
            if bad:
                chk.violation("%s(year %d, day %d, second %d, nanosecond %d): %s" % ((name,) + tuple(bad[0]) + (bad[1],)), {"datetime": list(bad[0]), "function": name})
            chk.obligation("%s: %s" % (name, what), False if bad else None, str(v))
            return False

        for what, goal in (("no panic", panic), ("every datetime has an epoch", mk_not(mk_eq(r.tag, bv(0, 32))))):
            sv, cv = bvcheck(dom, goal)
            vs = [cv(var(x, k)) for x, k in (("y", 19), ("o", 9), ("s", 17), ("n", 30))]
            ok &= ask(what, sv, lambda m: [m.eval(v, True).as_long() for v in vs])
        # the day count: an integer that is the calendar distance plus a constant
        D = z3.Int("D")
        S = {k: z3.Int(k) for k in "sn"}
        leaves = {}
        ints = [t for t in tm.topo([out]) if t.op in ("sitofp", "uitofp") and smt.vars_of(t) & {"y", "o"}]
        for t in ints:
            x = (mk_sext if t.op == "sitofp" else mk_zext)(t.args[0], 64)
            # affine form a * days + b * seconds + c, read off at four points
            p = [at(x, e) for e in ({"y": 2000, "o": 1, "s": 0, "n": 0}, {"y": 2000, "o": 2, "s": 0, "n": 0}, {"y": 2000, "o": 1, "s": 1, "n": 0})]
            if None in p:
                continue
            p = [tm.sgn(v, 64) for v in p]
            c, a, b = p[0], p[1] - p[0], p[2] - p[0]
            form = mk_add(mk_add(mk_mul(spec, bv(a, 64)), mk_mul(mk_zext(var("s", 17), 64), bv(b, 64))), bv(c, 64))
            sv, cv = bvcheck(dom, mk_not(mk_eq(x, form)))
            vs = [cv(var(v, k)) for v, k in (("y", 19), ("o", 9), ("s", 17), ("n", 30))]
            if ask("day count equals the calendar for every date", sv, lambda m: [m.eval(v, True).as_long() for v in vs]):
                lo, hi = -36159, 36524
                e = a * D + b * S["s"] + c
                v = [a * lo, a * hi, a * lo + b * 86399, a * hi + b * 86399]
                leaves[t.id] = (z3.ToReal(e), min(v) + c, max(v) + c)
            else:
                ok = False
        if any(t.id not in leaves for t in ints):
            chk.obligation("%s: distance from J2000" % name, None, "day count not recognised")
            done[key] = (name, None)
            continue
        cv = intconv.IntConv(leaves, {"s": (0, 86399), "n": (0, 10 ** 9 - 1)})
        # the value of valid datetimes only
        got = cv(valued(out))
        s, n = [cv.vars.get(k, S[k]) for k in "sn"]
        exact = (z3.ToReal(D * 86400 + s - 43200) + z3.ToReal(n) / 10 ** 9) / 31557600
        tol = intconv.rat(TOLERANCE[w % 2])
        sv = z3.Solver()
        sv.add(*cv.side)
        sv.add(D >= -36159, D <= 36524, S["s"] >= 0, S["s"] <= 86399, S["n"] >= 0, S["n"] < 10 ** 9)
        sv.add(z3.Or(got - exact > tol, exact - got > tol))

        def read(m):
            d = m.eval(D, True).as_long()
            return list(date_of(d)) + [m.eval(s, True).as_long(), m.eval(n, True).as_long()]

        ok &= ask("distance from J2000", sv, read)
        done[key] = (name, True if ok else None)
    chk.witness("an epoch is computed", native_epoch(0, [[2000, 1, 43200, 0]])[0][:2] == ("ok", 0))


SAMPLES = [[2000, 1, 43200, 0], [2000, 366, 86399, 999999999], [1999, 365, 1, 1], [1904, 60, 7261, 500000000], [2096, 366, 3599, 999000000],
           [1901, 1, 0, 0], [2099, 365, 86399, 999999999], [2024, 60, 45296, 123456789], [1957, 277, 70104, 250000000]]


# ------------------------------------------------------------------ C19
def fields(ex, st, p):
    return [ex.load_prim(st, ptr_add(p, 4 * i), 4, "i") for i in range(3)]


def ptr_add(p, k):
    return Ptr(tuple((g, o, mk_add(off, bv(k, 64))) for g, o, off in p.cases))


def difference(ex, st, av):
    """NaiveDateTime::signed_duration_since: seconds and nanoseconds as functions of both datetimes"""
    a = fields(ex, st, av[0]) + fields(ex, st, av[1])
    return (mk_uf("diff_seconds", 64, tuple(a)), mk_uf("diff_nanoseconds", 32, tuple(a)))


def addition(ex, st, av):
    """NaiveDateTime::checked_add_signed: a date (0: overflow), seconds and fraction as functions of the operands"""
    a = fields(ex, st, av[1]) + [av[2], av[3]]
    for i, t in enumerate(sums(a)):
        ex.store_prim(st, ptr_add(av[0], 4 * i), 4, t)
    return None


def sums(a):
    """date, seconds of day (17 bits), fraction of second (31 bits)"""
    return [mk_zext(mk_uf(name, w, tuple(a)), 32) if w < 32 else mk_uf(name, w, tuple(a))
            for name, w in (("sum_date", 32), ("sum_seconds", 17), ("sum_fraction", 31))]


MODELS = {r"13NaiveDateTime21signed_duration_since$": difference, r"13NaiveDateTime18checked_add_signed$": addition}

I64 = 2 ** 63
SCALES = (12, 24, 36, 48, 53, 58, 63)


def packed(k=""):
    """how chrono stores the symbolic datetime (read from the code itself)"""
    r = Run("impl_pack", moment(k), 24)
    return [valued(mk_extract(r.get(i, "i"), 31, 0)) for i in range(3)]


def valued(t):
    """the value on valid datetimes (the other branch is the constant the output starts with)"""
    while t.op == "ite" and (is_c(t.args[1]) or is_c(t.args[2])):
        t = t.args[2] if is_c(t.args[1]) else t.args[1]
    return t


def apps(roots, *names):
    return [t for t in tm.topo(roots) if t.op == "uf" and t.aux in names]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def civil(ns):
    """(year, ordinal, second, nanosecond) of nanoseconds since 2000-01-01"""
    sec, n = divmod(ns, 10 ** 9)
    day, s = divmod(sec, 86400)
    c, d = divmod(day, 146097)
    lo, hi = 0, 399
    while lo < hi:
        m = (lo + hi + 1) // 2
        if day_of(2000 + m, 1) <= d:
            lo = m
        else:
            hi = m - 1
    return [2000 + 400 * c + lo, d - day_of(2000 + lo, 1) + 1, s, n]


def stamp(r):
    y, o, s, n = r
    return (day_of(y, o) * 86400 + s) * 10 ** 9 + n


EPOCHS = [[2000, 1, 0, 0], [2020, 194, 76561, 416000], [1957, 277, 70104, 999999999], [-4712, 1, 43200, 1], [2400, 366, 86399, 500000000], [262142, 365, 86399, 999999998], [-262143, 1, 0, 1]]


def bad_minutes(epoch, x):
    """replays datetime -> minutes for epoch + x nanoseconds"""
    to = civil(stamp(epoch) + x)
    if not -262000 < to[0] < 262000:
        return None
    g = native.run([("impl_minutes", "u32", [("u32", v) for v in epoch + to] + [("o", [native.hx(0.0)])])])[0]
    what = None
    if g[0] != "ok":
        what = g[0]
    elif -I64 <= x < I64:
        m = g[2][0][0]
        if g[1] != 0:
            what = "reported as out of range"
        elif not math.isfinite(m) or abs(Fraction(m) * 60 * 10 ** 9 - x) > Fraction(abs(x), 2 ** 51):
            what = "%r minutes for %d ns" % (m, x)
    elif g[1] != 1:
        what = "no error although the distance does not fit"
    return what and "datetime_to_minutes_since_epoch from %r to %r: %s" % (epoch, to, what)


def bad_datetime(epoch, m):
    """replays minutes -> datetime"""
    g = native.run([("impl_datetime", "u32", [("u32", v) for v in epoch] + [("f", native.hx(m)), ("oi", 4)])])[0]
    what = None
    x = Fraction(m) * 60 * 10 ** 9 if math.isfinite(m) else None
    edge = Fraction(I64, 2 ** 50)
    if g[0] != "ok":
        what = g[0]
    elif x is None or abs(x) > I64 + edge:
        what = None if g[1] == 1 else "not reported as an error"
    elif abs(x) < I64 - edge:
        to = civil(stamp(epoch) + round(x))
        if not -262143 <= to[0] <= 262142:
            what = None if g[1] == 2 else "no error although the date does not exist"
        elif g[1] != 0:
            what = "error %d" % g[1]
        else:
            v = [tm.sgn(k, 64) for k in g[2][0]]
            if abs(stamp(v) - stamp(epoch) - x) > Fraction(1, 2) + abs(x) / 2 ** 52 or not 0 <= v[3] < 10 ** 9:
                what = "%r, expected %r" % (v, to)
    return what and "minutes_since_epoch_to_datetime from %r, %r minutes: %s" % (epoch, m, what)


def C19(chk):
    chk.assume(
        "chrono's difference of two datetimes and checked addition of a duration are exact (they are left uninterpreted); everything else, including duration packing and num_nanoseconds, is executed as compiled",
        "every rounded operation has an error of at most half an ulp of the largest value it can take at the scale",
        "leap seconds (nanoseconds above 10^9) are outside",
    )
    chk.bound("every pair of datetimes, years -262143 to 262142", "every binary64 number of minutes; precision at the scales 2^k ns, k = %s" % ", ".join(map(str, SCALES)))
    epoch, to = packed(), packed("2")
    rng = {}
    for k in ("", "2"):
        rng.update({"y" + k: (-262143, 262142), "o" + k: (1, 366), "s" + k: (0, 86399), "n" + k: (0, 10 ** 9 - 1)})
    legal = mk_and(*[mk_ult(var("n" + k, 30), bv(10 ** 9, 30)) for k in ("", "2")])

    def ask(name, sv, read, bad):
        v = smt.check_hard(sv, 100000)
        if v == z3.unsat:
            chk.obligation(name, True)
            return True
        cand = []
        if v == z3.sat:
            m = smt.model_hard(sv, 30000, read)
            if m is not None:
                cand.append(m)
        for c in cand + bad[1]:
            for e in EPOCHS:
                w = bad[0](e, c)
                if w:
                    chk.violation(name + ": " + w, {"epoch": e, "input": c if isinstance(c, int) else float(c).hex()})
                    chk.obligation(name, False)
                    return False
        chk.obligation(name, None, str(v))
        return False

    # ---- datetime -> minutes
    r = Run("impl_minutes", moment() + moment("2"), overrides=MODELS)
    chk.encoded(r.ex)
    out = r.get(0, "F")
    roots = [r.tag, out]
    T = z3.Int("distance")
    xs = [0, 1, -1, 60 * 10 ** 9, -60 * 10 ** 9, 999999999, -999999999, 86400 * 10 ** 9 + 1, -86400 * 10 ** 9 - 1, 1 << 53, I64 - 1, I64, -I64, -I64 - 1,
          (1 << 62) + 12345, -(1 << 62) - 12345, 3 * I64]
    fail = (bad_minutes, xs)
    leaves, contract = {}, []
    found = True
    for t in apps(roots, "diff_seconds", "diff_nanoseconds"):
        sign = 1 if same(t.args[:3], to) and same(t.args[3:], epoch) else -1 if same(t.args[:3], epoch) and same(t.args[3:], to) else 0
        if not sign:
            found = False
            continue
        S, N = z3.Int("seconds%d" % sign), z3.Int("nanoseconds%d" % sign)
        contract += [S * 10 ** 9 + N == sign * T, N >= 0, N < 10 ** 9, S >= -2 * 10 ** 13, S <= 2 * 10 ** 13]
        if t.aux == "diff_seconds":
            leaves[t.id] = (z3.If(S < 0, S + 2 ** 64, S), 0, 2 ** 64 - 1)
        else:
            leaves[t.id] = (N, 0, 10 ** 9 - 1)
    if not found or not leaves:
        chk.obligation("minutes: distance between the datetimes", None, "operands not recognised")
        probe(chk, "minutes", fail)
    else:
        cv = intconv.IntConv(leaves, rng)
        tag = cv(r.tag)
        read = lambda m: m.eval(T, True).as_long()

        def q(name, *g):
            sv = z3.Solver()
            sv.add(*contract, *cv.side, tag != 9, *g)
            return ask(name, sv, read, fail)

        panics(chk, "minutes", r, legal, fail)
        q("minutes: distances that do not fit are errors", z3.Or(T >= I64, T < -I64), tag != 1)
        q("minutes: distances that fit are accepted", T < I64, T >= -I64, tag != 0)
        conv = [t for t in tm.topo([out]) if t.op == "sitofp"]
        sub = {}
        for t in conv:
            if q("minutes: nanoseconds equal the signed distance", tag == 0, cv.signed(t.args[0]) != T):
                sub[t.id] = t
        for k in SCALES if len(sub) == len(conv) else ():
            c2 = intconv.IntConv({i: (z3.ToReal(T) if k <= 53 else z3.ToReal(T) + z3.Real("c%d" % i), -2 ** k, 2 ** k) for i in sub})
            got = c2(valued(out))
            sv = z3.Solver()
            sv.add(*c2.side, T <= 2 ** k, T >= -2 ** k)
            for i in sub:
                e = z3.Real("c%d" % i)
                sv.add(e <= 2 ** max(k - 54, 0), e >= -2 ** max(k - 54, 0))
            d = got * 60 * 10 ** 9 - z3.ToReal(T)
            lim = intconv.rat(Fraction(2) ** (k - 51))
            sv.add(z3.Or(d > lim, d < -lim))
            ask("minutes: value for distances up to 2^%d ns" % k, sv, read, fail)

    # ---- minutes -> datetime
    r = Run("impl_datetime", moment() + [F("m")], 32, overrides=MODELS)
    chk.encoded(r.ex)
    outs = [r.get(i, "i") for i in range(4)]
    roots = [r.tag] + outs
    ms = [0.0, 1.0, -1.0, 0.5, 1e-3, -1e-3, 1439.9999999, -1440.0, 1e-10, -1e-10, 123456.789, -123456.789, 1e8, -1e8, 153722867.0, -153722867.0,
          153722868.0, -153722868.0, 1e300, -1e300, math.inf, -math.inf, math.nan]
    fail = (bad_datetime, ms)
    uses = apps(roots, "sum_date", "sum_seconds", "sum_fraction")
    deltas = {(t.args[3].id, t.args[4].id): (t.args[3], t.args[4]) for t in uses}
    if not uses or not all(same(t.args[:3], epoch) for t in uses) or len(deltas) != 1:
        chk.obligation("datetime: epoch plus a duration", None, "operands not recognised")
        probe(chk, "datetime", fail)
        return
    panics(chk, "datetime", r, legal, fail)
    (ds, dn), = deltas.values()
    # exact binary64 semantics for the verdict
    m = F("m")
    cv = smt.Conv("fp")
    M = cv(m)
    tagv = cv(r.tag)
    date = [t for t in uses if t.aux == "sum_date"]
    fpsort = z3.FPSort(11, 53)
    limit = z3.FPVal(float(I64) / 60e9, fpsort)
    up, down = z3.FPVal(float(I64) / 60e9 * (1 + 2.0 ** -50), fpsort), z3.FPVal(float(I64) / 60e9 * (1 - 2.0 ** -50), fpsort)

    def fread(mm):
        v = mm.eval(z3.fpToIEEEBV(M), True)
        return tm.b2d(v.as_long())

    out_of = z3.Or(z3.fpIsNaN(M), z3.fpGEQ(z3.fpAbs(M), up))
    inside = z3.fpLEQ(z3.fpAbs(M), down)
    none = cv(mk_eq(date[0], bv(0, 32)))
    for name, g in (("datetime: NaN and out-of-range minutes are errors", z3.And(out_of, tagv != 1)),
                    ("datetime: minutes in range are accepted", z3.And(inside, tagv == 1)),
                    ("datetime: overflow of the date is an error", z3.And(inside, none, tagv != 2)),
                    ("datetime: a date in range is returned", z3.And(inside, z3.Not(none), tagv != 0))):
        sv = z3.Solver()
        sv.add(tagv != 9, cv(legal), g)
        ask(name, sv, fread, fail)
    # the returned datetime is the sum
    want = Run("impl_unpack", sums(uses[0].args), 32)
    bcv = smt.Conv("uf")
    for i, what in enumerate(("year", "day", "second", "nanosecond")):
        sv = z3.Solver()
        sv.add(bcv(mk_eq(r.tag, bv(0, 32))), bcv(outs[i]) != bcv(want.get(i, "i")))
        ask("datetime: %s is that of the sum" % what, sv, lambda mm: None, fail)
    for k in SCALES[:-1]:
        lim = Fraction(2 ** k, 60 * 10 ** 9)
        c2 = intconv.IntConv({}, {"m": (-lim, lim)})
        sec, nan = c2.signed(ds), c2(dn)
        c2(m)
        x = c2.vars["m"] * 60 * 10 ** 9
        d = z3.ToReal(sec * 10 ** 9 + nan) - x
        tol = intconv.rat(Fraction(1, 2) + Fraction(2) ** (k - 52))
        sv = z3.Solver()
        sv.add(*c2.side)
        sv.add(z3.Or(d > tol, d < -tol, nan >= 10 ** 9))
        ask("datetime: duration for minutes up to 2^%d ns is the nearest nanosecond" % k, sv, lambda mm: rational(mm.eval(c2.vars["m"], True)), fail)
    chk.witness("minutes convert to a datetime", bad_datetime(EPOCHS[1], 1440.0) is None)


def rational(v):
    return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))


def probe(chk, name, bad):
    for c in bad[1]:
        for e in EPOCHS:
            w = bad[0](e, c)
            if w:
                chk.violation(name + ": " + w, {"epoch": e, "input": c if isinstance(c, int) else float(c).hex()})
                return


def panics(chk, name, r, legal, bad):
    cond = mk_or(*[p.cond for p in r.panics]) if r.panics else FALSE
    sv, _ = bvcheck(legal, cond)
    v = smt.check_hard(sv, 100000)
    if v != z3.unsat:
        probe(chk, name, bad)
    chk.obligation(name + ": no panic", True if v == z3.unsat else None, str(v))
