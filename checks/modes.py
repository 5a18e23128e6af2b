"""Properties about the two propagation modes, the two builds and the sidereal time."""
import math
import random
import time

import mpmath
import z3

from sgp import *
import equiv
import native
import numeric
import numev
import prove

REG = ["near", "deep-slow", "deep-mid", "deep-halfday-round", "deep-fast", "one-day", "half-day"]
ALL = equiv.WANT


# ------------------------------------------------------------------ C04
def spec_low(ex, args, hyp):
    st = St()
    ex.panics = []
    ex.regime = tuple(hyp)
    ex.regime_memo = {}
    low = ex.new_obj(st, 24, "low")
    out = ex.new_obj(st, 64, "out")
    for i in range(3):
        ex.store_prim(st, ptr(low, 8 * i), 8, var("low%d" % i, "F"))
    for c in hyp:
        st.add(c)
    _, s = ex.run("spec_low", list(args) + [ptr(low), ptr(out)], st)
    return [ex.load_prim(s, ptr(low, 8 * i), 8, "F") for i in range(3)]


class Modes:
    """Default against AFSPC mode of the code itself."""

    def __init__(self, chk, ex, name, hyp, sam):
        self.chk, self.name, self.hyp, self.sam = chk, name, prove.realify(list(hyp)), sam
        a = [F(x) for x in NAMES]
        r = {}
        for afspc in (False, True):
            t, o, p, _ = run(ex, "impl_propagate", a + [boolc(afspc)], hyp)
            r["impl", afspc] = prove.realify([t] + o)
        self.r = r
        self.deep = name != "near"
        if self.deep:
            d, f = spec_low(ex, a + [FALSE], hyp), spec_low(ex, a + [TRUE], hyp)
            self.low = prove.realify([d[0], d[1], d[2], f[2]])
        chk.encoded(ex)

    def rows(self, e):
        a = native.floats(e, NAMES)
        o = native.out8()
        res = []
        for who in ("spec", "impl"):
            for afspc in (False, True):
                res.append((who + "_propagate", "u32", a + [("b", afspc), o]))
        res.append(("spec_low", "u32", a + [("b", False), ("o", [native.hx(9.0), native.hx(0.0), native.hx(0.0)]), o]))
        return res

    def look(self, envs):
        """An input on which the two modes differ although they must not."""
        rows = []
        for e in envs:
            rows += self.rows(e)
        res = native.run(rows, timeout=60)
        p = equiv.Problem("", [], [], None, None)
        for j, e in enumerate(envs):
            sd, sa, d, a, low = res[5 * j:5 * j + 5]
            if None in (sd, sa, d, a, low) or low[0] != "ok":
                continue
            inc, node, _ = low[2][0]
            if d[0] != "ok" or a[0] != "ok":
                # a panic or hang in one mode only
                bad = d[0] != a[0]
                why = "default mode %r, AFSPC mode %r" % (d[:2], a[:2])
            elif not self.deep or inc >= 0.2 + 1e-9:
                bad, why = p.differ(d, a), "modes differ at a perturbed inclination of %r rad" % inc if self.deep else "modes differ for a near-Earth orbit"
            elif inc < 0.2 - 1e-9 and node >= 1e-9:
                bad, why = p.differ(d, a), "modes differ with perturbed inclination %r although the node %r is not negative" % (inc, node)
            elif inc < 0.2 - 1e-9 and node < -1e-9:
                bad, why = p.differ(sa, a) and (not p.differ(sd, d) or not p.differ(sd, a)), "AFSPC mode does not use the non-negative node (perturbed inclination %r, node %r)" % (inc, node)
            else:
                bad = False
            if bad and all(numev.ev(tm.topo([h]), e, 60, prove.snap_mp)[h.id] is True for h in self.hyp):
                return e, why, rows[5 * j:5 * j + 5], res[5 * j:5 * j + 5]
        return None

    def solve(self):
        chk = self.chk
        rng = random.Random(chk.seed)
        samples = [self.sam(rng) for _ in range(64)]
        P = prove.Prover(samples, deadline=time.time() + min(120, max(20, chk.left() * 0.3)))
        bad = []

        def used(*roots):
            ids = {c.id for c, n in P.assumed}
            return ids and any(t.id in ids for t in tm.topo(list(roots)))

        def check(label, ok, *roots):
            if ok and not used(*roots):
                chk.obligation("%s: %s" % (self.name, label), True)
            else:
                bad.append("%s: %s" % (self.name, label))

        D0, A0 = self.r["impl", False], self.r["impl", True]
        if not self.deep:
            for i, (x, y) in enumerate(zip(D0, A0)):
                check("modes give the same %s" % ("result kind" if i == 0 else "output %d" % (i - 1)), x is y or P.prove_output(TRUE, x, y))
        else:
            rs = P.reduce(self.low, True)
            inc, node, argd, arga = rs
            D, A = P.reduce(D0), P.reduce(A0)
            lit = mk_fcmp("flt", inc, fc(0.2))
            neg = mk_fcmp("flt", node, fc(0.0))
            low = mk_and(lit, neg)
            # the perigee angles of the two modes agree except for a low inclination and a negative node
            for c, nm in ((mk_not(lit), "perturbed inclination of 0.2 or more"), (mk_and(lit, mk_not(neg)), "node not negative")):
                x, y = prove.given([argd, arga], c)
                check("reference perigee identical in both modes, " + nm, x is y or P.prove_output(c, x, y))
            for i, (x, y) in enumerate(zip(tm.subst(D, {argd.id: arga}), A)):
                check("modes differ only in the corrected perigee, %s" % ("result kind" if i == 0 else "output %d" % (i - 1)),
                      x is y or P.prove_output(TRUE, x, y), x, y)
            tag = {k: sum(1 for s in samples if self.val(lit, s) is k) for k in (True, False)}
            chk.witness("%s: both sides of 0.2 sampled" % self.name, tag[True] and tag[False])
        if bad:
            hit = self.look(samples)
            end = time.time() + 40
            while not hit and time.time() < end:
                hit = self.look([self.sam(rng) for _ in range(1500)])
            if hit:
                e, why, rows, res = hit
                inp = ", ".join("%s=%r" % (k, e[k]) for k in e if not k.startswith("init"))
                chk.violation("%s: %s (%s)" % (self.name, why, inp), {"library": "std", "calls": rows, "results": res, "inputs": e})
            for b in bad:
                chk.obligation(b, False if hit else None)
            if chk.violations:
                raise equiv.Refuted()

    def val(self, t, env):
        return numev.ev(tm.topo([t]), env, 100, prove.snap_mp)[t.id]


def C04(chk):
    chk.assume(numeric.REALS, numeric.SINGLE)
    chk.bound("every geopotential, epoch, sidereal time, drag term and orbit angle; 0 <= e < 1; every result kind (prediction or error)")
    ex = engine()

    def low(sam):
        def f(r):
            e = sam(r)
            if r.random() < 0.5:
                e["inc"] = r.choice([r.uniform(0, 0.19), r.uniform(0.19, 0.21)])
            return e

        return f

    for name, (hyp, sam, text) in numeric.regimes(chk, REG).items():
        chk.bound("%s: %s" % (name, text))
        Modes(chk, ex, name, hyp, low(sam)).solve()


# ------------------------------------------------------------------ C07
def integers_of(t):
    return [x for x in tm.topo([t]) if x.op in ("frem", "ffloor", "ftrunc", "fround", "fceil")]


def C07(chk):
    chk.assume("the value claim is over the reals (rounding of the polynomial is outside it); the range claim is exact binary64 for the final reduction step, with fmod(x, y) any value of magnitude below |y|")
    chk.bound("every epoch in [-200, 200] Julian years from J2000")
    ex = engine()
    e = F("epoch")
    hyp = [le(C(-200.0), e), le(e, C(200.0))]
    for nm, what in (("iau", "IAU"), ("afspc", "AFSPC")):
        st = St()
        ex.panics = []
        a, _ = ex.run("impl_" + nm, [e], St())
        s, _ = ex.run("spec_" + nm, [e], St())
        chk.encoded(ex)
        for p in ex.panics:
            chk.obligation("%s: panic unreachable" % what, None)
        ok = residue(a, s, hyp)
        rng = value_range(a)
        chk.obligation("%s sidereal time equals the published expression modulo one turn" % what, True) if ok else None
        chk.obligation("%s sidereal time lies in [0, one turn]" % what, True) if rng else None
        if not ok or not rng:
            hit = sidereal_search(chk, nm, a, s)
            if hit:
                chk.violation("%s sidereal time at epoch=%r: code %r, published expression modulo one turn %r" % ((what,) + hit), {
                    "library": "std", "call": ["impl_" + nm, hit[0]], "code_result": hit[1], "expected": hit[2]})
            if not ok:
                chk.obligation("%s sidereal time equals the published expression modulo one turn" % what, False if hit else None)
            if not rng:
                chk.obligation("%s sidereal time lies in [0, one turn]" % what, False if hit else None)


def residue(a, s, hyp):
    """a = s + 2 pi k for an integer k, by cases on the comparisons of a."""
    a, s = prove.realify([a, s])
    atoms = integers_of(a)
    own = {x.id for x in integers_of(s)}
    # each fmod(x, y) is x - y*k with integer k; floor and friends are integers themselves
    zc = prove.ZConv({x.id for x in atoms} | own)
    za, zs = zc.q(zc(a)), zc.q(zc(s))
    side, ints = list(prove.PI_AX), []
    for x in atoms:
        if x.op != "frem":
            if x.id not in own:
                ints.append(z3.Real("n!%d" % x.id))
            continue
        k = z3.Real("k!%d" % x.id)
        side.append(z3.Real("n!%d" % x.id) == zc.q(zc(x.args[0])) - zc.q(zc(x.args[1])) * k)
        ints.append(k)
    # floor(x) of equal arguments is the same integer: merge by proof
    for x in atoms:
        for y in integers_of(s):
            if x.op == y.op == "ffloor" and x is not y:
                q = z3.Solver()
                q.add(*prove.PI_AX)
                q.add(zc.q(zc(x.args[0])) != zc.q(zc(y.args[0])))
                if smt.check(q, 2000) == z3.unsat:
                    side.append(z3.Real("n!%d" % x.id) == z3.Real("n!%d" % y.id))
    q = z3.Solver()
    q.add(*side)
    for h in prove.realify(hyp):
        q.add(zc(h))
    for k in ints + [z3.RealVal(0)]:
        for sg in (1, -1):
            for c in (-1, 0, 1):
                q.add(za - zs != 2 * prove.PI * (sg * k + c))
    return smt.check_hard(q, 20000) == z3.unsat


def value_range(a):
    """0 <= a <= 2 pi for every binary64 result of the reductions."""
    cv = smt.Conv("fp")
    S = z3.FPSort(11, 53)
    q = z3.Solver()
    z = None
    two = z3.FPVal(2 * math.pi, S)
    order = tm.topo([a])
    for x in order:
        if x.op == "frem" and is_c(x.args[1]):
            r = z3.FP("r!%d" % x.id, S)
            b = z3.fpAbs(z3.FPVal(fval(x.args[1]), S))
            q.add(z3.fpLT(z3.fpAbs(r), b))
            cv.memo[x.id] = r
    keep = {x.id for x in order if x.op == "frem"}
    # everything below the reductions is opaque
    stack, need = [a], []
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.id in keep:
            continue
        need.append(x)
        stack += x.args
    for x in sorted(need, key=lambda x: x.id):
        if x.op == "v":
            return False
        cv.memo[x.id] = cv.one(x)
    z = cv.memo[a.id]
    q.add(z3.Not(z3.And(z3.fpGEQ(z, z3.FPVal(0.0, S)), z3.fpLEQ(z, two))))
    return smt.check_hard(q, 60000) == z3.unsat


def sidereal_search(chk, nm, a, s):
    rng = random.Random(chk.seed)
    pts = [0.0, -0.0, 200.0, -200.0] + [rng.uniform(-200, 200) for _ in range(4000)] + [rng.choice([-1, 1]) * 200 * rng.random() ** 6 for _ in range(2000)]
    pts += [k / 365.25 + d for k in range(-60, 60) for d in (0.0, 0.5 / 365.25, 1e-9)]
    rows = [("impl_" + nm, "f64", [("f", native.hx(x))]) for x in pts]
    for x, r in zip(pts, native.run(rows)):
        if r is None:
            continue
        with mpmath.workprec(200):
            want = numev.ev(tm.topo([s]), {"epoch": x}, 200, prove.snap_mp)[s.id]
            want = want - mpmath.floor(want / (2 * mpmath.pi)) * 2 * mpmath.pi
            if r[0] != "ok":
                return x, r[:2], float(want)
            d = abs(mpmath.mpf(r[1]) - want) if math.isfinite(r[1]) else mpmath.inf
            d = min(d, abs(d - 2 * mpmath.pi))
            if d > 2e-9 or r[1] < 0 or r[1] > 2 * math.pi:
                return x, r[1], float(want)
    return None


# ------------------------------------------------------------------ C20
BUILD = {
    0: "prediction", 1: "epoch eccentricity error", 2: "eccentricity error", 3: "perturbed eccentricity error", 4: "semi-latus rectum error",
}


def C20(chk):
    chk.assume(numeric.REALS, "libm's sin, cos, atan2, pow, sqrt, fmod, floor are the same mathematical functions as the platform's")
    chk.bound("default features against no-default-features plus libm; every geopotential, epoch, sidereal time, drag term and orbit angle; 0 <= e < 1")
    std, lm = engine(), engine("libm", ("harness", "sgp4", "num_traits"))
    for name, (hyp, sam, text) in numeric.regimes(chk, REG).items():
        chk.bound("%s: %s" % (name, text))
        for afspc in (True, False):
            a = [F(x) for x in NAMES] + [boolc(afspc)]
            ts, os_, _, _ = run(std, "impl_propagate", a, hyp)
            ti, oi, _, _ = run(lm, "impl_propagate", a, hyp)

            def rows(env, afspc=afspc):
                r = ("impl_propagate", "u32", native.floats(env, NAMES) + [("b", afspc), native.out8()])
                return r, r

            equiv.Problem("%s, %s mode" % (name, "AFSPC" if afspc else "default"), [ts] + os_, [ti] + oi, sam, rows, ALL, hyp=hyp,
                          variant="libm", spec_variant="std").solve(chk)
    # conversion and sidereal time
    a = [F(x) for x in numeric.KNAMES]
    ts, os_, _, _ = run(std, "impl_kozai", a, numeric.E0)
    ti, oi, _, _ = run(lm, "impl_kozai", a, numeric.E0)

    def rows5(env):
        r = ("impl_kozai", "u32", native.floats(env, numeric.KNAMES) + [native.out8()])
        return r, r

    equiv.Problem("conversion", [ts] + os_, [ti] + oi, lambda r: near_env(r) if r.random() < 0.5 else deep_env(r), rows5,
                  {0: [0, 1, 2, 3, 4, 5], 1: [], 2: []}, {k: 1e-12 for k in range(8)}, hyp=numeric.E0, variant="libm", spec_variant="std",
                  tagname={0: "orbit", 1: "Kozai mean motion error", 2: "Brouwer mean motion error"}).solve(chk)
    for nm in ("iau", "afspc"):
        x, _ = std.run("impl_" + nm, [F("epoch")], St())
        y, _ = lm.run("impl_" + nm, [F("epoch")], St())

        def rows7(env, nm=nm):
            r = ("impl_" + nm, "f64", [("f", native.hx(env["epoch"]))])
            return r, r

        Scalar("sidereal time (%s)" % nm, x, y, lambda r: {"epoch": r.uniform(-200, 200)}, rows7, 1e-6).solve(chk)
    chk.encoded(std)
    chk.encoded(lm)
    chk.extra["model_stubs"] = sorted(set(std.stubs) | set(lm.stubs))


class Scalar:
    """Two scalar functions over the reals."""

    def __init__(self, label, x, y, sampler, rows, tol, variants=("std", "libm")):
        self.label, self.x, self.y = label, *prove.realify([x, y])
        self.sampler, self.rows, self.tol, self.variants = sampler, rows, tol, variants

    def solve(self, chk):
        rng = random.Random(chk.seed)
        P = prove.Prover([self.sampler(rng) for _ in range(32)], deadline=time.time() + 60)
        a = P.reduce([self.x], True)[0]
        b = P.reduce([self.y])[0]
        ok = (a is b or P.prove_output(TRUE, a, b)) and not P.assumed
        if ok:
            return chk.obligation(self.label, True)
        envs = [self.sampler(rng) for _ in range(3000)]
        rows = [self.rows(e) for e in envs]
        ra = native.run([r[0] for r in rows], self.variants[0])
        rb = native.run([r[1] for r in rows], self.variants[1])
        for e, p, q in zip(envs, ra, rb):
            if p and q and (p[0] != q[0] or p[0] == "ok" and not abs(p[1] - q[1]) <= self.tol):
                chk.violation("%s: %r against %r (%r)" % (self.label, p[:2], q[:2], e), {"inputs": e, "results": [p, q]})
                chk.obligation(self.label, False)
                raise equiv.Refuted()
        chk.obligation(self.label, None)
