"""Propagation and element-conversion properties."""
import math
import random

from sgp import *
import equiv
import native
import prove

E0 = [le(C(0.0), F("e")), LT(F("e"), C(1.0))]
REALS = "real arithmetic: rounding, overflow, NaN and infinities of binary64 are outside the claim; divisors are non-zero and root arguments non-negative where evaluated"
SINGLE = "elementary functions (sin, cos, atan2, pow, sqrt) are the same mathematical functions on both sides"
REFERENCE = "reference: /verif/harness/src/spec.rs, written from Hoots & Roehrich / Vallado et al. 2006"


def trange(k):
    """|t| < k"""
    return [LT(F("t"), C(float(k))), LT(C(-float(k)), F("t"))]


def t_text(k):
    return "-%g < t < %g min" % (k, k)


def regimes(chk, which):
    """name -> (hypotheses, sampler, bound text)"""
    K = 9000.0 if chk.thorough else 2200.0
    n = F("n")
    res = {
        "near": ([LT(C(DEEP), n)] + E0, lambda r: near_env(r), "n > 2pi/225 rad/min, 0 <= e < 1, every t"),
        "deep-slow": ([le(n, C(SYN[0])), LT(C(0.0), n)] + E0, lambda r: deep_env(r, 9000, 5e-4, SYN[0]), "0 < n <= 0.0034906585, 0 <= e < 1, every t"),
        "deep-mid": ([le(C(SYN[1]), n), LT(n, C(HALF[0]))] + E0, lambda r: deep_env(r, 9000, SYN[1], HALF[0]), "0.0052359877 <= n < 0.00826, 0 <= e < 1, every t"),
        "deep-halfday-round": (
            [le(C(HALF[0]), n), le(n, C(HALF[1])), le(C(0.0), F("e")), LT(F("e"), C(0.5))],
            lambda r: deep_env(r, 9000, HALF[0], HALF[1], (0.0, 0.5)), "0.00826 <= n <= 0.00924, 0 <= e < 0.5, every t"),
        "deep-fast": ([LT(C(HALF[1]), n), le(n, C(DEEP))] + E0, lambda r: deep_env(r, 9000, HALF[1], DEEP), "0.00924 < n <= 2pi/225, 0 <= e < 1, every t"),
        "one-day": ([LT(C(SYN[0]), n), LT(n, C(SYN[1]))] + E0 + trange(K), lambda r: deep_env(r, K, *SYN), "0.0034906585 < n < 0.0052359877, 0 <= e < 1, " + t_text(K)),
        "half-day": (
            [le(C(HALF[0]), n), le(n, C(HALF[1])), le(C(0.5), F("e")), LT(F("e"), C(1.0))] + trange(K),
            lambda r: deep_env(r, K, HALF[0], HALF[1], (0.5, 0.95)), "0.00826 <= n <= 0.00924, 0.5 <= e < 1, " + t_text(K)),
    }
    return {k: res[k] for k in which}


def rows(afspc):
    def f(env):
        a = native.floats(env, NAMES) + [("b", afspc), native.out8()]
        return ("spec_propagate", "u32", a), ("impl_propagate", "u32", a)

    return f


def propagation(chk, which, want, variant="std"):
    chk.assume(REALS, SINGLE, REFERENCE)
    chk.bound("every geopotential (ae, ke, J2, J3, J4 real), epoch, sidereal time at epoch, drag term, inclination, node, perigee and mean anomaly")
    ex = engine(variant)
    for name, (hyp, sam, text) in regimes(chk, which).items():
        chk.bound("%s: %s" % (name, text))
        for afspc in (True, False):
            label = "%s, %s mode" % (name, "AFSPC" if afspc else "default")
            a = [F(x) for x in NAMES] + [boolc(afspc)]
            ts, os_, ps, _ = run(ex, "spec_propagate", a, hyp)
            ti, oi, pi, _ = run(ex, "impl_propagate", a, hyp)
            chk.encoded(ex)
            no_panic(chk, label, pi, hyp)
            p = equiv.Problem(label, [ts] + os_, [ti] + oi, sam, rows(afspc), want, hyp=hyp, variant=variant)
            p.solve(chk)
    chk.extra["model_stubs"] = sorted(ex.stubs)


def no_panic(chk, label, panics, hyp):
    for p in panics:
        chk.obligation("%s: panic unreachable %s" % (label, p[1:]), None)


PRED = {0: [0, 1, 2, 3, 4, 5]}


def C01(chk):
    propagation(chk, ["near"], PRED)


def C02(chk):
    propagation(chk, ["deep-slow", "deep-mid", "deep-halfday-round", "deep-fast"], PRED)


def C03(chk):
    propagation(chk, ["one-day", "half-day"], PRED)
    import states

    states.step_rule(chk)


def C11(chk):
    propagation(chk, ["near", "deep-slow", "deep-mid", "deep-halfday-round", "deep-fast", "one-day", "half-day"], {k: v for k, v in equiv.WANT.items() if k})
    # epoch eccentricity outside [0, 1)
    ex = engine()
    for name, hyp, lo, hi in (("negative eccentricity", [LT(F("e"), C(0.0))], -2.0, 0.0), ("eccentricity of one or more", [le(C(1.0), F("e"))], 1.0, 3.0)):
        for afspc in (True, False):
            a = [F(x) for x in NAMES] + [boolc(afspc)]
            ts, os_, ps, _ = run(ex, "spec_propagate", a, hyp)
            ti, oi, pi, _ = run(ex, "impl_propagate", a, hyp)

            def sam(r, lo=lo, hi=hi):
                env = deep_env(r) if r.random() < 0.5 else near_env(r)
                env["e"] = r.uniform(lo, hi)
                return env

            equiv.Problem(name, [ts] + os_, [ti] + oi, sam, rows(afspc), {k: v for k, v in equiv.WANT.items() if k}, hyp=hyp).solve(chk, 16)


KNAMES = "ae ke j2 j3 j4 inc ra e w m n".split()


def C05(chk):
    chk.assume(REALS, REFERENCE)
    chk.bound("every geopotential and every element value with 0 <= e < 1 (real numbers)")
    ex = engine()

    def rows5(env):
        a = native.floats(env, KNAMES) + [native.out8()]
        return ("spec_kozai", "u32", a), ("impl_kozai", "u32", a)

    def sam(r):
        env = near_env(r) if r.random() < 0.5 else deep_env(r)
        k = r.random()
        if k < 0.2:
            env["n"] = r.choice([-0.05, 0.0, -r.random()])
        elif k < 0.5:
            # converted mean motion can turn negative for small semi-major axes
            env["n"] = r.uniform(0.1, 60.0)
        if r.random() < 0.2:
            env["j2"] = r.uniform(-0.5, 0.5)
        return env

    hyp = E0
    a = [F(x) for x in KNAMES]
    ts, os_, _, _ = run(ex, "spec_kozai", a, hyp)
    ti, oi, pi, _ = run(ex, "impl_kozai", a, hyp)
    chk.encoded(ex)
    no_panic(chk, "conversion", pi, hyp)
    want = {0: [0, 1, 2, 3, 4, 5], 1: [], 2: []}
    tol = {k: 1e-12 for k in range(8)}
    equiv.Problem("conversion", [ts] + os_, [ti] + oi, sam, rows5, want, tol, hyp=hyp,
                  tagname={0: "orbit", 1: "Kozai mean motion error", 2: "Brouwer mean motion error"}).solve(chk)
