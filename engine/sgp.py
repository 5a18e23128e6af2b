"""Shared numeric-property machinery: running the propagation entry points
symbolically, orbit regimes, samples."""
import math
import random

from symex import *
import models
import smt
import terms as tm
import build
import prove

NAMES = "ae ke j2 j3 j4 epoch theta drag inc ra e w m n t".split()
F = lambda n: var(n, "F")
LT = lambda a, b: mk_fcmp("flt", a, b)
C = fc

DEEP = 2.0 * math.pi / 225.0
SYN = (0.0034906585, 0.0052359877)
HALF = (8.26e-3, 9.24e-3)


def le(a, b):
    return mk_not(LT(b, a))


def engine(variant="std", crates=("harness", "sgp4")):
    ex = Engine(build.modules(variant, crates), models.MODELS)
    ex.feas = smt.feasible
    return ex


def run(ex, fn, args, regime=(), nout=8, extra=()):
    """Run an entry point whose last argument is an f64 out array.

    Returns (tag, outs, panics, state)."""
    st = St()
    ex.panics = []
    ex.regime = tuple(regime)
    ex.regime_memo = {}
    out = ex.new_obj(st, 8 * nout, "out")
    for i in range(nout):
        ex.store_prim(st, ptr(out, 8 * i), 8, var("init%d" % i, "F"))
    for c in regime:
        st.add(c)
    r, s = ex.run(fn, list(args) + [ptr(out)], st)
    if s is None:
        return None, None, ex.panics, None
    outs = [ex.load_prim(s, ptr(out, 8 * i), 8, "F") for i in range(nout)]
    return r, outs, ex.panics, s


# ------------------------------------------------------------------ samples
WGS84 = dict(ae=6378.137, ke=0.07436685316871385, j2=0.00108262998905, j3=-2.53215306e-6, j4=-1.61098761e-6)


def base_env(rng, tmax):
    env = dict(WGS84)
    for x in env:
        env[x] *= rng.uniform(0.9, 1.1)
    env.update(
        epoch=rng.uniform(-40, 50),
        theta=rng.uniform(0, 6.28),
        drag=rng.choice([0.0, rng.uniform(-1e-3, 1e-3), rng.uniform(-1e-2, 1e-1)]),
        inc=rng.choice([rng.uniform(0, 3.14), rng.uniform(0.0, 0.19), rng.uniform(0.2, 1.5), rng.uniform(1.6, 3.1)]),
        ra=rng.uniform(-6.28, 6.28),
        w=rng.uniform(-6.28, 6.28),
        m=rng.uniform(-6.28, 6.28),
        t=rng.uniform(-tmax, tmax),
    )
    k = rng.random()
    if k < 0.06:
        env["inc"] = math.pi - rng.uniform(0, 1e-6)
    elif k < 0.12:
        env["inc"] = rng.choice([rng.uniform(0, 0.052), rng.uniform(3.09, 3.14)])
    for j in range(8):
        env["init%d" % j] = 0.1 * j + 0.3
    return env


def near_env(rng, tmax=3000.0):
    env = base_env(rng, tmax)
    while True:
        rp = rng.choice([
            rng.uniform(0.95, 1.0), rng.uniform(1.0, 98.0 / 6378 + 1), rng.uniform(98.0 / 6378 + 1, 156.0 / 6378 + 1),
            rng.uniform(156.0 / 6378 + 1, 220.0 / 6378 + 1), rng.uniform(220.0 / 6378 + 1, 1.3), rng.uniform(1.03, 2.5),
        ])
        e = rng.choice([rng.uniform(0, 1e-4), rng.uniform(1e-4, 0.01), rng.uniform(0, 0.3), rng.uniform(0, 0.6)])
        n = env["ke"] / (rp / (1 - e)) ** 1.5
        if n > DEEP * 1.001:
            break
    env["n"] = n
    env["e"] = e
    return env


def deep_env(rng, tmax=3000.0, nlo=0.0005, nhi=DEEP, es=(0.0, 0.9)):
    env = base_env(rng, tmax)
    env["n"] = rng.uniform(nlo, nhi)
    env["e"] = rng.choice([rng.uniform(*es), es[0] + (es[1] - es[0]) * rng.random() ** 3])
    k = rng.random()
    if es[0] == 0.0 and k < 0.15:
        env["e"] = rng.uniform(0, 1e-4)
    elif k > 0.6:
        # low perigee: below 98 km, 98..156 km, 156..220 km, above
        h = rng.choice([rng.uniform(5, 98), rng.uniform(98, 156), rng.uniform(156, 220), rng.uniform(220, 800)])
        a = (env["ke"] / env["n"]) ** (2.0 / 3.0)
        e = 1.0 - (1.0 + h / env["ae"]) / a
        if es[0] <= e:
            env["e"] = e
    return env


def sampler(fn, k, seed):
    rng = random.Random(seed)
    return [fn(rng) for _ in range(k)]
