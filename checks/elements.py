"""Propagators built from parsed elements."""
import math
import random
import time

import z3

from sgp import *
import equiv
import native
import prove
import strmodels
from times import CRATES

ARGS = "drag inc ra e w m n".split()
KINDS = {0: "propagator", 1: "negative Kozai mean motion", 2: "negative Brouwer mean motion", 3: "out-of-range eccentricity"}
STORED = ("d0", "d1", "d2")


def constants(fn, afspc):
    """tag, value of the error, 8-byte cells of the constants"""
    ex = Engine(build.modules("std", CRATES), strmodels.ALL)
    ex.feas = smt.feasible

    def epoch(name):
        def model(ex, st, av):
            got = [ex.load_prim(st, Ptr(tuple((g, o, mk_add(off, bv(4 * i, 64))) for g, o, off in av[0].cases)), 4, "i") for i in range(3)]
            if [t.aux if t.op == "v" else None for t in got] != list(STORED):
                raise EngineError("epoch of something else than the elements' datetime")
            return F(name)
        return model

    for n in ex.byname:
        if n.endswith("24julian_years_since_j2000"):
            ex.overrides[n] = epoch("epoch")
        if n.endswith("49julian_years_since_j2000_afspc_compatibility_mode"):
            ex.overrides[n] = epoch("epoch_afspc")
    size, _ = ex.run("impl_constants_size", [], St())
    st = St()
    o, v = ex.new_obj(st, size.aux, "constants"), ex.new_obj(st, 8, "value")
    ex.store_prim(st, ptr(v), 8, fc(0.0))
    tag, s = ex.run(fn, [var(x, 32) for x in STORED] + [F(x) for x in ARGS] + [afspc, ptr(o), ptr(v)], st)
    if s is None:
        raise EngineError(fn + " never returns")
    cells = []
    for i in range(0, size.aux, 8):
        try:
            cells.append(ex.load_prim(s, ptr(o, i), 8, "F"))
        except EngineError:
            cells.append(None)
    return ex, tag, ex.load_prim(s, ptr(v), 8, "F"), cells


def sample(rng):
    k = rng.random()
    if k < 0.4:
        env = near_env(rng)
    elif k < 0.6:
        env = deep_env(rng)
    elif k < 0.75:
        env = deep_env(rng, nlo=SYN[0], nhi=SYN[1])
    elif k < 0.9:
        env = deep_env(rng, nlo=HALF[0], nhi=HALF[1], es=(0.5, 0.75))
    else:
        env = near_env(rng)
        env["n"] = rng.choice([-1e-3, -0.05, 0.0, 2.5, 9.0, 40.0, 0.2])
        env["e"] = rng.choice([env["e"], -0.1, 1.0, 1.5, 0.0])
    deg = 180 / math.pi
    r = {"drag": env["drag"], "e": env["e"], "n": env["n"] * 720 / math.pi, "t": rng.choice([0.0, rng.uniform(-3000, 3000)])}
    for x in ("inc", "ra", "w", "m"):
        r[x] = env[x] * deg
    date = (rng.randint(1957, 2056), rng.randint(1, 365), rng.randint(0, 86399), rng.randint(0, 999999999))
    from times import stamp
    years = (stamp(list(date)) / 1e9 - 43200) / 31557600
    r["epoch"] = r["epoch_afspc"] = years
    r["_date"] = date
    return r


def replay(env, afspc):
    row = lambda k: ("elements_propagate", "u32", [("u32", k)] + [("u32", x) for x in env["_date"]] + native.floats(env, ARGS + ["t"]) + [("b", afspc), native.out8()])
    return row(0), row(1)


def long_sample(rng):
    """resonant orbits over years: small differences of the constants grow"""
    while True:
        e = sample(rng)
        n = e["n"] * math.pi / 720
        if 0 <= e["e"] < 0.75 and (SYN[0] < n < SYN[1] or (HALF[0] < n < HALF[1] and e["e"] > 0.5)):
            break
    e.update(drag=0.0, t=rng.choice([-1, 1]) * rng.uniform(1e6, 6e6))
    return e


def differ(a, b, scale=1.0):
    if a[0] != "ok" or b[0] != "ok":
        return a[0] != b[0] or None
    if a[1] != b[1]:
        return "constructor gives result %d, by hand %d" % (a[1], b[1])
    x, y = a[2][0], b[2][0]
    keep = {0: range(6), 13: (6,)}.get(a[1], ())
    for k in keep:
        if not (x[k] != x[k] and y[k] != y[k]) and not abs(x[k] - y[k]) <= scale * (1e-6 if k < 3 else 1e-9):
            return "constructor gives %r, by hand %r" % ([x[i] for i in keep], [y[i] for i in keep])
    return None


def search(chk, name, afspc, n, sample=sample, scale=1.0):
    rng = random.Random(chk.seed)
    envs = [sample(rng) for _ in range(n)]
    rows = [r for e in envs for r in replay(e, afspc)]
    res = native.run(rows, timeout=60)
    for j, e in enumerate(envs):
        if res[2 * j] is None or res[2 * j + 1] is None:
            continue
        d = differ(res[2 * j], res[2 * j + 1], scale)
        if d:
            chk.violation("%s: %s (%s)" % (name, d, ", ".join("%s=%r" % (k, v) for k, v in e.items())), {"inputs": e, "calls": [rows[2 * j], rows[2 * j + 1]]})
            return True
    return False


def equal(x, y):
    """equal bit for bit with every floating-point operation uninterpreted"""
    cv = smt.Conv("uf")
    sv = z3.Solver()
    sv.add(cv(x) != cv(y))
    return smt.check(sv, 5000) == z3.unsat


def C06(chk):
    chk.assume(
        "predictions are functions of the constants (the propagation functions take nothing else but the time)",
        "values that are not identical terms are compared over the reals",
        "the epoch functions are left uninterpreted (C08 decides them); the sidereal time functions are executed (C07 decides them)",
    )
    chk.bound("every value of every element and every datetime")
    for afspc in (False, True):
        name = "from_elements_afspc_compatibility_mode" if afspc else "from_elements"
        ex, tag, val, cells = constants("impl_constants", boolc(afspc))
        chk.encoded(ex)
        hex_, htag, hval, hcells = constants("hand_constants", boolc(afspc))
        chk.obligation(name + ": no panic", True if not ex.panics else None)
        obs, a, b = [], [], []
        for k, kind in KINDS.items():
            obs.append((kind + " condition", None))
            a.append(mk_eq(htag, bv(k, 32)))
            b.append(mk_eq(tag, bv(k, 32)))
        obs.append(("value of the eccentricity error", 3))
        a.append(hval)
        b.append(val)
        for i, (x, y) in enumerate(zip(hcells, cells)):
            if x is None and y is None:
                continue
            obs.append(("constant at byte %d" % (8 * i), 0))
            a.append(x if x is not None else fc(0.0))
            b.append(y if y is not None else fc(0.0))
        left = [j for j in range(len(obs)) if not equal(a[j], b[j])]
        proved = set()
        if left:
            rng = random.Random(chk.seed)
            envs = [{k: v for k, v in sample(rng).items() if k[0] != "_"} for _ in range(48)]
            bad = search(chk, name, afspc, 400)
            if not bad:
                P = prove.Prover(envs, deadline=time.time() + min(200, chk.left() * 0.3))
                sub = lambda xs: prove.realify([xs[j] for j in left])
                ra, rb = P.reduce(sub(a), True), P.reduce(sub(b))
                for j, x, y in zip(left, ra, rb):
                    if x is y or P.prove_output(TRUE, x, y):
                        if not P.assumed:
                            proved.add(j)
                if len(proved) < len(left):
                    bad = search(chk, name, afspc, 6000) or search(chk, name, afspc, 300, long_sample, 1e3)
        for j, (what, _) in enumerate(obs):
            ok = j not in left or j in proved
            chk.obligation("%s: %s" % (name, what), True if ok else False if bad else None)
    rng = random.Random(1)
    envs = [sample(rng) for _ in range(60)]
    got = {r[1] for r in native.run([replay(e, False)[0] for e in envs]) if r[0] == "ok"}
    chk.witness("both predictions and construction errors occur", 0 in got and any(k > 10 for k in got))
