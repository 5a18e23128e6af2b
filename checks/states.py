"""Resonance integrator state: induction step, reuse, misuse, termination."""
import math
import random
import time

import z3

from sgp import *
import equiv
import native
import numeric
import prove

RES = ["one-day", "half-day"]
ORBIT = NAMES[:14]
STEP = 720.0
ROLE = ("sT", "sN", "sL")


def orbit_hyp(chk, name):
    """Regime without its bound on t."""
    hyp, sam, text = numeric.regimes(chk, [name])[name]
    return [h for h in hyp if F("t") not in tm.topo([h])], sam


def initial_state(ex, hyp):
    """(tag, object cells) of the state offered at epoch."""
    st = St()
    ex.panics = []
    ex.regime, ex.regime_memo = tuple(hyp), {}
    size, _ = ex.run("impl_state_size", [], St())
    o = ex.new_obj(st, size.aux, "state")
    for c in hyp:
        st.add(c)
    r, s = ex.run("impl_initial_state", [F(x) for x in ORBIT] + [ptr(o)], st)
    return r, size.aux, dict(ex.obj(s, o).cells)


def layout(cells):
    """offset -> role of the three integrator cells."""
    res = {}
    for off, (size, v) in sorted(cells.items()):
        if size != 8 or not isinstance(v, T):
            return None
        if v.sort != "F":
            v = mk_bits2f(v)
        k = "sT" if is_c(v) and fval(v) == 0.0 else "sN" if v is F("n") else "sL"
        if k in res.values():
            return None
        res[off] = k
    return res if sorted(res.values()) == ["sL", "sN", "sT"] else None


def from_state(ex, hyp, t, afspc, cells, size, fn="impl_from_state"):
    """Run from the given state cells; (tag, outs + new state by role, panics, new cells)"""
    st = St()
    ex.panics = []
    ex.regime, ex.regime_memo = tuple(hyp), {}
    o = ex.new_obj(st, size, "state")
    for off, (n, v) in cells.items():
        ex.store_prim(st, ptr(o, off), n, v)
    out = ex.new_obj(st, 64, "out")
    for i in range(8):
        ex.store_prim(st, ptr(out, 8 * i), 8, var("init%d" % i, "F"))
    for c in hyp:
        st.add(c)
    r, s = ex.run(fn, [F(x) for x in ORBIT] + [t, boolc(afspc), ptr(o), ptr(out)], st)
    if s is None:
        return None, None, ex.panics, None
    outs = [ex.load_prim(s, ptr(out, 8 * i), 8, "F") for i in range(8)]
    new = {off: (n, ex.load_prim(s, ptr(o, off), n, "F")) for off, (n, v) in cells.items()}
    return r, outs, ex.panics, new


def sym_cells(lay):
    return {off: (8, F(role)) for off, role in lay.items()}


def by_role(cells, lay):
    return [next(cells[o][1] for o in lay if lay[o] == r) for r in ROLE]


def band(t, i, sg):
    """t lies i whole steps beyond the state time, in direction sg"""
    T = F("sT")
    d = mk_f2("fsub", t, T) if sg > 0 else mk_f2("fsub", T, t)
    return [le(C(STEP * i), d), LT(d, C(STEP * (i + 1)))]


def side(sg, t):
    T = F("sT")
    return [le(C(0.0), T), LT(C(0.0), t)] if sg > 0 else [le(T, C(0.0)), LT(t, C(0.0))]


def state_env(rng, sam, sg, i, names=("t",)):
    e = sam(rng)
    e["sT"] = sg * STEP * rng.choice([0, 1, 2, 5, 40, 400])
    e["sN"] = e["n"] * rng.uniform(0.98, 1.02)
    e["sL"] = rng.uniform(-7, 7)
    e["t"] = e["sT"] + sg * (STEP * i + rng.uniform(1e-3, STEP - 1e-3))
    if e["sT"] == 0.0:
        e["sT"] = 0.0
    return e


def setup(chk, ex, name):
    hyp, sam = orbit_hyp(chk, name)
    tag, size, cells = initial_state(ex, hyp)
    lay = layout(cells) if tag is not None and is_c(tag) and tag.aux == 1 else None
    return hyp, sam, tag, size, cells, lay


STATE_WANT = {0: [0, 1, 2, 3, 4, 5, 8, 9, 10]}
STATE_TOL = dict(equiv.TOL)
STATE_TOL.update({8: 1e-6, 9: 1e-13, 10: 1e-9})


def step_rule(chk):
    """C03: one call from an arbitrary integrator state."""
    ex = engine()
    steps = 3 if chk.thorough else 2
    chk.bound("from any integrator state (time, mean motion, longitude real): up to %d whole 720-minute steps in one call, forwards and backwards" % (steps - 1))
    for name in RES:
        hyp0, sam, tag, size, cells, lay = setup(chk, ex, name)
        if lay is None:
            chk.obligation("%s: integrator state layout" % name, None, "state is not (time, mean motion, longitude)")
            continue
        for sg in (1, -1):
            for i in range(steps):
                t = F("t")
                hyp = hyp0 + side(sg, t) + band(t, i, sg)
                for afspc in (False,) if i or sg < 0 else (False, True):
                    r, outs, pan, new = from_state(ex, hyp, t, afspc, sym_cells(lay), size)
                    sr, souts, _, snew = from_state(ex, hyp, t, afspc, {8 * k: (8, F(x)) for k, x in enumerate(ROLE)}, 24, "spec_propagate_from")
                    label = "%s, %s from any state, %d steps%s" % (name, "forwards" if sg > 0 else "backwards", i, ", AFSPC mode" if afspc else "")
                    if r is None:
                        chk.obligation(label, None, "never returns")
                        continue

                    def rows(e, afspc=afspc):
                        a = native.floats(e, ORBIT) + [("f", native.hx(e["t"])), ("b", afspc)]
                        sp = ("o", [native.hx(e[x]) for x in ROLE])
                        im = ("o", [native.hx(e[lay[o]]) for o in sorted(lay)])
                        return ("spec_propagate_from", "u32", a + [sp, native.out8()]), ("impl_from_state", "u32", a + [im, native.out8()])

                    p = equiv.Problem(label, [sr] + souts + [snew[0][1], snew[8][1], snew[16][1]], [r] + outs + by_role(new, lay),
                                      lambda rg, i=i, sg=sg: state_env(rg, sam, sg, i), rows, STATE_WANT, STATE_TOL, hyp=hyp)
                    order = [sorted(lay).index(next(o for o in lay if lay[o] == x)) for x in ROLE]
                    p.outs_spec = lambda q: q[2][1] + q[2][0]
                    p.outs_impl = lambda q, order=order: q[2][1] + [q[2][0][k] for k in order]
                    p.solve(chk, 40)
        chk.encoded(ex)


# ------------------------------------------------------------------ C09
def same(chk, label, pairs, rp):
    """Every pair of terms is equal: identical terms are equal bit for bit."""
    bad = []
    for nm, x, y in pairs:
        if x is not y:
            bad.append((nm, x, y))
    if not bad:
        chk.obligation(label, True)
        return True
    xs = prove.realify([x for _, x, y in bad])
    ys = prove.realify([y for _, x, y in bad])
    rng = random.Random(chk.seed)
    P = prove.Prover([rp(rng) for _ in range(32)], deadline=time.time() + 60)
    ok = True
    a, b = P.reduce(xs, True), P.reduce(ys)
    for (nm, _, _), x, y in zip(bad, a, b):
        if not (x is y or P.prove_output(TRUE, x, y)):
            ok = False
    if P.assumed:
        ok = False
    if ok:
        chk.obligation(label, True)
    return ok


def reuse_rows(e, afspc):
    a = native.floats(e, ORBIT) + [("f", native.hx(e["t1"])), ("f", native.hx(e["t2"])), ("b", afspc), ("b", False), ("o", [native.hx(0.0)] * 2), native.out8()]
    f = native.floats(e, ORBIT) + [("f", native.hx(e["t2"])), ("b", afspc), native.out8()]
    return ("impl_reuse", "u32", a), ("impl_propagate", "u32", f)


def reuse_search(chk, what, sam, seconds=40, tmax=3000.0):
    """A monotone pair of times at which the reused state disagrees with a fresh start."""
    rng = random.Random(chk.seed)
    end = time.time() + seconds
    p = equiv.Problem("", [], [], None, None)
    while time.time() < end:
        envs, rows = [], []
        for _ in range(400):
            e = sam(rng)
            sg = rng.choice([1, -1])
            e["t1"], e["t2"] = sorted((sg * rng.uniform(0, tmax), sg * rng.choice([rng.uniform(0, tmax), STEP * rng.randrange(1, 5)])), key=abs)
            if rng.random() < 0.2:
                e["t2"] = e["t1"]
            afspc = rng.random() < 0.5
            envs.append((e, afspc))
            rows += reuse_rows(e, afspc)
        res = native.run(rows, timeout=60)
        for j, (e, afspc) in enumerate(envs):
            r, f = res[2 * j], res[2 * j + 1]
            if r is None or f is None:
                continue
            bad = None
            if r[0] != "ok" or f[0] != "ok":
                if r[0] != f[0]:
                    bad = "reused state: %r, fresh: %r" % (r[:2], f[:2])
            else:
                rr, ff = ("ok", r[1], [r[2][1]]), ("ok", f[1], [f[2][0]])
                if p.differ(rr, ff):
                    bad = "reused state gives %r, fresh start gives %r" % (r[2][1][:6], f[2][0][:6])
                tt = r[2][0]
                if not bad and tt[0] != -1.0 or tt[1] != -1.0:
                    for t, T in ((e["t1"], tt[0]), (e["t2"], tt[1])):
                        if T % STEP or T * t < 0 or abs(T) > abs(t) or abs(t) - abs(T) > STEP:
                            bad = bad or "state time %r after propagating to %r" % (T, t)
            if bad:
                inp = ", ".join("%s=%r" % (k, e[k]) for k in ORBIT + ["t1", "t2"])
                chk.violation("%s: %s (%s, %s mode)" % (what, bad, inp, "AFSPC" if afspc else "default"), {
                    "library": "std", "calls": rows[2 * j:2 * j + 2], "results": [r, f], "inputs": e})
                return True
    return False


def C09(chk):
    steps = 4 if chk.thorough else 3
    chk.assume("loop exits are decided over the reals (the 720-minute grid is exact in binary64 within the bound); outputs are compared as terms, identical terms being equal bit for bit")
    chk.bound("state: any (time, mean motion, longitude); two consecutive calls ending less than %d minutes beyond the state time, forwards and backwards; every resonant orbit with 0 <= e < 1" % (steps * STEP))
    ex = engine()
    failed = []

    def need(ok, label, sam):
        if not ok:
            failed.append((label, sam))

    for name in RES:
        hyp0, sam, tag, size, cells, lay = setup(chk, ex, name)
        if lay is None:
            need(False, "%s: integrator state layout" % name, sam)
            continue
        env = lambda rg: dict(state_env(rg, sam, 1, 1), t1=100.0, t2=900.0)
        for afspc in (False, True):
            for sg in (1, -1):
                t = F("t")
                way = "%s, %s, %s mode" % (name, "forwards" if sg > 0 else "backwards", "AFSPC" if afspc else "default")
                # fresh propagation is propagation from the offered state
                hyp = hyp0 + ([LT(C(0.0), t), LT(t, C(STEP * steps))] if sg > 0 else [LT(t, C(0.0)), LT(C(-STEP * steps), t)])
                ts, os_, _, _ = run(ex, "impl_propagate", [F(x) for x in ORBIT] + [t, boolc(afspc)], hyp)
                r, outs, pan, new = from_state(ex, hyp, t, afspc, cells, size)
                label = way + ": a fresh propagation is one from the offered state"
                need(r is not None and same(chk, label, [("tag", ts, r)] + [("out", x, y) for x, y in zip(os_, outs)], env), label, sam)
                t1, t2 = F("t1"), F("t2")
                one, two = {}, {}
                for j in range(steps):
                    h2 = hyp0 + side(sg, t2) + band(t2, j, sg)
                    direct = from_state(ex, h2, t2, afspc, sym_cells(lay), size)
                    for i in range(j + 1):
                        label = "%s: stopping after %d of %d steps" % (way, i, j)
                        h1 = hyp0 + side(sg, t1) + band(t1, i, sg)
                        if direct[0] is None:
                            need(False, label, sam)
                            continue
                        _, o1, _, mid = from_state(ex, h1, t1, afspc, sym_cells(lay), size)
                        if mid is None:
                            need(False, label, sam)
                            continue
                        T1 = prove.realify([by_role(mid, lay)[0]])[0]
                        # state time after the first call: i steps from the start, not beyond t1
                        need(state_time(chk, label + ", state time", T1, i, sg, h1), label + ", state time", sam)
                        # second call from the state left by the first
                        h = h1 + side(sg, t2) + band(t2, j, sg)
                        r, outs, _, new = from_state(ex, h, t2, afspc, mid, size)
                        if r is None:
                            need(False, label, sam)
                            continue
                        pairs = [("tag", direct[0], r)] + [("out", x, y) for x, y in zip(direct[1], outs)]
                        pairs += [("state", direct[3][o][1], new[o][1]) for o in new]
                        need(same(chk, label, pairs, lambda rg: dict(state_env(rg, sam, sg, j), t1=1.0, t2=1.0)), label, sam)
        chk.encoded(ex)
    # orbits without a state
    for name, (hyp, sam, text) in numeric.regimes(chk, ["near", "deep-slow", "deep-mid", "deep-halfday-round", "deep-fast"]).items():
        for afspc in (False, True):
            a = [F(x) for x in NAMES] + [boolc(afspc)]
            ts, os_, _, _ = run(ex, "impl_propagate", a, hyp)
            r, outs, _, s = run(ex, "impl_no_state", a, hyp)
            label = "%s, %s mode: no state, same result as a fresh propagation" % (name, "AFSPC" if afspc else "default")
            need(same(chk, label, [("tag", ts, r)] + [("out", x, y) for x, y in zip(os_, outs)], sam) if s is not None else False, label, sam)
    for label, sam in failed[:1]:
        for l, sm in {n: (n, sm) for n, sm in failed}.values():
            if reuse_search(chk, "reuse", sm, 30 if len(failed) < 8 else 10):
                break
    for label, sam in failed:
        chk.obligation(label, False if chk.violations else None)


def state_time(chk, label, T1, i, sg, hyp):
    s = z3.Solver()
    cv = smt.Conv("abs")
    want = mk_f2("fadd", F("sT"), C(sg * STEP * i))
    for h in prove.realify(list(hyp)):
        s.add(cv(h))
    t1 = cv(F("t1"))
    x = cv(T1)
    zero = z3.RealVal(0)
    inside = z3.And(x <= t1, x >= cv(F("sT"))) if sg > 0 else z3.And(x >= t1, x <= cv(F("sT")))
    s.add(z3.Not(z3.And(x == cv(want), inside)))
    ok = smt.check_hard(s, 5000) == z3.unsat
    if ok:
        chk.obligation(label, True)
    return ok


# ------------------------------------------------------------------ C10
def C10(chk):
    chk.assume(numeric.REALS)
    chk.bound("resonant orbits: any state time, mean motion and longitude; requested times up to 1440 minutes beyond the state time or anywhere on the refused side; 0 <= e < 1")
    ex = engine()
    failed = []
    regs = numeric.regimes(chk, ["near", "deep-slow", "deep-mid", "deep-halfday-round", "deep-fast"])
    t, T = F("t"), F("sT")
    for name, (hyp, sam, text) in regs.items():
        chk.bound("%s: %s" % (name, text))
        tag, size, cells = initial_state(ex, hyp)
        ok = tag is not None and is_c(tag) and tag.aux == 0
        (chk.obligation(name + ": no state offered", True) if ok else failed.append((name + ": no state offered", name, sam)))
        for afspc in (False, True):
            label = "%s: a state is refused, %s mode" % (name, "AFSPC" if afspc else "default")
            r, outs, pan, new = from_state(ex, hyp, t, afspc, {8 * k: (8, F(x)) for k, x in enumerate(ROLE)}, size)
            (chk.obligation(label, True) if r is None and pan else failed.append((label, name, sam)))
            label = "%s: no state is accepted without panic, %s mode" % (name, "AFSPC" if afspc else "default")
            r, outs, pan, s = run(ex, "impl_no_state", [F(x) for x in NAMES] + [boolc(afspc)], hyp)
            (chk.obligation(label, True) if s is not None and not pan else failed.append((label, name, sam)))
    for name in RES:
        hyp, sam, tag, size, cells, lay = setup(chk, ex, name)
        ok = tag is not None and is_c(tag) and tag.aux == 1
        (chk.obligation(name + ": a state is offered", True) if ok else failed.append((name + ": a state is offered", name, sam)))
        if lay is None:
            failed.append((name + ": state layout", name, sam))
            continue
        for afspc in (False, True):
            mode = "AFSPC" if afspc else "default"
            r, outs, pan, s = run(ex, "impl_no_state", [F(x) for x in NAMES] + [boolc(afspc)], hyp)
            label = "%s: omitting the state is refused, %s mode" % (name, mode)
            (chk.obligation(label, True) if s is None and pan else failed.append((label, name, sam)))
            zt, zT = z3.Real("t"), z3.Real("sT")
            for what, extra in (
                ("non-negative state time", [le(C(0.0), T), LT(t, mk_f2("fadd", T, C(2 * STEP))), LT(C(-2 * STEP), t)]),
                ("negative state time", [LT(T, C(0.0)), LT(mk_f2("fsub", T, C(2 * STEP)), t), LT(t, C(2 * STEP))]),
            ):
                h = hyp + extra
                r, outs, pan, new = from_state(ex, h, t, afspc, sym_cells(lay), size)
                label = "%s, %s, %s mode: refused exactly on the other side of epoch or closer than the state" % (name, what, mode)
                if pan_cond(pan, h, zt, zT):
                    chk.obligation(label, True)
                else:
                    failed.append((label, name, sam))
    chk.encoded(ex)
    if failed:
        seen = set()
        for label, name, sam in failed:
            if name not in seen and not chk.violations:
                seen.add(name)
                misuse_search(chk, name, sam, 40)
        for label, name, sam in failed:
            chk.obligation(label, False if chk.violations else None)


def pan_cond(pan, hyp, zt, zT):
    cv = smt.Conv("abs")
    p = z3.Or(*[cv(prove.realify([x.cond])[0]) for x in pan]) if pan else z3.BoolVal(False)
    want = z3.Or(z3.And(zT != 0, (zT > 0) != (zt >= 0)), z3.If(zt < 0, -zt, zt) < z3.If(zT < 0, -zT, zT))
    s = z3.Solver()
    for h in prove.realify(list(hyp)):
        s.add(cv(h))
    s.add(p != want)
    return smt.check_hard(s, 10000) == z3.unsat


def misuse_search(chk, name, sam, seconds):
    rng = random.Random(chk.seed)
    end = time.time() + seconds
    res_orbit = name in RES
    while time.time() < end:
        rows, envs = [], []
        for _ in range(12):
            e = sam(rng)
            e["t1"] = rng.choice([rng.uniform(-3000, 3000), STEP * rng.randrange(-4, 5)])
            e["t2"] = rng.choice([rng.uniform(-3000, 3000), e["t1"] * rng.random(), e["t1"], -e["t1"], e["t1"] * (1 + rng.random()), 0.0])
            kind = rng.randrange(3)  # 0 own state, 1 foreign state, 2 no state
            afspc = rng.random() < 0.5
            if kind == 1 and not res_orbit:
                e["t1"] = e["t2"] = 0.0
            base = native.floats(e, ORBIT)
            if kind == 2:
                row = ("impl_no_state", "u32", base + [("f", native.hx(e["t2"])), ("b", afspc), native.out8()])
                want = res_orbit
            else:
                alien = kind == 1 and not res_orbit
                row = ("impl_reuse", "u32", base + [("f", native.hx(e["t1"])), ("f", native.hx(e["t2"])), ("b", afspc), ("b", alien), ("o", [native.hx(0.0)] * 2), native.out8()])
                T1 = math.trunc(e["t1"] / STEP) * STEP
                want = alien or (res_orbit and T1 != 0 and ((T1 > 0) != (e["t2"] >= 0) or abs(e["t2"]) < abs(T1)))
            envs.append((e, kind, want))
            rows.append(row)
        res = native.run(rows, timeout=30)
        for (e, kind, want), row, r in zip(envs, rows, res):
            if r is None or r[0] == "hang" or (r[0] == "ok" and r[1] == 1):
                continue
            got = r[0] == "panic"
            if got != want:
                what = ["own state", "state of another orbit", "no state"][kind]
                inp = ", ".join("%s=%r" % (k, e[k]) for k in ORBIT + ["t1", "t2"])
                chk.violation("%s, %s: %s (%s)" % (name, what, "not refused" if want else "refused", inp), {"library": "std", "call": row, "result": r, "inputs": e})
                return True
    return False


# ------------------------------------------------------------------ C12
def C12(chk):
    K = 20000.0 if chk.thorough else 9000.0
    chk.assume("loop conditions on time are decided in exact binary64 arithmetic; values of sin, cos and the other functions are unconstrained")
    chk.bound("finite times with |t| < %g min, NaN and both infinities; every orbit" % K)
    ex = engine()
    regs = numeric.regimes(chk, ["near", "deep-slow", "deep-mid", "deep-halfday-round", "deep-fast", "one-day", "half-day"])
    for name, (hyp, sam, text) in regs.items():
        hyp = [h for h in hyp if F("t") not in tm.topo([h])]
        t = F("t")
        for what, tv, extra in (
            ("forwards", t, [LT(C(0.0), t), LT(t, C(K))]), ("backwards", t, [le(t, C(0.0)), LT(C(-K), t)]),
            ("not a number", fc(math.nan), []), ("plus infinity", fc(math.inf), []), ("minus infinity", fc(-math.inf), []),
        ):
            loops = {}
            ex.on_back = lambda f, hd, cnt, s: loops.setdefault((f.name, hd), {}).setdefault(cnt, []).append(s.pc)
            label = "%s, %s: every loop ends" % (name, what)
            old = ex.max_iter
            ex.max_iter = int(K / STEP) + 12
            try:
                a = [F(x) for x in ORBIT] + [tv, boolc(False)]
                r, outs, pan, s = run(ex, "impl_propagate", a, hyp + extra)
                ok = s is not None
            except EngineError as err:
                if "loop bound" not in str(err):
                    raise
                ok = False
            finally:
                ex.on_back = None
                ex.max_iter = old
                ex.depth = 0
            if ok:
                for (fn, hd), its in loops.items():
                    if max(its) <= 10:
                        continue
                    for cnt, pcs in its.items():
                        if not all(steps_ok(pc, cnt) for pc in pcs):
                            ok = False
            if ok:
                chk.obligation(label, True)
                continue
            hit = hang_search(chk, name, what, sam, K)
            chk.obligation(label, False if hit else None)
            if chk.violations:
                raise equiv.Refuted()
        chk.encoded(ex)


def steps_ok(pc, cnt):
    """Taking a back edge for the cnt-th time implies |t| >= 720 cnt (binary64)."""
    q = z3.Solver()
    cv = smt.Conv("fp")
    tv = cv(F("t"))
    for p in pc:
        ops = tm.topo([p])
        if any(x.op == "v" and x.aux == "t" for x in ops) and len(ops) < 40:
            q.add(cv(p))
    S = z3.FPSort(11, 53)
    q.add(z3.Not(z3.fpGEQ(z3.fpAbs(tv), z3.FPVal(STEP * cnt, S))))
    return smt.check_hard(q, 20000) == z3.unsat


def hang_search(chk, name, what, sam, K):
    rng = random.Random(chk.seed)
    end = time.time() + 60
    while time.time() < end:
        e = sam(rng)
        ts = {"not a number": [math.nan], "plus infinity": [math.inf], "minus infinity": [-math.inf]}.get(what)
        if ts is None:
            sg = 1 if what == "forwards" else -1
            ts = [sg * rng.uniform(0, K) for _ in range(200)] + [sg * STEP * k for k in range(10)]
        rows = []
        for t in ts:
            if len(ts) > 1:
                e = sam(rng)
            rows.append(("impl_propagate", "u32", native.floats(e, ORBIT) + [("f", native.hx(t)), ("b", False), native.out8()]))
        res = native.run(rows, timeout=4)
        for row, r in zip(rows, res):
            if r is not None and r[0] == "hang":
                chk.violation("%s, %s: propagation does not return" % (name, what), {"library": "std", "call": row, "result": r})
                return True
        if len(ts) == 1 and end - time.time() < 40:
            break
    return False
