"""Equivalence of an entry point with its reference: proof, and when the proof
does not go through, a solver-guided search for an input on which the two
differ, confirmed in 50-digit arithmetic and by running the compiled code."""
import math
import random
import time

import mpmath
import z3

from terms import *
import terms as tm
import native
import numev
import prove
import smt

TOL = {0: 1e-6, 1: 1e-6, 2: 1e-6, 3: 1e-9, 4: 1e-9, 5: 1e-9, 6: 1e-12, 7: 0.0}
WANT = {0: [0, 1, 2, 3, 4, 5], 1: [6], 2: [6, 7], 3: [6, 7], 4: [7]}
TAGNAME = {
    0: "prediction", 1: "epoch eccentricity error", 2: "eccentricity error", 3: "perturbed eccentricity error", 4: "semi-latus rectum error",
}


def split(roots, want):
    """[tag, outs...] -> per tag: condition and the outputs simplified under it."""
    out, names = [], []
    e = prove.Ctx({})
    for k in sorted(want):
        c = prove.under(mk_eq(roots[0], bv(k, roots[0].sort)), e)
        out.append(c)
        names.append((k, None))
        vals = prove.given([roots[1 + i] for i in want[k]], c) if c is not FALSE else [FALSE] * len(want[k])
        out += vals
        names += [(k, i) for i in want[k]]
    return out, names


class Refuted(Exception):
    """A confirmed violation: the check stops here."""


class Problem:
    """spec/impl: [tag, outs...] terms; rows(env) -> (spec row, impl row) for native.run"""

    def __init__(self, label, spec, impl, sampler, rows, want=WANT, tol=TOL, hyp=(), variant="std", extra=(), show=None, tagname=TAGNAME, spec_variant=None):
        self.spec_variant = spec_variant or variant
        self.outs_spec = self.outs_impl = lambda r: r[2][0]
        self.label = label
        self.spec = prove.realify(spec)
        self.impl = prove.realify(impl)
        self.sampler = sampler
        self.rows = rows
        self.want = want
        self.tol = tol
        self.hyp = prove.realify(list(hyp))
        self.variant = variant
        self.extra = list(extra)
        self.show = show
        self.tagname = tagname

    def solve(self, chk, nsamples=64, trace=False):
        t0 = time.time()
        rng = random.Random(chk.seed)
        samples = list(self.extra) + [self.sampler(rng) for _ in range(nsamples)]
        faithful = self.faithful(chk, samples)
        a, names = split(self.spec, self.want)
        b, _ = split(self.impl, self.want)
        P = prove.Prover(samples, deadline=time.time() + min(240, max(20, chk.left() * 0.4)))
        P.trace = trace
        ra = P.reduce(a, True)
        rb = P.reduce(b)
        bad = []
        cond = None
        if P.assumed or any(x is not y and not P.prove_output(TRUE, x, y, levels=(-1,)) for (k, i), x, y in zip(names, ra, rb) if i is None):
            # the sweep already failed somewhere: look at the sample points first
            hit = self.try_envs(chk, samples)
            if hit:
                self.report(chk, hit)
                chk.obligation(self.label, False)
                if chk.violations:
                    raise Refuted()
        for nm, x, y in zip(names, ra, rb):
            k, i = nm
            if i is None:
                cond = x
            nname = "%s: %s%s" % (self.label, self.tagname.get(k, "result %d" % k), " condition" if i is None else " output %d" % i)
            if cond is FALSE and i is not None:
                continue  # the result kind does not occur on the reference side
            ok = x is y
            if not ok and time.time() < P.deadline:
                ok = P.prove_output(cond if i is not None else TRUE, x, y)
            used = ok and self.assumed_under(P, [x, y])
            if ok and not used and faithful:
                chk.obligation(nname, True)
            else:
                bad.append((nname, x, y))
        st = chk.extra.setdefault("proof", {})
        st[self.label] = {"pairs_tried": P.pairs_tried, "pairs_proved": P.pairs_proved, "spec_terms": len(tm.topo(self.spec)),
                          "impl_terms": len(tm.topo(self.impl)), "samples_for_candidates": len(samples), "seconds": round(time.time() - t0, 2)}
        # the reference must be reachable in this regime
        if 0 in self.want:
            chk.witness("%s: prediction reachable" % self.label, any(self.value(self.spec[0], s) == 0 for s in samples))
        if bad:
            hit = self.search(chk, P, samples, ra, rb, rng)
            for nname, x, y in bad:
                chk.obligation(nname, False if hit else None)
        return not bad

    def faithful(self, chk, samples, n=6):
        """The terms must give the compiled code's results at sample points;
        otherwise the encoding is wrong and nothing proved about it counts."""
        st = chk.extra.setdefault("encoding_against_native", {"compared": 0, "different": 0})
        envs = [s for s in samples if all(math.isfinite(x) for x in s.values()) and self.in_regime(s)][:n]
        rows = [self.rows(e) for e in envs]
        res = list(zip(native.run([r[0] for r in rows], self.spec_variant, timeout=60), native.run([r[1] for r in rows], self.variant, timeout=60)))
        ok = True
        for e, pair in zip(envs, res):
            for terms, outs, got in ((self.spec, self.outs_spec, pair[0]), (self.impl, self.outs_impl, pair[1])):
                if got is None or got[0] != "ok":
                    continue
                v = numev.ev(tm.topo(terms), e, 160, prove.snap_mp)
                tag = v[terms[0].id]
                if tag is None:
                    continue
                st["compared"] += 1
                same = int(tag) == got[1]
                for k in self.want.get(got[1], []) if same else []:
                    x, y = v[terms[1 + k].id], outs(got)[k]
                    if x is not None and math.isfinite(y) and abs(x - y) > 1e-5 * max(1.0, abs(y)):
                        same = False
                if not same:
                    st["different"] += 1
                    ok = False
        return ok

    def assumed_under(self, P, roots):
        if not P.assumed:
            return False
        ids = {c.id for c, n in P.assumed}
        return any(t.id in ids for t in tm.topo(roots))

    def value(self, t, env, prec=160):
        order = tm.topo([t])
        return numev.ev(order, env, prec, prove.snap_mp)[t.id]

    # --- counterexamples
    def in_regime(self, env):
        for h in self.hyp:
            if self.value(h, env, 60) is not True:
                return False
        return True

    def differ(self, s, i):
        """native results: tags or wanted outputs differ beyond tolerance"""
        if s[0] != "ok" or i[0] != "ok":
            return s[0] != i[0]
        if s[1] != i[1]:
            return s[1] in self.want or i[1] in self.want
        for k in self.want.get(s[1], []):
            x, y = self.outs_spec(s)[k], self.outs_impl(i)[k]
            if math.isnan(x) and math.isnan(y):
                continue
            if not abs(x - y) <= self.tol.get(k, 0.0):
                return True
        return False

    def differ_mp(self, env, tags_differ=False):
        roots = self.spec + self.impl
        v = numev.ev(tm.topo(roots), env, 220, prove.snap_mp)
        n = len(self.spec)
        s = [v[t.id] for t in self.spec]
        i = [v[t.id] for t in self.impl]
        if s[0] is not None and i[0] is None:
            return tags_differ  # a division by zero the reference does not make
        if s[0] is None or i[0] is None:
            return False
        if s[0] != i[0]:
            return s[0] in self.want or i[0] in self.want
        for k in self.want.get(int(s[0]), []):
            x, y = s[1 + k], i[1 + k]
            if x is None and y is None:
                continue
            if x is None or y is None:
                return True
            if abs(x - y) > self.tol.get(k, 0.0):
                return True
        return False

    def try_envs(self, chk, envs):
        envs = [e for e in envs if all(math.isfinite(x) for x in e.values())]
        if not envs:
            return None
        rows = []
        for e in envs:
            rows += list(self.rows(e))
        if self.spec_variant == self.variant:
            res = native.run(rows, self.variant, timeout=60)
        else:
            res = [None] * len(rows)
            res[0::2] = native.run(rows[0::2], self.spec_variant, timeout=60)
            res[1::2] = native.run(rows[1::2], self.variant, timeout=60)
        n = 0
        for j, e in enumerate(envs):
            s, i = res[2 * j], res[2 * j + 1]
            if s is None or i is None or not self.differ(s, i):
                continue
            n += 1
            if n > 60:
                break
            if not self.in_regime(e):
                continue
            if i[0] == "ok" and not self.differ_mp(e, s[0] == "ok" and s[1] != i[1]):
                continue
            return e, s, i, rows[2 * j], rows[2 * j + 1]
        return None

    def report(self, chk, hit):
        e, s, i, rs, ri = hit
        inp = ", ".join("%s=%r" % (k, e[k]) for k in e if not k.startswith("init"))
        if s[0] == "ok" and i[0] == "ok":
            if s[1] != i[1]:
                d = "reference gives %s, code gives %s" % (self.tagname.get(s[1], s[1]), self.tagname.get(i[1], i[1]))
            else:
                ks = self.want.get(s[1], [])
                d = "%s: reference %r, code %r" % (self.tagname.get(s[1], s[1]), [self.outs_spec(s)[k] for k in ks], [self.outs_impl(i)[k] for k in ks])
        else:
            d = "reference %r, code %r" % (s[:2], i[:2])
        chk.violation("%s: %s (%s)" % (self.label, d, inp), {
            "library": self.variant, "reference_call": rs, "code_call": ri, "inputs": e, "reference_result": s, "code_result": i})

    def search(self, chk, P, samples, ra, rb, rng):
        budget = time.time() + min(90, max(10, chk.left() * 0.25))
        hit = self.try_envs(chk, samples)
        if not hit:
            hit = self.try_envs(chk, self.guided(P, samples, ra, rb, budget))
        while not hit and time.time() < budget:
            more = [self.sampler(rng) for _ in range(2000)]
            for e in more[::3]:
                if "e" in e:
                    e["e"] = 1.0 - 10.0 ** rng.uniform(-3.0, 0.0)
            hit = self.try_envs(chk, more)
        if hit:
            self.report(chk, hit)
            if chk.violations:
                raise Refuted()
        return hit

    def guided(self, P, samples, ra, rb, budget):
        """Inputs aimed at the failed obligations: solver models projected on
        the inputs, and points on either side of comparisons that only one
        side makes."""
        res = []
        names = {t.aux for t in tm.topo(ra + rb) if t.op == "v" and t.sort == "F"}
        for c, n in P.failed[-60:]:
            m = P.model(c, n)
            if m:
                for s in samples[:20]:
                    e = dict(s)
                    e.update({k: v for k, v in m.items() if k in e})
                    res.append(e)
        atoms, seen = [], set()

        def differing(xs, ys):
            a, b = tm.topo(xs), tm.topo(ys)
            A, B = {t.id for t in a}, {t.id for t in b}
            for t in a + b:
                if t.op in ("flt", "feq") and (t.id in A) != (t.id in B) and t.id not in seen:
                    seen.add(t.id)
                    atoms.append(t)

        for c, n in P.assumed + [f for f in P.failed if f[0].op == f[1].op]:
            if c.op in ("flt", "feq") and n.op == c.op:
                for t in (c, n):
                    if t.id not in seen:
                        seen.add(t.id)
                        atoms.append(t)
            else:
                differing([c], [n])
        differing(ra, rb)
        for t in atoms:
            x, y = t.args
            if is_c(x):
                x, y = y, x
            if x.op == "v" and is_c(y) and math.isfinite(fval(y)):
                v = fval(y)
                for k in (v, math.nextafter(v, math.inf), math.nextafter(v, -math.inf), v * (1 + 1e-9), v * (1 - 1e-9), v * 1.001, v * 0.999):
                    for s in samples[:25]:
                        e = dict(s)
                        if x.aux in e:
                            e[x.aux] = k
                            res.append(e)
        for t in atoms[:40]:
            if time.time() > budget:
                break
            order = tm.topo([t])
            tv = [(s, numev.ev(order, s, 80, prove.snap_mp)[t.id]) for s in samples]
            pos = [s for s, v in tv if v is True]
            neg = [s for s, v in tv if v is False]
            for p, q in list(zip(pos, neg))[:3]:
                lo, hi = 0.0, 1.0
                mix = lambda f: {k: p[k] + (q[k] - p[k]) * f for k in p}
                for _ in range(50):
                    mid = (lo + hi) / 2
                    v = numev.ev(order, mix(mid), 80, prove.snap_mp)[t.id]
                    if v is None:
                        break
                    if v:
                        lo = mid
                    else:
                        hi = mid
                for d in (0.0, 1e-12, 1e-9, 1e-7, 1e-5, 1e-3):
                    res.append(mix(max(0.0, lo - d)))
                    res.append(mix(min(1.0, hi + d)))
        return res
