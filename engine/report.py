"""Check bookkeeping: obligations, evidence, known findings, exit status."""
import json
import os
import re
import sys
import time
import traceback

import build
import smt

VERIF = build.VERIF

TRUSTED = [
    "rustc/LLVM front end up to the emitted IR (opt-level 1, overflow checks on)",
    "engine/ (IR parser, symbolic executor, term simplifier, z3 translation)",
    "z3 5.3.2",
]


class Check:
    def __init__(self, prop, technique=""):
        self.prop = prop
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.obl = []  # (name, status)
        self.bounds = []
        self.assumptions = []
        self.functions = set()
        self.violations = []
        self.known_hits = []
        self.extra = {}
        self.technique = technique
        self.known = load_known(prop)
        self.deadline = self.t0 + (780 if self.tier == "quick" else 7200)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return self.deadline - time.time()

    def bound(self, *xs):
        self.bounds += [x for x in xs if x not in self.bounds]

    def assume(self, *xs):
        self.assumptions += [x for x in xs if x not in self.assumptions]

    def encoded(self, ex):
        self.functions |= set(getattr(ex, "visited", ()))

    def obligation(self, name, ok, detail=""):
        """ok: True discharged, False refuted, None undecided"""
        self.obl.append((name, {True: "discharged", False: "refuted", None: "undecided"}[ok]))
        if ok is not True:
            print("%s: %s %s" % ("REFUTED" if ok is False else "UNDECIDED", name, detail), flush=True)

    def witness(self, name, ok):
        """Reachability witness: a vacuous harness is an error of the check."""
        self.extra.setdefault("witnesses", {})[name] = bool(ok)
        if not ok:
            raise RuntimeError("vacuous: " + name)

    def violation(self, what, data):
        """what: stable one-line identification of the failing input/call site."""
        for k in self.known:
            if k["match"] in what:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
                return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": data}, f, indent=1, default=str)
        self.violations.append((what, path))
        print("violated: " + what, flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)

    def finish(self):
        st = smt.STATS
        n = len(self.obl)
        ok = sum(1 for _, s in self.obl if s == "discharged")
        und = [x for x, s in self.obl if s == "undecided"]
        cov = {
            "obligations": n,
            "discharged": ok,
            "undecided": und,
            "refuted": [x for x, s in self.obl if s == "refuted"],
            "obligation_names": [x for x, _ in self.obl][:400],
            "bounds": self.bounds,
            "functions_encoded": sorted(self.functions),
            "functions_encoded_count": len(self.functions),
            "solver_queries": st.queries,
            "solver_unsat": st.unsat,
            "solver_sat": st.sat,
            "solver_unknown": st.unknown,
            "solver_time_s": round(st.time, 3),
            "checker_cmd": "python3-vt checks/run.py %s" % self.prop,
            "trusted_base": TRUSTED,
            "known_findings_hit": [k["what"] for k in self.known_hits],
            "explanation": "symbolic execution of the compiled code's LLVM IR, every obligation decided by z3 within the stated bounds",
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "proof",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d/%d obligations discharged, %d undecided, %d violations, %d queries, %.1f s" % (
            self.prop, ok, n, len(und), len(self.violations), st.queries, time.time() - self.t0), flush=True)
        return 1 if self.violations else 0


def load_known(prop):
    """Lines 'known: property=<id> match=<substring> :: <what fails>'; lines
    starting with 'fixed:' document repaired defects and suppress nothing."""
    res = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)", line.strip())
        if m and m.group(1) == prop:
            res.append({"match": m.group(2), "what": m.group(3)})
    return res
