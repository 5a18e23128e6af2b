"""Regenerates MANIFEST.json from the list of implemented checks."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = ("Every obligation is a z3 query over terms obtained by symbolically executing the compiled crate's LLVM IR; "
        "the claim is limited to the bounds and assumptions listed in the evidence file. ")
CHECKS = {
    "C01": ("symbolic execution of LLVM IR + SMT equivalence with a reference model", "Real arithmetic, up to rounding; all near-Earth inputs."),
    "C02": ("symbolic execution of LLVM IR + SMT equivalence with a reference model", "Real arithmetic, up to rounding; all non-resonant deep-space inputs."),
    "C03": ("symbolic execution of LLVM IR + SMT equivalence with a reference model", "Real arithmetic, up to rounding; time bounded, see evidence."),
    "C05": ("symbolic execution of LLVM IR + SMT equivalence with a reference model", "Real arithmetic, up to rounding."),
    "C04": ("symbolic execution of LLVM IR + SMT comparison of the two modes", "Real arithmetic, up to rounding; resonant orbits up to the time bound in the evidence."),
    "C07": ("symbolic execution of LLVM IR + SMT equivalence and range proof", "Real arithmetic, up to rounding; epochs within 200 years of J2000."),
    "C09": ("symbolic execution of LLVM IR from a symbolic integrator state + SMT", "Results are identical terms (equal bit for bit); induction step from any state, step count per call bounded."),
    "C10": ("symbolic execution of LLVM IR from a symbolic integrator state + SMT", "The panic condition is proved equal to the documented one; time beyond the state bounded."),
    "C12": ("symbolic execution of LLVM IR + SMT over exact binary64 time arithmetic", "Time bounded, plus NaN and infinities."),
    "C13": ("symbolic execution of LLVM IR over all line bytes + SMT reachability of panics", "All bytes of both 69-byte lines, all other lengths; library text routines modelled."),
    "C14": ("symbolic execution of LLVM IR over all line bytes + SMT equivalence with a reference decoder", "All bytes of both 69-byte lines, all other lengths; number text conversion is an uninterpreted function."),
    "C15": ("symbolic execution of LLVM IR over all line bytes + SMT equivalence with a reference decoder", "All bytes of both 69-byte lines; number text conversion is an uninterpreted function."),
    "C06": ("symbolic execution of LLVM IR + SMT equivalence of every stored constant", "The epoch functions are uninterpreted here (C08 checks them)."),
    "C17": ("symbolic execution of LLVM IR + SMT with the single-record parser uninterpreted", "Texts of at most 11 bytes with every byte arbitrary, and some layouts of long lines."),
    "C18": ("symbolic execution of LLVM IR (crate, serde, serde_json) + SMT over exact integers and binary64", "Number text conversion of floating-point fields is uninterpreted."),
    "C08": ("symbolic execution of LLVM IR (crate and chrono) + SMT over bit vectors and reals with rounding errors", "Years 1901 to 2099; rounding of every operation bounded."),
    "C16": ("symbolic execution of LLVM IR over all line bytes + SMT over integers and reals with rounding errors", "Fractions of day with at most ten decimals; number text conversion taken as correctly rounded."),
    "C19": ("symbolic execution of LLVM IR + SMT over exact binary64, integers and reals with rounding errors", "chrono's datetime difference and checked addition are uninterpreted."),
    "C20": ("symbolic execution of LLVM IR of both builds + SMT equivalence", "Real arithmetic, up to rounding."),
    "C11": ("symbolic execution of LLVM IR + SMT equivalence with a reference model", "Real arithmetic, up to rounding; time bounded for resonant orbits."),
}
PENDING = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            t, n = CHECKS[i]
            cmd = "python3-vt checks/run.py %s" % i
            checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd, "evidence_file": "evidence/%s.json" % i,
                           "technique": t, "level": "proof", "level_note": NOTE + n})
        else:
            na.append({"property": i, "reason": PENDING.get(i, "no check is implemented yet")})
    m = {"version": 1, "setup_cmd": "python3-vt checks/setup.py", "hooks": {"guard": "none", "enable": "no hooks are used", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Checks build the harness crate in /verif/harness against /repo and write only below /verif/.build, /verif/evidence and /verif/replay."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
