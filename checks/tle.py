"""TLE decoding: panics, acceptance rules, field values, epochs."""
import os
import re
import time
from fractions import Fraction

import z3

from sgp import *
import native
import strmodels

A = "1 25544U 98067A   20194.88612269 -.00002218  00000-0 -31515-4 0  9992"
B = "2 25544  51.6461 221.2784 0001413  89.1723 280.4612 15.49507896236008"
CRATES = ("harness", "sgp4", "chrono", "num_traits")
N = 69


class Run:
    """One symbolic run of a TLE entry point."""

    def __init__(self, fn, fixed=None, n1=None, n2=None, errsize=64, hyp=()):
        """fixed: {term of a byte: constant}; n1/n2: line lengths (terms)"""
        ex = self.ex = Engine(build.modules("std", CRATES), strmodels.ALL)
        ex.feas = smt.feasible_near
        st = St()
        ob = lambda size, name: ex.new_obj(st, size, name)
        l1, l2 = ob(N, "line1"), ob(N, "line2")
        for i in range(N):
            ex.store_prim(st, ptr(l1, i), 1, byte(0, i, fixed))
            ex.store_prim(st, ptr(l2, i), 1, byte(1, i, fixed))
        self.objs = [(ob(size, name), size) for size, name in ((errsize, "error"), (80, "ints"), (72, "floats"), (16, "text"))]
        err, ints, floats, text = [o for o, _ in self.objs]
        for i in range(10):
            ex.store_prim(st, ptr(ints, 8 * i), 8, bv(0, 64))
        for i in range(9):
            ex.store_prim(st, ptr(floats, 8 * i), 8, fc(0.0))
        for i in range(16):
            ex.store_prim(st, ptr(text, i), 1, bv(0, 8))
        args = [ptr(l1), n1 or bv(N, 64), ptr(l2), n2 or bv(N, 64), ptr(err), ptr(ints), ptr(floats), ptr(text)]
        for c in hyp:
            st.add(c)
        self.tag, s = ex.run(fn, args, st)
        if s is None:
            raise EngineError(fn + " never returns")
        self.state = s
        self.panics = list(ex.panics)
        self.err = {k: v for k, v in ex.obj(s, err).cells.items()}
        self.ints = [ex.load_prim(s, ptr(ints, 8 * i), 8, "i") for i in range(10)]
        self.floats = [ex.load_prim(s, ptr(floats, 8 * i), 8, "F") for i in range(9)]
        self.text = [ex.load_prim(s, ptr(text, i), 1, "i") for i in range(16)]
        self.code = [ex.load_prim(s, ptr(err, 8 * i), 8, "i") for i in range(4)] if fn == "spec_tle" else None


def byte(line, i, fixed=None):
    if fixed and (line, i) in fixed:
        return bv(fixed[line, i], 8)
    return var("%s%d" % ("ab"[line], i), 8)


# ------------------------------------------------------------------ solving
def frange(t, memo=None):
    """(lo, hi) enclosing every non-NaN value of a float term."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = _frange(t, memo)
    return r


def _frange(t, memo):
    inf = math.inf
    if is_c(t):
        x = fval(t)
        return (x, x) if x == x else (-inf, inf)
    if t.op == "fsub" and t.args[1].op == "ftrunc" and t.args[1].args[0] is t.args[0]:
        return (-1.0, 1.0)
    if t.op in ("fmul", "fadd", "fsub"):
        (a, b), (c, d) = frange(t.args[0], memo), frange(t.args[1], memo)
        if inf in (b, d) or -inf in (a, c):
            return (-inf, inf)
        v = {"fmul": [a * c, a * d, b * c, b * d], "fadd": [a + c, b + d], "fsub": [a - d, b - c]}[t.op]
        return (min(v), max(v))  # rounding is monotone
    if t.op in ("fround", "ftrunc", "ffloor", "fceil"):
        a, b = frange(t.args[0], memo)
        return (a if a == -inf else float(math.floor(a)), b if b == inf else float(math.ceil(b)))
    if t.op == "ite":
        (a, b), (c, d) = frange(t.args[1], memo), frange(t.args[2], memo)
        return (min(a, c), max(b, d))
    if t.op == "fneg":
        a, b = frange(t.args[0], memo)
        return (-b, -a)
    if t.op == "fabs":
        a, b = frange(t.args[0], memo)
        return (0.0, max(abs(a), abs(b)))
    return (-inf, inf)


def lemmas(cv, roots):
    """Range facts for the float-to-integer conversions (NaN converts to 0)."""
    out = []
    for t in tm.topo(roots):
        if t.op == "fptoui":
            lo, hi = frange(t.args[0])
            if hi < 2.0 ** t.sort - 1:
                out.append(z3.ULE(cv(t), max(0, math.floor(hi))))
    return out


DIGIT = "0123456789"


def number_text(key):
    """Exact condition under which f64::from_str accepts the text."""
    n, bs = key[0], key[1:]
    is_ = lambda b, cs: mk_or(*[mk_eq(b, bv(ord(c), 8)) for c in cs])
    words = ["inf", "infinity", "nan"]
    # states: s start, p sign, i digits, d point after digits, D point without digits, f fraction, e, E sign, x exponent digits,
    # and (word, position)
    edges = {
        "s": [("+-", "p"), (DIGIT, "i"), (".", "D")],
        "p": [(DIGIT, "i"), (".", "D")],
        "i": [(DIGIT, "i"), (".", "d"), ("eE", "e")],
        "d": [(DIGIT, "f"), ("eE", "e")],
        "D": [(DIGIT, "f")],
        "f": [(DIGIT, "f"), ("eE", "e")],
        "e": [("+-", "E"), (DIGIT, "x")],
        "E": [(DIGIT, "x")],
        "x": [(DIGIT, "x")],
    }
    final = {"i", "d", "f", "x"}
    trie = {"": set()}
    for w in words:
        for k in range(len(w)):
            trie.setdefault(w[:k], set()).add(w[k])
            trie.setdefault(w[:k + 1], set())
        final.add("w" + w)
    for pre, nxt in trie.items():
        src = ["s", "p"] if pre == "" else ["w" + pre]
        for c in nxt:
            for s in src:
                edges.setdefault(s, []).append((c + c.upper(), "w" + pre + c))
    cur = {"s": TRUE}
    acc = FALSE
    for i, b in enumerate(bs):
        here = mk_eq(n, bv(i, n.sort))
        acc = mk_or(acc, mk_and(here, mk_or(*[c for s, c in cur.items() if s in final])))
        if is_c(b) and b.aux == 0:
            break
        new = {}
        memo = {}
        for s, c in cur.items():
            for cs, d in edges.get(s, ()):
                if cs not in memo:
                    memo[cs] = is_(b, cs)
                new[d] = mk_or(new.get(d, FALSE), mk_and(c, memo[cs]))
        cur = new
    return acc


def texts(roots):
    return [t for t in tm.topo(roots) if t.op == "uf" and t.aux == "parse_ok"]


PYOPS = {
    "fmul": lambda a, b: a * b, "fadd": lambda a, b: a + b, "fsub": lambda a, b: a - b, "fneg": lambda a: -a, "fabs": abs,
    "ftrunc": lambda a: float(math.trunc(a)), "ffloor": lambda a: float(math.floor(a)), "fceil": lambda a: float(math.ceil(a)),
    "fround": lambda a: math.copysign(math.floor(abs(a) + 0.5) if abs(a) < 2.0 ** 52 else abs(a), a),
}


def instances(cv, m, roots):
    """Facts about the uninterpreted functions at the model's own points."""
    out = []
    rows, apps = [], []
    for t in tm.topo(roots):
        if t.op == "uf" and t.aux in ("parse_value",):
            ks = [m.eval(cv(x), True) for x in t.args]
            n = ks[0].as_long()
            s = bytes(k.as_long() for k in ks[1:1 + n])
            if len(s) == n:
                rows.append(("rust_parse", "u32", [("sl", s.hex()), ("oi", 1)]))
                apps.append((t, ks))
    for (t, ks), r in zip(apps, native.run(rows) if rows else []):
        if r[0] == "ok" and r[1]:
            out.append(cv.func(t.aux, t)(*ks) == z3.BitVecVal(r[2][0][0], 64))
    for t in tm.topo(roots):
        if t.op in PYOPS or t.op == "fptoui":
            a = [tm.fval(tm.fbits(m.eval(cv(x), True).as_long())) for x in t.args]
            try:
                if t.op == "fptoui":
                    x = a[0]
                    v = 0 if x != x or x <= 0 else min((1 << t.sort) - 1, math.trunc(x) if math.isfinite(x) else 1 << 80)
                    v = z3.BitVecVal(v, t.sort)
                else:
                    v = z3.BitVecVal(tm.d2b(PYOPS[t.op](*a)), 64)
            except (OverflowError, ValueError):
                continue
            eq = z3.And(*[cv(x) == m.eval(cv(x), True) for x in t.args])
            out.append(z3.Implies(eq, cv(t) == v))
    return out


def lines(m):
    get = lambda c, i: m.eval(z3.BitVec("%s%d" % (c, i), 8), True).as_long()
    return [bytes(get(c, i) for i in range(N)).hex() for c in "ab"]


def cut(goal):
    """The goal with its checksums (sums over a whole line) replaced by arbitrary values."""
    m = {t.id: var("cut!%d" % t.id, t.sort) for t in tm.topo([goal]) if t.op == "urem" and len(smt.vars_of(t)) > 30}
    return tm.subst([goal], m)[0] if m else goal


def refute(goal, seconds, hyp=()):
    """goal: boolean term claimed infeasible.  -> "unsat" | "sat" + lines"""
    g = cut(goal)
    cv = smt.Conv("uf")
    cv.split = True
    s = z3.SolverFor("QF_UFBV")
    s.add(cv(g), *[cv(h) for h in hyp])
    s.add(*lemmas(cv, [g]))
    s.set("timeout", int(seconds * 500))
    if s.check() == z3.unsat:
        return "unsat"
    cv = smt.Conv("uf")
    s = z3.SolverFor("QF_UFBV")
    s.add(cv(goal), *[cv(h) for h in hyp])
    s.add(*lemmas(cv, [goal]))
    s.set("timeout", int(seconds * 1000))
    r = s.check()
    if r != z3.sat:
        return str(r)
    for t in texts([goal]):
        s.add(cv(t) == cv(number_text(t.args)))
    for _ in range(12):
        r = s.check()
        if r != z3.sat:
            return str(r)
        m = s.model()
        l = lines(m)
        if differs(l):
            break
        s.add(*instances(cv, m, [goal]))
        s.add(z3.Or(*[z3.BitVec("%s%d" % (c, i), 8) != x for c, h in zip("ab", l) for i, x in enumerate(bytes.fromhex(h))]))
    return "sat " + " ".join(l)


def result(rows):
    a, b = [bytes.fromhex(x) for x in rows]
    args = [("sl", a.hex()), ("sl", b.hex())]
    outs = [("oi", 10), ("o", [native.hx(0.0)] * 9), ("ob", 16)]
    i, s, m = native.run([
        ("impl_tle", "u32", args + [("ob", 64)] + outs),
        ("spec_tle", "u32", args + [("oi", 4)] + outs),
        ("impl_tle_message", "u32", args + [("ob", 256)]),
    ])
    return i, s, m


WHAT = [
    "Bad line checksum", "Bad line length", "Bad first character", "Parsing a float field failed",
    "Parsing a float field failed (special TLE float representation with assumed decimal point)",
    "Parsing an integer field failed", "Found a non-space character between fields", "Parsing a string field failed",
    "Tried to parse a float (special TLE float representation with assumed decimal point) with more than 16 ASCII characters",
    "NORAD mismatch between TLE lines", "Unknown classification code", "Date generation failed due to an error in the year",
    "Date generation failed due to an error in the seconds from midnight",
]
LINE = ["", "on TLE line 1", "on TLE line 2", "(TLE lines mismatch)"]


def message(code):
    what, line, start, end = code
    return "TLE parse error: %s %s between characters %d and %d" % (WHAT[what], LINE[line], start, end)


FIELDS = (
    ["norad_id", "classification", "element_set_number", "revolution_number", "ephemeris_type", "international_designator length",
     "epoch year", "epoch day", "epoch seconds", "epoch nanoseconds"],
    ["mean_motion_dot", "mean_motion_ddot", "drag_term", "inclination", "right_ascension", "eccentricity", "argument_of_perigee",
     "mean_anomaly", "mean_motion"],
)
TIME_INTS = (6, 7, 8, 9)


def close(x, y):
    return x == y or (x != x and y != y) or abs(x - y) <= 1e-12 * max(abs(x), abs(y))


def differs(rows, which="all"):
    """Native comparison with the reference decoder: (kind, text) or None."""
    i, s, m = result(rows)
    if i[0] != "ok":
        return ("panic", i[1] if len(i) > 1 else "hang")
    if s[0] != "ok":
        return None
    if i[1] != s[1]:
        return ("verdict", "accepted although %s" % message(s[2][0]) if s[1] else "rejected: " + bytes(m[2][0][:m[1]]).decode("utf8", "replace"))
    if i[1]:
        got = bytes(m[2][0][:m[1]]).decode("utf8", "replace") if m[0] == "ok" else ""
        if got != message(s[2][0]):
            return ("error", "%r instead of %r" % (got, message(s[2][0])))
        return None
    for k, (x, y) in enumerate(zip(i[2][1], s[2][1])):
        if x != y and k not in TIME_INTS:
            return ("field", "%s = %d instead of %d" % (FIELDS[0][k], x, y))
    for k, (x, y) in enumerate(zip(i[2][2], s[2][2])):
        if not close(x, y):
            return ("field", "%s = %r instead of %r" % (FIELDS[1][k], x, y))
    if i[2][3] != s[2][3]:
        return ("field", "international_designator = %r instead of %r" % (bytes(i[2][3]), bytes(s[2][3])))
    if i[2][1][6:8] != s[2][1][6:8]:
        return ("epoch", "year and day %s instead of %s" % (i[2][1][6:8], s[2][1][6:8]))
    return None


KINDS = {"C13": ("panic",), "C14": ("panic", "verdict", "error"), "C15": ("panic", "field"), "C16": ("panic", "epoch")}


COLUMNS = [
    [(0, 2, 7), (1, 2, 7)], [(0, 7, 8)], [(0, 9, 11)], [(0, 11, 17)], [(0, 18, 20)], [(0, 18, 23)], [(0, 20, 32)], [(0, 33, 43)], [(0, 44, 52)],
    [(0, 53, 59)], [(0, 59, 61)], [(0, 62, 63)], [(0, 64, 68)], [(1, 8, 16)], [(1, 17, 25)], [(1, 26, 33)], [(1, 34, 42)], [(1, 43, 51)],
    [(1, 52, 63)], [(1, 63, 68)], [(0, 0, 2)], [(1, 0, 2)],
]


def near(goal, free, seconds):
    """refute() with every column outside some fields taken from a valid pair"""
    keep = {(l, k) for l, a, b in free for k in range(a, b)} | {(0, 68), (1, 68)}
    m = {byte(l, k).id: bv(c, 8) for l, x in enumerate((A, B)) for k, c in enumerate(x.encode()) if (l, k) not in keep}
    g = tm.subst([goal], m)[0]
    if g is FALSE:
        return "unsat"
    fix = [mk_eq(byte(l, k), bv(c, 8)) for l, x in enumerate((A, B)) for k, c in enumerate(x.encode()) if (l, k) not in keep]
    return refute(g, seconds, fix)


def settle(chk, names, goals, seconds=150):
    """Every goal must be infeasible; counterexamples are replayed natively."""
    ans = {k: None for k, g in enumerate(goals) if g is not FALSE}
    t0 = time.time()

    def log(what):
        def f(k, r):
            if os.environ.get("VERIF_DEBUG"):
                print("  %6.1f s %s: %s" % (time.time() - t0, what[k], (r or "none")[:10]), flush=True)
        return f

    def confirmed(r):
        if r and r.startswith("sat "):
            d = differs(r.split()[1:])
            if d and d[0] in KINDS[chk.prop]:
                return d

    def round_(sec, limit):
        todo = [k for k in ans if ans[k] != "unsat" and not confirmed(ans[k])]
        jobs = [lambda g=goals[k]: refute(g, sec) for k in todo]
        for k, r in zip(todo, smt.pool(jobs, min(limit, max(30, chk.left())), log=log([names[k] for k in todo]))):
            ans[k] = r

    round_(min(50, seconds), 120)
    open_ = [k for k in ans if ans[k] != "unsat"]
    if open_ and not any(confirmed(ans[k]) for k in open_):
        # most breaks show in one field of an otherwise valid pair
        jobs = [lambda g=mk_or(*[goals[k] for k in open_]), c=c: near(g, c, 15) for c in COLUMNS]
        for r in smt.pool(jobs, 45, log=log([str(c) for c in COLUMNS])):
            d = confirmed(r)
            if d:
                rows = r.split()[1:]
                for k in open_:
                    chk.obligation(names[k], False, d[1])
                chk.violation("%s: line1=%r line2=%r" % (d[1], bytes.fromhex(rows[0]), bytes.fromhex(rows[1])),
                              {"line1": rows[0], "line2": rows[1], "difference": d})
                return
        round_(seconds, 3 * seconds)
    for k, name in enumerate(names):
        r = ans.get(k, "unsat")
        if k in ans:
            smt.STATS.add({"unsat": z3.unsat}.get(r, z3.sat if r and r.startswith("sat") else z3.unknown), 0.0)
        if r == "unsat":
            chk.obligation(name, True)
            continue
        d = confirmed(r)
        if d:
            rows = r.split()[1:]
            chk.obligation(name, False, d[1])
            chk.violation("%s: %s: line1=%r line2=%r" % (name, d[1], bytes.fromhex(rows[0]), bytes.fromhex(rows[1])),
                          {"line1": rows[0], "line2": rows[1], "difference": d})
            continue
        chk.obligation(name, None, (r or "no answer")[:40])
    smt.STATS.time += time.time() - t0


def state(chk):
    chk.bound("both lines of 69 bytes, every byte value in every column")
    chk.assume(
        "f64::from_str is a function of its text; counterexamples use its exact grammar and values",
        "core::str::from_utf8, str::trim, slice copy, allocation and format! are modelled (engine/strmodels.py)",
        "floating-point operations of the decoder are functions of their operands (same operands, same result)",
    )


def pair(chk):
    state(chk)
    i, s = Run("impl_tle"), Run("spec_tle")
    chk.encoded(i.ex)
    chk.extra["instructions_executed"] = i.ex.ninst
    for pc, c in i.ex.side:
        # formatting of other than four digits
        chk.obligation("designator year has four digits", refute(mk_and(*pc, mk_not(c)), 60) == "unsat" or None)
    return i, s


def where(p):
    m = re.findall(r"\d+([a-z_]\w*?)(?=\d|E|_|$)", p.where)
    return "%s" % re.sub(r".*?(panic\w*)$", r"\1", p.what)


def C13(chk):
    state(chk)
    i = Run("impl_tle")
    chk.encoded(i.ex)
    chk.witness("a TLE is accepted", result([A.encode().hex(), B.encode().hex()])[0][:2] == ("ok", 0))
    chk.witness("panic sites are reached by the encoding", len(i.panics) > 0)
    names, goals = [], []
    for k, p in enumerate(i.panics):
        names.append("panic site %d (%s) unreachable" % (k, where(p)))
        goals.append(mk_and(*p.pc))
    settle(chk, names, goals)
    # other lengths
    n1, n2 = var("n1", 64), var("n2", 64)
    for what, kw, c in (
        ("first line not 69 bytes", dict(n1=n1), mk_not(mk_eq(n1, bv(N, 64)))),
        ("second line not 69 bytes", dict(n2=n2), mk_not(mk_eq(n2, bv(N, 64)))),
    ):
        length(chk, what, kw, c)


def length(chk, what, kw, c):
    try:
        r = Run("impl_tle", hyp=[c], **kw)
    except EngineError as e:
        chk.obligation("%s: rejected without panic" % what, None, str(e))
        return
    chk.bound(what + ": every length up to isize::MAX")
    for k, g in [("rejected", mk_not(mk_eq(r.tag, bv(1, 32))))] + [("panic %s" % where(p), mk_and(*p.pc)) for p in r.panics]:
        s = z3.Solver()
        cv = smt.Conv("uf")
        s.add(cv(g), cv(c))
        v = smt.check(s, 60000)
        name = "%s: %s" % (what, "rejected" if k == "rejected" else k + " unreachable")
        if v == z3.unsat:
            chk.obligation(name, True)
            continue
        ok = None
        if v == z3.sat:
            m = s.model()
            ls = [bytes.fromhex(x) for x in lines(m)]
            for j, nm in enumerate(("n1", "n2")):
                if nm in kw:
                    n = m.eval(cv(kw[nm]), True).as_long()
                    if n < 4096:
                        ls[j] = (ls[j] + b"0" * n)[:n]
            d = differs([x.hex() for x in ls])
            if d and d[0] in KINDS[chk.prop]:
                ok = False
                chk.violation("%s: %s: line1=%r line2=%r" % (name, d[1], *ls), {"line1": ls[0].hex(), "line2": ls[1].hex()})
        chk.obligation(name, ok)
    return r


# ------------------------------------------------------------------ acceptance rules
def checksum(line):
    v = sum(1 if c == 45 else c - 48 if 48 <= c <= 57 else 0 for c in line[:68])
    return line[:68] + bytes([48 + v % 10])


def witnesses():
    """{error code: (message, error bytes, lines)} over single-field mutations of a valid pair."""
    import itertools

    fields = [(0, 2, 7), (1, 2, 7), (0, 7, 8), (0, 9, 11), (0, 11, 17), (0, 18, 20), (0, 20, 32), (0, 33, 43), (0, 44, 50), (0, 50, 52),
              (0, 53, 59), (0, 59, 61), (0, 62, 63), (0, 64, 68), (1, 8, 16), (1, 17, 25), (1, 26, 33), (1, 34, 42), (1, 43, 51),
              (1, 52, 63), (1, 63, 68)] + [(l, i, i + 1) for l in (0, 1) for i in range(N)]
    rows = []
    for l, a, b in fields:
        for fill in (b"x", b"\xff", b"0", b"9"):
            x = [A.encode(), B.encode()]
            x[l] = x[l][:a] + fill * (b - a) + x[l][b:]
            if a != 68:
                x = [checksum(y) for y in x]
            rows.append(x)
        if b - a > 2:
            x = [A.encode(), B.encode()]
            x[l] = checksum(x[l][:a] + b" " * (b - a - 1) + b"-" + x[l][b:])
            rows.append(x)
            x = [A.encode(), B.encode()]
            x[l] = checksum(x[l][:a] + b" " * (b - a) + x[l][b:])
            rows.append(x)
    for l in (0, 1):
        for n in (0, 68, 70):
            x = [A.encode(), B.encode()]
            x[l] = (x[l] + b"0")[:n]
            rows.append(x)
    req = []
    outs = [("oi", 10), ("o", [native.hx(0.0)] * 9), ("ob", 16)]
    for a, b in rows:
        args = [("sl", a.hex()), ("sl", b.hex())]
        req += [("spec_tle", "u32", args + [("oi", 4)] + outs), ("impl_tle", "u32", args + [("ob", 64)] + outs),
                ("impl_tle_message", "u32", args + [("ob", 256)])]
    got = native.run(req, timeout=60)
    res = {}
    for k, (a, b) in enumerate(rows):
        s, i, m = got[3 * k:3 * k + 3]
        if s[0] != "ok" or s[1] != 1:
            continue
        code = tuple(s[2][0])
        if code not in res:
            msg = bytes(m[2][0][:m[1]]).decode("utf8", "replace") if m[0] == "ok" else None
            res[code] = (msg, i[2][0] if i[0] == "ok" and i[1] == 1 else None, (a.hex(), b.hex()))
    return res


def C14(chk):
    wit = witnesses()
    chk.extra["error_kinds"] = len(wit)
    i, s = pair(chk)
    acc = lambda r: mk_eq(r.tag, bv(0, 32))
    rej = lambda r: mk_eq(r.tag, bv(1, 32))
    is_code = lambda code: mk_and(rej(s), *[mk_eq(c, bv(x, 64)) for c, x in zip(s.code, code)])
    bad = False
    for code, (msg, raw, ls) in sorted(wit.items()):
        ok = msg == message(code) and raw is not None
        chk.obligation("witness of '%s'" % message(code), ok, "got %r" % msg)
        if not ok:
            bad = True
            d = differs(list(ls))
            chk.violation("'%s' expected, got %s" % (message(code), d), {"line1": ls[0], "line2": ls[1], "difference": d})
    if bad:
        return
    pay = payload(wit)
    chk.extra["error_payload_bytes"] = len(pay)
    names, goals = [], []
    names.append("every pair passing the rules is accepted")
    goals.append(mk_and(acc(s), mk_not(acc(i))))
    fixed = [c for c in wit if c[0] != 1]
    for code in sorted(fixed):
        msg, raw, ls = wit[code]
        same = [rej(i)]
        for off, (size, v) in defined(i, pay).items():
            same.append(mk_eq(v, bv(number(raw, off, size), 8 * size)))
        names.append("'%s' reported exactly then" % msg)
        goals.append(mk_and(is_code(code), mk_not(mk_and(*same))))
    names.append("no other error")
    goals.append(mk_and(rej(s), *[mk_not(is_code(c)) for c in fixed], mk_not(mk_eq(s.code[0], bv(12, 64)))))
    settle(chk, names, goals)
    raws = [tuple(number(w[1], off, size) for off, (size, v) in defined(i, pay).items()) for w in wit.values()]
    chk.obligation("distinct problems have distinct errors", len(set(raws)) == len(raws) or None)
    for what, code, kw in (("first line not 69 bytes", 1, "n1"), ("second line not 69 bytes", 2, "n2")):
        n = var(kw, 64)
        r = length(chk, what, {kw: n}, mk_not(mk_eq(n, bv(N, 64))))
        if r is None:
            continue
        # error cells: same as the witness' with the length in place of the end column
        raw = next(w[1] for c, w in wit.items() if c[0] == 1 and c[1] == code and c[3] == 68)
        diff = []
        for off, (size, v) in defined(r, pay).items():
            k = number(raw, off, size)
            diff.append(mk_not(mk_eq(v, n if size == 8 and k == 68 else bv(k, 8 * size))))
        sv = z3.Solver()
        cv = smt.Conv("uf")
        sv.add(cv(mk_or(*diff)), cv(mk_not(mk_eq(n, bv(N, 64)))))
        chk.obligation("%s: reported with its length" % what, smt.check(sv, 60000) == z3.unsat or None)
    chk.bound("from_num_seconds_from_midnight failures (unreachable, see C16) are compared with the reference as any other rejection")


def number(raw, off, size):
    return sum(raw[off + j] << (8 * j) for j in range(size))


def payload(wit):
    """Offsets of the error value that are not padding: bytes whose exchange
    between two error values (both valid) changes the reported text."""
    raws = sorted({tuple(w[1]): w[0] for w in wit.values()}.items())
    rows, at = [], []
    for k in range(len(raws[0][0])):
        for j, (x, msg) in enumerate(raws):
            for d in (1, 7, 20):
                y = raws[(j + d) % len(raws)][0]
                if x[k] != y[k]:
                    z = list(x)
                    z[k] = y[k]
                    rows.append(("impl_error_text", "u32", [("s", bytes(z).hex()), ("ob", 256)]))
                    at.append((k, msg))
    res = set()
    for (k, msg), r in zip(at, native.run(rows, timeout=60)):
        if r[0] != "ok" or bytes(r[2][0][:r[1]]).decode("utf8", "replace") != msg:
            res.add(k)
    return res


def defined(r, pay):
    """cells of the error value, padding excluded"""
    return {off: (size, v) for off, (size, v) in r.err.items() if any(off + j in pay for j in range(size))}


# ------------------------------------------------------------------ field values
def C15(chk):
    chk.witness("a TLE is accepted", result([A.encode().hex(), B.encode().hex()])[0][:2] == ("ok", 0))
    i, s = pair(chk)
    both = mk_and(mk_eq(s.tag, bv(0, 32)), mk_eq(i.tag, bv(0, 32)))
    names, goals = [], []
    for k, name in enumerate(FIELDS[0]):
        if k not in TIME_INTS:
            names.append(name)
            goals.append(mk_and(both, mk_not(mk_eq(i.ints[k], s.ints[k]))))
    for k, name in enumerate(FIELDS[1]):
        names.append(name)
        goals.append(mk_and(both, mk_not(mk_eq(mk_f2bits(i.floats[k]), mk_f2bits(s.floats[k])))))
    for k in range(16):
        names.append("international_designator byte %d" % k)
        goals.append(mk_and(both, mk_not(mk_eq(i.text[k], s.text[k]))))
    settle(chk, names, goals)


# ------------------------------------------------------------------ epochs
def time_bytes():
    """lines with only the epoch columns and the checksum free"""
    f = {(0, k): c for k, c in enumerate(A.encode()) if not (18 <= k < 32 or k == 68)}
    f.update({(1, k): c for k, c in enumerate(B.encode())})
    return f


def day_leaf(roots):
    """the day-of-year value read from the text, a rational k + f plus the conversion error"""
    ts = [t for t in tm.topo(roots) if t.op == "uf" and t.aux == "parse_value" and smt.vars_of(t)]
    if not ts:
        raise EngineError("day of year not found")
    if len(ts) > 1:
        raise EngineError("%d day texts" % len(ts))
    k, f, e = z3.Int("day"), z3.Real("fraction"), z3.Real("conversion")
    lim = z3.RatVal(1, 2 ** 44)
    hyp = [k >= 0, k < 1000, f >= 0, f <= 1 - z3.RatVal(1, 10 ** 10), z3.Or(f == 0, f >= z3.RatVal(1, 10 ** 10)),
           e >= -lim, e <= lim, z3.Implies(f == 0, e == 0)]
    return ts[0], k, f, hyp, z3.ToReal(k) + f + e


def nanos(rows):
    return nanos_of(rows, result([x.hex() for x in rows])[0])


def nanos_of(rows, i):
    """exact error in seconds of the natively decoded epoch, None when rejected"""
    from fractions import Fraction
    if i[0] != "ok":
        return "panic"
    if i[1]:
        return None
    v = i[2][1]
    day = Fraction(rows[0][20:32].decode().strip())
    y = int(rows[0][18:20])
    if v[6] != (2000 + y if y < 57 else 1900 + y):
        return "year %d" % v[6]
    if v[8] >= 86400 or v[9] >= 10 ** 9:
        return "time of day %d s %d ns" % (v[8], v[9])
    d = (v[7] - 1) * 86400 + v[8] + Fraction(v[9], 10 ** 9) - (day - 1) * 86400
    return d


def C16(chk):
    import intconv
    chk.assume(
        "the text of the day converts to the nearest binary64 value (error at most 2^-44 for days below 1000, exact for whole days)",
        "every rounded operation has a relative error of at most 2^-53; truncation, remainder and conversions are exact",
        "the fraction of day has at most ten decimals (the field has twelve columns)",
    )
    chk.bound("every day number below 1000 (larger ones are covered by the rejection obligations)", "every fraction of day with at most ten decimals")
    # year and day number, rejection of days outside the year: all bytes
    i, s = pair(chk)
    both = mk_and(mk_eq(s.tag, bv(0, 32)), mk_eq(i.tag, bv(0, 32)))
    names = ["epoch year", "epoch day number", "days outside the year are rejected"]
    goals = [mk_and(both, mk_not(mk_eq(i.ints[6], s.ints[6]))), mk_and(both, mk_not(mk_eq(i.ints[7], s.ints[7]))),
             mk_and(mk_eq(s.tag, bv(1, 32)), mk_eq(s.code[0], bv(11, 64)), mk_eq(i.tag, bv(0, 32)))]
    KINDS["C16"] = ("panic", "epoch", "verdict")
    settle(chk, names, goals)
    # time of day: real arithmetic with rounding errors
    r = Run("impl_tle", fixed=time_bytes())
    roots = [r.tag, r.ints[8], r.ints[9]]
    leaf, k, f, hyp, value = day_leaf(roots)
    cv = intconv.IntConv({leaf.id: (value, 0, 1000)})
    acc = cv(r.tag) == 0
    sec, ns = cv(r.ints[8]), cv(r.ints[9])
    err = z3.ToReal(sec) + z3.ToReal(ns) / 10 ** 9 - f * 86400
    micro = z3.RatVal(1, 10 ** 6)
    claims = [
        ("seconds of day below 86400", sec < 86400),
        ("nanoseconds below 10^9", ns < 10 ** 9),
        ("decoded time of day within one microsecond", z3.And(err < micro, err > -micro)),
    ]
    rej = mk_eq(r.tag, bv(1, 32))
    later = [d for d in (rej.args if rej.op == "or" else (rej,)) if any(t.op in ("fmul", "fround") for t in tm.topo([d]))]
    jobs = [(name, z3.And(acc, z3.Not(c)), False) for name, c in claims]
    jobs += [("rounding never rejects a time of day (%d)" % j, cv(d), True) for j, d in enumerate(later)]
    for name, goal, reject in jobs:
        sv = z3.Solver()
        sv.add(goal, *hyp, *cv.side)
        t = time.time()
        v = smt.check_hard(sv, 120000)
        if v == z3.unsat:
            chk.obligation(name, True)
            continue
        chk.obligation(name, False if epoch_counterexample(chk, name, sv, k, f, reject) else None, str(v))
    chk.witness("an epoch is decoded", nanos([A.encode(), B.encode()]) is not None)


def epoch_counterexample(chk, name, sv, k, f, reject):
    """Looks for a text of eight decimals, replays it."""
    j = z3.Int("decimals")
    sv.add(j >= 0, j < 10 ** 8, f == z3.ToReal(j) / 10 ** 8, k >= 1, k <= 365)
    for c, d in ((18, 0), (19, 4)):
        sv.add(z3.Int("a%d" % c) == 48 + d)
    seen = []
    tries = [(194, 0), (194, 99999999), (365, 99999999), (1, 1), (60, 50000000)]
    got = smt.model_hard(sv, 60000, lambda m: [m.eval(k, True).as_long(), m.eval(j, True).as_long()])
    if got:
        tries.insert(0, tuple(got))
    # whole seconds, whose products with 86400 round to either side
    tries += [(day, 31250 * q) for day in (1, 59, 194, 366) for q in range(3200)]
    text = lambda day, dec: checksum(A.encode()[:18] + b"04" + ("%3d.%08d" % (day, dec)).encode() + A.encode()[32:])
    outs = [("ob", 64), ("oi", 10), ("o", [native.hx(0.0)] * 9), ("ob", 16)]
    rows = [text(*x) for x in tries]
    for a, r in zip(rows, native.run([("impl_tle", "u32", [("sl", a.hex()), ("sl", B.encode().hex())] + outs) for a in rows], timeout=60)):
        if r is None:
            continue
        e = nanos_of([a, B.encode()], r)
        if e is None or isinstance(e, str) or abs(e) >= Fraction(1, 10 ** 6):
            chk.violation("%s: day text %r: %s" % (name, a[20:32].decode(), "rejected" if e is None else e if isinstance(e, str) else "off by %.9f s" % float(e)),
                          {"line1": a.hex(), "line2": B.encode().hex()})
            return True
    return False
