"""Orbit mean-elements messages: numeric fields given as numbers or text."""
import json
import math
import struct
import time

import z3

from sgp import *
import native
import strmodels
import terms as tm

CRATES = ("harness", "sgp4", "serde", "serde_json", "chrono", "num_traits", "itoa", "ryu")
KEYS = (
    "NORAD_CAT_ID ELEMENT_SET_NO REV_AT_EPOCH EPHEMERIS_TYPE MEAN_MOTION_DOT MEAN_MOTION_DDOT BSTAR "
    "INCLINATION RA_OF_ASC_NODE ECCENTRICITY ARG_OF_PERICENTER MEAN_ANOMALY MEAN_MOTION"
).split()
WIDTH = (64, 64, 64, 8) + (None,) * 9
KINDS = ("unsigned number", "negative number", "fractional number", "text", "truth value", "null", "list", "object")


class Run:
    def __init__(self, field, kind, k=None, x=None, text=()):
        ex = self.ex = Engine(build.modules("std", CRATES), strmodels.ALL)
        ex.feas = smt.feasible
        st = St()
        t = ex.new_obj(st, max(len(text), 1), "text")
        for i, b in enumerate(text):
            ex.store_prim(st, ptr(t, i), 1, b)
        a, f = ex.new_obj(st, 32, "ints"), ex.new_obj(st, 72, "floats")
        for i in range(4):
            ex.store_prim(st, ptr(a, 8 * i), 8, bv(0, 64))
        for i in range(9):
            ex.store_prim(st, ptr(f, 8 * i), 8, fc(0.0))
        k = bv(0, 64) if k is None else k
        x = fc(0.0) if x is None else x
        self.tag, s = ex.run("impl_omm", [bv(field, 64), bv(kind, 32), k, x, ptr(t), bv(len(text), 64), ptr(a), ptr(f)], st)
        if s is None:
            raise EngineError("impl_omm never returns")
        self.panics = list(ex.panics)
        self.values = [ex.load_prim(s, ptr(a, 8 * i), 8, "i") for i in range(4)] + [ex.load_prim(s, ptr(f, 8 * i), 8, "F") for i in range(9)]

# heads of long numbers around the limits of 32 and 64 bits
LONG = ("42949", "184467440737095", "99999999999999", "999999999999999", "1844674407370955")


def claims(field, kind, r, k, x, text):
    """(guard, actual, expected) triples that describe the right outcome"""
    v, w = r.values[field], WIDTH[field]
    accepted = mk_eq(r.tag, bv(0, 32))
    out = [(accepted, r.values[i], bv(100 + i, 64) if i < 4 else fc(100.0 + i)) for i in range(13) if i != field]

    def accept(g, value):
        out.extend([(g, r.tag, bv(0, 32)), (g, v, value)])

    def reject(g=TRUE):
        out.append((g, r.tag, bv(1, 32)))

    if kind >= 4:
        reject()
    elif kind == 0:
        if w is None:
            accept(TRUE, tm.mk_i2f("uitofp", k))
        else:
            fits = mk_ult(k, bv(256, 64)) if w == 8 else TRUE
            accept(fits, k)
            reject(mk_not(fits))
    elif kind == 1:
        if w is None:
            accept(TRUE, tm.mk_i2f("sitofp", k))
        else:
            reject()
    elif kind == 2:
        finite = mk_not(mk_or(mk_fcmp("feq", mk_f1("fabs", x), fc(math.inf)), mk_funo(x, x)))
        if w is None:
            accept(finite, x)
        else:
            # an integral value may be accepted, a fraction is never rounded
            out.append((mk_and(finite, accepted), tm.mk_i2f("uitofp", v), x))
    elif w is None:
        st = St()
        o = r.ex.new_obj(st, max(len(text), 1), "key")
        for i, b in enumerate(text):
            r.ex.store_prim(st, ptr(o, i), 1, b)
        key = strmodels.text_key(r.ex, st, ptr(o), bv(len(text), 64))
        good = mk_uf("parse_ok", "B", key)
        accept(good, mk_uf("parse_value", "F", key))
        reject(mk_not(good))
    else:
        digit = [mk_ult(mk_sub(b, bv(48, 8)), bv(10, 8)) for b in text]
        # a sign or surrounding blanks may be tolerated, other characters not
        loose = [mk_or(d, mk_eq(b, bv(43, 8)), mk_eq(b, bv(32, 8)), mk_and(mk_ult(bv(8, 8), b), mk_ult(b, bv(14, 8)))) for d, b in zip(digit, text)]
        wide = 8 + 4 * len(text)
        value = bv(0, wide)
        for b in text:
            value = mk_add(mk_mul(value, bv(10, wide)), mk_zext(mk_sub(b, bv(48, 8)), wide))
        if text:
            number = mk_and(*digit)
            fits = mk_ult(value, bv(1 << w, wide)) if wide > w and 10 ** len(text) > 1 << w else TRUE
            accept(mk_and(number, fits), mk_zext(value, 64) if wide < 64 else mk_extract(value, 63, 0) if wide > 64 else value)
            reject(mk_and(number, mk_not(fits)))
            reject(mk_not(mk_and(*loose)))
        else:
            reject()
    return out


def decide(field, kind, n, seconds=100):
    """verdict, counterexample (k, x, text), functions, for one field, kind and text length"""
    k = x = None
    text = []
    if kind in (0, 4):
        k = var("k", 64)
    elif kind == 1:
        k = mk_concat(bv(1, 1), var("k", 63))
    elif kind == 2:
        x = F("x")
    elif kind == 3:
        head, n = n if isinstance(n, tuple) else ("", n)
        text = [bv(ord(c), 8) for c in head] + [var("b%d" % i, 8) for i in range(n)]
    r = Run(field, kind, k, x, text)
    cv = smt.Conv("fp" if kind == 2 else "uf")
    sv = z3.Solver()
    bad = [cv(p.cond) for p in r.panics]
    for g, a, b in claims(field, kind, r, k, x, text):
        if a is not b and g is not FALSE:
            bad.append(z3.And(cv(g), cv(a) != cv(b)))
    sv.add(z3.Or(bad))
    # texts are valid UTF-8
    if kind == 3 and text:
        sv.add(cv(strmodels.utf8_ok(text)))
    sv.set("timeout", seconds * 1000)
    t0 = time.time()
    v = sv.check()
    m = None
    if v == z3.sat:
        mod = sv.model()
        num = lambda t: mod.eval(cv(t), True).as_long()
        m = [num(k) if k is not None else 0, None, bytes(num(b) for b in text).hex()]
    return [str(v), m, time.time() - t0, sorted(r.ex.visited)]


# ------------------------------------------------------------------ native replay
INTS = [0, 1, 7, 127, 128, 254, 255, 256, 257, 300, 999, 4095, 65535, 65536, 99999, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]
FLOATS = [0.1, 0.5, -0.5, 1.5, 2.0 ** -40, 1e-7, 123456.789, 16777217.5, 255.5, 256.0, 1e18, 1e19, 1.8446744073709552e19, 1e300, -1e-300, 1.7e308, -1e308, 1e-310, 5e-324, -1e-301, 1e-200, 1e-100, 1e-50, 1e-30, -1e-20, 1e-16, 1e-14, -1e-12, 1e-10, -1e-9, 1e-5, 359.99999, -360.25, 1e5, 1e10, 1e40, -1e100, 15.49560532, -0.00002218]
JUNK = ["", "abc", "1x", "0x10", "1.5.2", "--1", "1,5", "true", "null", "9" * 30, "1e", ".", "-"]


def replay(field, rows):
    """rows of (kind, k, x, text): the first one whose native outcome is wrong"""
    w = WIDTH[field]
    calls = []
    for kind, k, x, text in rows:
        calls.append(("impl_omm", "u32", [("i", field), ("u32", kind), ("i", k), ("f", native.hx(x)), ("sl", text.encode("latin-1").hex()), ("oi", 4), ("o", [native.hx(0.0)] * 9)]))
    texts = [t for kind, _, _, t in rows if kind == 3]
    parsed = dict(zip(texts, native.run([("rust_parse", "u32", [("sl", t.encode("latin-1").hex()), ("oi", 1)]) for t in texts]))) if w is None else {}
    for (kind, k, x, text), got in zip(rows, native.run(calls)):
        what = {0: "the number %d" % k, 1: "the number %d" % (k - 2 ** 64 if k >> 63 else k), 2: "the number %r" % x, 3: "the text %r" % text}.get(kind, KINDS[kind])
        say = lambda r: ((kind, k, x, text), "%s given as %s %s" % (KEYS[field], what, r))
        if got[0] != "ok":
            return say("panics")
        value = (got[2][0] + got[2][1])[field] if got[1] == 0 else None
        rest = [v for i, v in enumerate(got[2][0] + got[2][1]) if i != field]
        if got[1] == 0 and rest != [100 + i for i in range(13) if i != field]:
            return say("alters another field: %r" % rest)
        want = None
        if kind == 0:
            want = float(k) if w is None else k if k < 1 << w else None
        elif kind == 1:
            want = float(k - 2 ** 64) if w is None else None
        elif kind == 2:
            want = x if w is None else None
            if w is not None and value is not None and float(value) == x:
                continue
        elif kind == 3 and w is None:
            p = parsed[text]
            want = struct.unpack("<d", struct.pack("<Q", p[2][0][0]))[0] if p[1] == 1 else None
        elif kind == 3:
            t = text.strip()
            if t != text or t[:1] == "+":
                if value is None:
                    continue
                t = t.lstrip("+")
            want = int(t) if t.isascii() and t.isdigit() and int(t) < 1 << w else None
        if value != want and not (value is not None and want is not None and value != value and want != want):
            return say("is rejected" if value is None else "yields %r" % value + ("" if want is None else ", not %r" % want))
    return None


def candidates(kind):
    rows = []
    if kind == 0:
        rows = [(0, k, 0.0, "") for k in INTS]
    elif kind == 1:
        rows = [(1, (-k) % 2 ** 64, 0.0, "") for k in INTS if 0 < k <= 2 ** 63]
    elif kind == 2:
        rows = [(2, 0, x, "") for x in FLOATS]
    elif kind == 3:
        rows = [(3, 0, 0.0, t) for t in [str(k) for k in INTS] + [repr(x) for x in FLOATS] + ["-%d" % k for k in INTS] + ["%05d" % k for k in INTS] + JUNK]
    else:
        rows = [(kind, 0, 0.0, ""), (kind, 1, 0.0, "")]
    return rows


def C18(chk):
    short = list(range(0, 9)) if chk.thorough else list(range(0, 7))
    ints = short
    bytes_ = list(range(0, 9)) if chk.thorough else list(range(0, 7))
    floats = list(range(0, 25)) if chk.thorough else [0, 1, 2, 5, 10, 16]
    chk.bound(
        "every unsigned, negative and finite fractional value, both truth values, null, an empty list, an empty object, for each of the 13 numeric fields",
        "texts of %s bytes (64-bit fields) and longer ones made of %s followed by five arbitrary bytes, %s bytes (byte field), %s bytes (floating-point fields), any valid UTF-8" % (ints, " or ".join(LONG), bytes_, floats),
    )
    chk.assume(
        "values reach the crate as a serde data format reports them; how JSON text is split into values is serde_json's and outside",
        "f64::from_str is an arbitrary function of the text",
        "the other fields of the message hold distinct valid values",
    )
    jobs, keys = [], []
    for field in range(13):
        w = WIDTH[field]
        for kind in range(8):
            for n in (ints + [(h, 5) for h in LONG] if w == 64 else bytes_ if w == 8 else floats) if kind == 3 else (0,):
                keys.append((field, kind, n))
    def job(key):
        def fn():
            try:
                return json.dumps(decide(*key))
            except EngineError as e:
                return json.dumps(["error: %s" % e, None, 0.0, []])
        return fn

    Run(0, 0, var("k", 64))  # parse the modules once, before forking
    got = smt.pool([job(k) for k in keys], max(60, min(300, chk.left() - 60)))
    searched = {}
    for key, g in zip(keys, got):
        field, kind, n = key
        r = json.loads(g) if g and g.startswith("[") else ["error: %s" % g, None, 0.0, []]
        smt.STATS.add({"unsat": z3.unsat, "sat": z3.sat}.get(r[0], z3.unknown), r[2])
        chk.functions |= set(r[3])
        name = "%s given as %s%s" % (KEYS[field], KINDS[kind], "" if kind != 3 else " of %d bytes" % n if isinstance(n, int) else " %s and %d bytes" % n)
        if r[0] == "unsat":
            chk.obligation(name, True)
            continue
        rows = []
        if r[1] is not None:
            rows = [(kind, r[1][0], 0.5, bytes.fromhex(r[1][2]).decode("latin-1"))]
        bad = replay(field, rows) if rows else None
        if not bad:
            if (field, kind) not in searched:
                searched[field, kind] = replay(field, candidates(kind))
            bad = searched[field, kind]
        chk.obligation(name, False if bad else None, r[0])
        if bad and len(chk.violations) < 5:
            chk.violation(bad[1], {"field": KEYS[field], "kind": KINDS[kind], "value": list(bad[0])})
