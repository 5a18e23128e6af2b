"""Multi-record texts: grouping of lines into records."""
import itertools
import json
import signal
import time

import z3

from sgp import *
import terms as tm
import native
import strmodels
from times import CRATES

RECORDS, NAME = 8, 32
SIZE = 16 + 16 * RECORDS + RECORDS * NAME


def oracle(ex, st, av):
    """the single-record parser: an arbitrary function of the two lines"""
    key = []
    for p, n in ((av[0], av[1]), (av[2], av[3])):
        n = st.simp(n)
        p = st.simp(p)
        off = None
        for g, o, f in p.cases:
            if o != ex.text and not (is_c(n) and n.aux == 0):
                raise EngineError("a line outside the text")
            f = f if o == ex.text else bv(0, 64)
            off = f if off is None else mk_ite(g, f, off)
        # lines are identified by their place in the text; empty ones are all alike
        off = mk_ite(mk_eq(n, bv(0, 64)), bv(0, 64), off)
        key += [off, n]
    return mk_uf("record", 64, tuple(key))


def redirect(target):
    def fn(ex, st, av):
        return ex.invoke(st, None, target, av)
    return fn


class Outcome:
    def __init__(self, fn, triplets, text):
        ex = self.ex = Engine(build.modules("std", CRATES), strmodels.ALL)
        ex.feas = smt.feasible
        for n in ex.byname:
            if n.endswith("8Elements8from_tle"):
                ex.overrides[n] = redirect("fake_tle")
            if n.endswith("8Elements10from_lines"):
                ex.overrides[n] = redirect("fake_lines")
        ex.overrides["oracle"] = oracle
        st = St()
        ex.text = t = ex.new_obj(st, max(len(text), 1), "text")
        for i, b in enumerate(text):
            ex.store_prim(st, ptr(t, i), 1, b)
        o = ex.new_obj(st, SIZE, "outcome")
        for i in range(0, 16 + 16 * RECORDS, 8):
            ex.store_prim(st, ptr(o, i), 8, bv(0, 64))
        for i in range(16 + 16 * RECORDS, SIZE):
            ex.store_prim(st, ptr(o, i), 1, bv(0, 8))
        self.tag, s = ex.run(fn, [bv(triplets, 32), ptr(t), bv(len(text), 64), ptr(o)], st)
        if s is None:
            raise EngineError(fn + " never returns")
        self.panics = list(ex.panics)
        word = lambda i: ex.load_prim(s, ptr(o, 8 * i), 8, "i")
        self.count, self.error = word(0), word(1)
        self.ids = [word(2 + i) for i in range(RECORDS)]
        self.lengths = [word(2 + RECORDS + i) for i in range(RECORDS)]
        self.names = [[ex.load_prim(s, ptr(o, 16 + 16 * RECORDS + NAME * i + j), 1, "i") for j in range(NAME)] for i in range(RECORDS)]


def text(mask, n):
    """bytes of which exactly those in the mask are line feeds"""
    out = []
    for i in range(n):
        v = mk_zext(var("b%d" % i, 7), 8)
        out.append(bv(10, 8) if mask >> i & 1 else mk_ite(mk_eq(v, bv(10, 8)), bv(0, 8), v))
    return out


def structures(limit):
    """positions of the line feeds: every subset for short texts, some long lines"""
    out = [(mask, n) for n in range(limit + 1) for mask in range(1 << n)]
    for n in (15, 16):
        out.append(((1 << n) - 1, n))
    for count in (1, 2, 3, 4):
        for sizes in itertools.product((0, 20, 69), repeat=count):
            if max(sizes) > limit:
                out.append(layout(sizes, True))
                if sizes[-1]:
                    out.append(layout(sizes, False))
    for sizes in ((69,) * 6, (24, 69, 69) * 2, (24, 69, 69) * 2 + (24, 69), (24, 69, 69, 0, 24, 69, 69), (69, 69, 0) * 2):
        out += [layout(sizes, True)] + ([layout(sizes, False)] if sizes[-1] else [])
    return out


def layout(sizes, closed):
    mask = at = 0
    for k in sizes:
        at += k
        mask |= 1 << at
        at += 1
    if not closed:
        at -= 1
        mask &= (1 << at) - 1
    return mask, at


def compare(case):
    """verdict and counterexample text: do the two parsers agree on every text of the structure?"""
    triplets, mask, n = case
    t = text(mask, n)
    a, b = Outcome("impl_les", triplets, t), Outcome("spec_les", triplets, t)
    ok = mk_eq(b.tag, bv(0, 32))
    pairs = [(TRUE, a.tag, b.tag), (mk_not(ok), a.error, b.error), (ok, a.count, b.count)]
    for i in range(RECORDS):
        g = mk_and(ok, mk_ult(bv(i, 64), b.count))
        pairs += [(g, a.ids[i], b.ids[i]), (g, a.lengths[i], b.lengths[i])]
        for j in range(NAME):
            named = mk_and(g, mk_ult(bv(j, 64), b.lengths[i]), mk_ult(b.lengths[i], bv(NAME + 1, 64)))
            pairs.append((named, a.names[i][j], b.names[i][j]))
    bad = mk_or(*([mk_and(g, mk_not(mk_eq(x, y))) for g, x, y in pairs] + [p.cond for p in a.panics]))
    cv = smt.Conv("uf")
    sv = z3.Solver()
    sv.set("timeout", 60000)
    sv.add(cv(bad))
    v = sv.check()
    m = None
    if v == z3.sat:
        mod = sv.model()
        m = bytes(mod.eval(cv(x), True).as_long() for x in t).hex()
    return [str(v), m]


class Slow(Exception):
    pass


def alarm(*_):
    raise Slow("takes too long")


def job(cases, stop):
    def fn():
        out = []
        signal.signal(signal.SIGALRM, alarm)
        for c in cases:
            t0 = time.time()
            try:
                if t0 > stop:
                    raise Slow("out of time")
                signal.alarm(20)
                r = compare(c)
                signal.alarm(0)
                out.append(r + [time.time() - t0])
            except (EngineError, Slow) as e:
                out.append(["error: %s" % e, None, 0.0])
        return json.dumps(out)
    return fn


def probe(triplets):
    """functions executed, whether the single-record parser is reached"""
    def fn():
        first = Outcome("impl_les", triplets, text(0b10110, 5))
        return json.dumps([sorted(first.ex.visited), any(t.op == "uf" for t in tm.topo([first.ids[0], first.error]))])
    return fn


LINE1 = b"1 25544U 98067A   20194.88612269 -.00002218  00000-0 -31515-4 0  9992"
LINE2 = b"2 25544  51.6461 221.2784 0001413  89.1723 280.4612 15.49507896236008"
OTHER1 = b"1 20580U 90037B   20194.51823221  .00000541  00000-0  23247-4 0  9991"
OTHER2 = b"2 20580  28.4690 115.1452 0002808  35.7390  66.2391 15.09269187457131"


def pad(line):
    return line[:68] + b"%d" % (sum(c - 48 if 48 <= c <= 57 else c == 45 for c in line[:68]) % 10)


def candidates(k):
    """texts of up to three records with valid, broken, blank and stray lines"""
    l1, l2, m1, m2 = map(pad, (LINE1, LINE2, OTHER1, OTHER2))
    bad = l2[:68] + b"%d" % ((l2[68] - 47) % 10)
    name = [b"ISS (ZARYA)"] if k == 3 else []
    good = [name + [l1, l2], [b"  HST "][: len(name)] + [m1, m2]]
    records = good + [name + [l1, bad], name + [l2, l1], name + [b"", b""], [b""][: len(name)] + [m1, m2], [b"0 X Y"][: len(name)] + [l1, l2]]
    stray = [[], [b""], [b" "], [b"# comment"], [l1], [l1, l2][: k - 1], [b"0 X"]]
    for count in range(0, 4):
        for rs in itertools.product(records[: 7 if count < 3 else 3], repeat=count):
            for s in stray:
                for where in {0, count // 2, count}:
                    lines = [x for r in rs[:where] for x in r] + s + [x for r in rs[where:] for x in r]
                    if not lines:
                        continue
                    for ends in ((b"\n",), (b"\r\n",), (b"\n", b"\r\n"), (b"\r\n", b"\n")):
                        t = b"".join(x + ends[i % len(ends)] for i, x in enumerate(lines))
                        yield t
                        yield t[: -len(ends[(len(lines) - 1) % len(ends)])]
    for count in (5, 9):
        yield b"".join(x + b"\n" for i in range(count) for x in good[i % 2])


WHAT = {1: "a different number of records", 2: "other elements", 3: "another error", 4: "an error instead of elements or the reverse"}


def confirm(chk, triplets, extra):
    seen = []
    for t in itertools.chain(extra, candidates(3 if triplets else 2)):
        seen.append(t)
    for i in range(0, len(seen), 2000):
        part = seen[i : i + 2000]
        res = native.run([("les_differ", "u32", [("u32", triplets), ("sl", t.hex())]) for t in part], timeout=60)
        for t, r in zip(part, res):
            if r is None or (r[0] == "ok" and r[1] == 0):
                continue
            return t, ("panics" if r[0] != "ok" else "gives " + WHAT[r[1]] + " than its records parsed one by one")
    return None


def C17(chk):
    limit = 11 if chk.tier == "quick" else 12
    chk.bound(
        "every text of at most %d bytes (each byte an arbitrary ASCII character, so every placement of line feeds and carriage returns), "
        "texts of 15 and 16 line feeds, texts of up to four lines of 0, 20 or 69 bytes and some of up to eight such lines" % limit
    )
    chk.assume(
        "the single-record parser is an arbitrary function of its two lines (C14, C15 and C16 check it)",
        "allocation succeeds",
    )
    build.modules("std", CRATES)
    for triplets, name in ((0, "parse_2les"), (1, "parse_3les")):
        cases = [(triplets, mask, n) for mask, n in structures(limit)]
        got = smt.pool([probe(triplets)], 40)[0]
        if not (got and got.startswith("[")):
            bad = confirm(chk, triplets, [])
            chk.obligation("%s groups lines" % name, False if bad else None, str(got))
            if bad:
                chk.violation("%s on %r %s" % (name, bad[0], bad[1]), {"text": bad[0].decode("latin-1"), "function": name})
            continue
        visited, reached = json.loads(got)
        chk.functions |= set(visited)
        chk.witness("%s reaches the single-record parser" % name, reached)
        step = 64
        parts = [cases[i : i + step] for i in range(0, len(cases), step)]
        stop = time.time() + 200
        got = smt.pool([job(p, stop) for p in parts], 300)
        results = []
        for p, g in zip(parts, got):
            results += json.loads(g) if g and g.startswith("[") else [["error: %s" % g, None, 0.0]] * len(p)
        groups = {}
        for case, r in zip(cases, results):
            groups.setdefault(case[2] if case[2] <= 16 else 17, []).append(r)
            smt.STATS.add({"unsat": z3.unsat, "sat": z3.sat}.get(r[0], z3.unknown), r[2])
        bad = None
        if any(r[0] != "unsat" for r in results):
            bad = confirm(chk, triplets, [bytes.fromhex(r[1]) for r in results if r[1] is not None][:200])
        for k, rows in sorted(groups.items()):
            what = "every text of %d bytes" % k if k <= limit else "texts of %d line feeds" % k if k <= 16 else "long lines"
            left = [r[0] for r in rows if r[0] != "unsat"]
            chk.obligation("%s groups %s (%d placements of line feeds)" % (name, what, len(rows)), True if not left else False if bad else None, ", ".join(sorted(set(left))[:3]))
        if bad:
            chk.violation("%s on %r %s" % (name, bad[0], bad[1]), {"text": bad[0].decode("latin-1"), "function": name})
