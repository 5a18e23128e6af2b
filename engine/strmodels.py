"""Models of the string, formatting and allocation functions of core/alloc
whose bodies are not part of the emitted IR.  Part of the trusted base."""
import re

from terms import *
import terms as tm
from symex import Ptr, ptr, UNDEFPTR, EngineError, merge_val
from models import MODELS as BASE, bytes_of

MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn

    return deco


MAXTEXT = 24


def length_bound(st, n, cap=64):
    n = st.simp(n)
    if is_c(n):
        return n, n.aux
    vs = tm.values(n)
    mx = max([v for v in vs if v < (1 << 32)] or [0]) if vs else cap
    return n, min(mx, cap)


def content(ex, st, p, n):
    """(length term, bytes masked to zero beyond the length)"""
    n, mx = length_bound(st, n)
    out = []
    for i in range(mx):
        b = ex.load_prim(st, ex.padd(p, i), 1, "i")
        if not is_c(n):
            b = mk_ite(mk_ult(bv(i, 64), n), b, bv(0, 8))
        out.append(b)
    return n, out


# ------------------------------------------------------------------ text to number
def text_key(ex, st, p, n):
    n, bs = content(ex, st, p, n)
    if len(bs) > MAXTEXT:
        raise EngineError("number text of more than %d bytes" % MAXTEXT)
    bs = bs + [bv(0, 8)] * (MAXTEXT - len(bs))
    return (mk_zext(mk_extract(n, 7, 0), 8),) + tuple(bs)


@model(r"11float_parsed.*FromStr8from_str$")
def _f64_from_str(ex, st, a):
    """f64::from_str: an arbitrary function of the text (same text, same result)."""
    key = text_key(ex, st, a[1], a[2])
    ok = mk_uf("parse_ok", "B", key)
    val = mk_uf("parse_value", "F", key)
    ex.store_prim(st, a[0], 1, mk_zext(mk_not(ok), 8))
    ex.store_prim(st, ex.padd(a[0], 8), 8, val)


@model(r"4core3str8converts9from_utf8$")
def _from_utf8(ex, st, a):
    n = st.simp(a[2])
    if not is_c(n) or n.aux > 16:
        raise EngineError("from_utf8 of symbolic length")
    ok = utf8_ok(bytes_of(ex, st, a[1], n.aux))
    ex.store_prim(st, a[0], 8, mk_zext(mk_not(ok), 64))
    ex.store_prim(st, ex.padd(a[0], 8), 8, a[1])
    ex.store_prim(st, ex.padd(a[0], 16), 8, n)


def utf8_ok(bs):
    n = len(bs)
    rng = lambda b, lo, hi: mk_and(mk_ule(bv(lo, 8), b), mk_ule(b, bv(hi, 8)))
    cont = lambda b: rng(b, 0x80, 0xBF)
    at = [None] * (n + 5)
    at[n] = TRUE
    for k in range(n + 1, n + 5):
        at[k] = FALSE
    B = lambda i: bs[i] if i < n else bv(0, 8)
    for i in reversed(range(n)):
        b = bs[i]
        two = mk_and(rng(b, 0xC2, 0xDF), cont(B(i + 1)), at[i + 2])
        three = mk_and(mk_or(
            mk_and(mk_eq(b, bv(0xE0, 8)), rng(B(i + 1), 0xA0, 0xBF)),
            mk_and(mk_or(rng(b, 0xE1, 0xEC), rng(b, 0xEE, 0xEF)), cont(B(i + 1))),
            mk_and(mk_eq(b, bv(0xED, 8)), rng(B(i + 1), 0x80, 0x9F)),
        ), cont(B(i + 2)), at[i + 3])
        four = mk_and(mk_or(
            mk_and(mk_eq(b, bv(0xF0, 8)), rng(B(i + 1), 0x90, 0xBF)),
            mk_and(rng(b, 0xF1, 0xF3), cont(B(i + 1))),
            mk_and(mk_eq(b, bv(0xF4, 8)), rng(B(i + 1), 0x80, 0x8F)),
        ), cont(B(i + 2)), cont(B(i + 3)), at[i + 4])
        at[i] = mk_or(mk_and(mk_ult(b, bv(0x80, 8)), at[i + 1]), two, three, four)
    return at[0]


# ------------------------------------------------------------------ slices
@model(r"5slice20copy_from_slice_impl")
def _copy_from_slice(ex, st, a):
    """(dst, dst_len, src, src_len, location)"""
    same = st.decide(mk_eq(st.simp(a[1]), st.simp(a[3])))
    if same is FALSE:
        ex.panic(st, "copy_from_slice: length mismatch")
        return
    if same is not TRUE:
        bad = st.fork()
        bad.add(mk_not(same))
        ex.panic(bad, "copy_from_slice: length mismatch")
        st.add(same)
    ex.memcpy(st, a[0], a[2], a[3])


WIDE_SPACES = [(0xC2, 0x85), (0xC2, 0xA0), (0xE1, 0x9A, 0x80)]
WIDE_SPACES += [(0xE2, 0x80, k) for k in (*range(0x80, 0x8B), 0xA8, 0xA9, 0xAF)]
WIDE_SPACES += [(0xE2, 0x81, 0x9F), (0xE3, 0x80, 0x80)]


@model(r"3stre12trim_matchesNvMNt.*13is_whitespaceE")
def _trim(ex, st, a):
    """str::trim (valid UTF-8)."""
    n = st.simp(a[1])
    vs = [n.aux] if is_c(n) else [v for v in tm.values(n) or () if v < (1 << 32)]
    if not vs or max(vs) > 24:
        raise EngineError("trim of symbolic length")
    off = ln = None
    for v in vs:
        o, k = trim_constant(ex, st, a[0], v)
        c = mk_eq(n, bv(v, 64))
        off, ln = (o, k) if off is None else (mk_ite(c, o, off), mk_ite(c, k, ln))
    return [ex.padd(a[0], off), ln]


def trim_constant(ex, st, p, n):
    bs = bytes_of(ex, st, p, n)
    one = lambda b: mk_or(mk_and(mk_ule(bv(9, 8), b), mk_ule(b, bv(13, 8))), mk_eq(b, bv(32, 8)))

    def wide(i, k):
        if i < 0 or i + k > n:
            return FALSE
        return mk_or(*[mk_and(*[mk_eq(bs[i + j], bv(x, 8)) for j, x in enumerate(w)]) for w in WIDE_SPACES if len(w) == k])

    size = lambda i: [(one(bs[i]), 1), (wide(i, 2), 2), (wide(i, 3), 3)]
    first = [None] * (n + 4)
    for k in range(n, n + 4):
        first[k] = bv(n, 64)
    for i in reversed(range(n)):
        v = bv(i, 64)
        for c, k in size(i):
            v = mk_ite(c, first[i + k], v)
        first[i] = v
    last = [bv(0, 64)] * (n + 1)
    for j in range(1, n + 1):
        v = mk_ite(one(bs[j - 1]), last[j - 1], bv(j, 64))
        if j > 1:
            v = mk_ite(wide(j - 2, 2), last[j - 2], v)
        if j > 2:
            v = mk_ite(wide(j - 3, 3), last[j - 3], v)
        last[j] = v
    lo, hi = first[0], last[n]
    empty = mk_eq(lo, bv(n, 64))
    # one case per (first, last) pair keeps the offsets constant
    off, ln = bv(0, 64), bv(0, 64)
    for i in range(n):
        for j in range(i + 1, n + 1):
            c = mk_and(mk_eq(lo, bv(i, 64)), mk_eq(hi, bv(j, 64)))
            ln = mk_ite(c, bv(j - i, 64), ln)
        off = mk_ite(mk_eq(lo, bv(i, 64)), bv(i, 64), off)
    return off, mk_ite(empty, bv(0, 64), ln)


# ------------------------------------------------------------------ allocation
@model(r"alloc7raw_vecINtB5_6RawVec.*4drop|alloc3vecINtB5_3Vec.*4Drop4drop|11RawVecInner10deallocate")
def _drop(ex, st, a):
    return None


@model(r"11RawVecInner15try_allocate_in")
def _try_alloc(ex, st, a):
    """(ret, capacity, zeroed, align, size)"""
    cap = st.simp(a[1])
    _, mx = length_bound(st, cap, 256)
    size = a[4].aux if is_c(a[4]) else 1
    o = ex.new_obj(st, max(mx * size, 1), "heap")
    ex.store_prim(st, a[0], 8, bv(0, 64))
    ex.store_prim(st, ex.padd(a[0], 8), 8, cap)
    ex.store_prim(st, ex.padd(a[0], 16), 8, ptr(o))


@model(r"11RawVecInner14grow_amortized|21do_reserve_and_handle")
def _grow(ex, st, a):
    """(self, length, additional, align, size): a larger buffer with the old content"""
    cap, need = st.simp(ex.load_prim(st, a[0], 8, "i")), st.simp(mk_add(a[1], a[2]))
    if not (is_c(cap) and is_c(need) and is_c(a[4])):
        raise EngineError("growing a vector of symbolic length")
    size = a[4].aux
    new = max(cap.aux * 2, need.aux, 8 if size == 1 else 4 if size <= 1024 else 1)
    o = ex.new_obj(st, max(new * size, 1), "heap")
    if cap.aux:
        ex.memcpy(st, ptr(o), ex.load_prim(st, ex.padd(a[0], 8), 8, "ptr"), bv(cap.aux * size, 64))
    ex.store_prim(st, a[0], 8, bv(new, 64))
    ex.store_prim(st, ex.padd(a[0], 8), 8, ptr(o))
    return [bv(-1 % 2 ** 64, 64), bv(0, 64)]


# ------------------------------------------------------------------ slices of bytes
def _affix(end):
    def fn(ex, st, a):
        n, m = st.simp(a[1]), st.simp(a[3])
        if not is_c(m):
            raise EngineError("pattern of symbolic length")
        at = mk_sub(n, m) if end else bv(0, 64)
        enough = st.decide(mk_not(mk_ult(n, m)))
        if enough is FALSE:
            return FALSE
        r = enough
        for i in range(m.aux):
            r = mk_and(r, mk_eq(ex.load_prim(st, ex.padd(a[0], mk_add(at, bv(i, 64))), 1, "i"), ex.load_prim(st, ex.padd(a[2], i), 1, "i")))
        return r
    return fn


MODELS.append((re.compile(r"4core5sliceSh9ends_with"), _affix(True)))
MODELS.append((re.compile(r"4core5sliceSh11starts_with"), _affix(False)))


@model(r"4core5slice6memchr(14memchr_aligned|6memchr|12memchr_naive)")
def _memchr(ex, st, a):
    """(needle, text, length): index of the first occurrence"""
    n, mx = length_bound(st, a[2], 1024)
    found, at = FALSE, bv(0, 64)
    for i in range(mx):
        here = mk_and(st.decide(mk_ult(bv(i, 64), n)), mk_eq(ex.load_prim(st, ex.padd(a[1], i), 1, "i"), a[0]))
        if here is FALSE:
            continue
        at = mk_ite(found, at, bv(i, 64)) if found is not FALSE else bv(i, 64)
        found = mk_or(found, here)
        if here is TRUE:
            break
    return [mk_zext(found, 64), at]


# ------------------------------------------------------------------ formatting
def const_bytes(ex, st, p, n):
    out = []
    for i in range(n):
        b = ex.load_prim(st, ex.padd(p, i), 1, "i")
        if not is_c(b):
            raise EngineError("format template is not constant")
        out.append(b.aux)
    return out


def template(ex, st, p):
    """[("lit", bytes) | ("arg",)] of a compiled format string"""
    res = []
    i = 0
    while True:
        b = const_bytes(ex, st, ex.padd(p, i), 1)[0]
        i += 1
        if b == 0:
            return res
        if b < 0x80:
            res.append(("lit", const_bytes(ex, st, ex.padd(p, i), b)))
            i += b
        elif b == 0xC0:
            res.append(("arg",))
        else:
            raise EngineError("format specification %#x" % b)


class Sink:
    """Byte buffer whose length may be symbolic."""

    def __init__(self, ex, st, size=64):
        self.ex = ex
        self.st = st
        self.o = ex.new_obj(st, size, "string")
        self.n = bv(0, 64)

    def put(self, bs, n=None):
        """append the bytes; only the first n of them when n is given"""
        ex, st = self.ex, self.st
        for i, b in enumerate(bs):
            d = ptr(self.o, mk_add(self.n, bv(i, 64)))
            c = TRUE if n is None else st.decide(mk_ult(bv(i, 64), n))
            if c is FALSE:
                break
            if c is not TRUE:
                d = Ptr(tuple((mk_and(g, c), o, f) for g, o, f in d.cases))
            ex.store_prim(st, d, 1, b)
        self.n = mk_add(self.n, bv(len(bs), 64) if n is None else n)


def put_arg(sink, p, fn):
    ex, st = sink.ex, sink.st
    if re.search(r"3num3imp([htmjyalsix])NtB\w+_7Display3fmt", fn):
        ty = re.search(r"3num3imp([htmjyalsix])NtB", fn).group(1)
        bits = {"h": 8, "t": 16, "m": 32, "j": 64, "y": 64}.get(ty)
        if bits is None:
            raise EngineError("signed integer formatting")
        v = ex.load(st, ("i", bits), p)
        v = mk_zext(v, 64) if bits < 64 else v
        digs = []
        for k in range(5):
            digs.append(mk_bin("urem", mk_bin("udiv", v, bv(10 ** k, 64)), bv(10, 64)))
        asc = [mk_add(mk_extract(d, 7, 0), bv(48, 8)) for d in digs]
        # only four-digit values are supported; anything else is recorded as a side condition
        four = st.decide(mk_and(mk_ule(bv(1000, 64), v), mk_ult(v, bv(10000, 64))))
        if four is not TRUE:
            ex.side.append((st.pc, four))
        sink.put([asc[3], asc[2], asc[1], asc[0]])
    elif re.search(r"3fmtReNtB\w+_7Display3fmt", fn):
        q = ex.load(st, ("ptr",), p)
        n = ex.load(st, ("i", 64), ex.padd(p, 8))
        n, bs = content(ex, st, q, n)
        sink.put(bs, n)
    else:
        raise EngineError("formatting through " + fn)


@model(r"5alloc3fmt6format12format_inner$")
def _format_inner(ex, st, a):
    """(ret String, template, args)"""
    sink = Sink(ex, st)
    k = 0
    for part in template(ex, st, a[1]):
        if part[0] == "lit":
            sink.put([bv(b, 8) for b in part[1]])
        else:
            v = ex.load(st, ("ptr",), ex.padd(a[2], 16 * k))
            f = st.simp(ex.load(st, ("ptr",), ex.padd(a[2], 16 * k + 8)))
            k += 1
            if len(f.cases) != 1 or not isinstance(f.cases[0][1], tuple) or f.cases[0][1][0] != "fn":
                raise EngineError("format argument function")
            put_arg(sink, v, f.cases[0][1][2])
    ex.store_prim(st, a[0], 8, bv(64, 64))
    ex.store_prim(st, ex.padd(a[0], 8), 8, ptr(sink.o))
    ex.store_prim(st, ex.padd(a[0], 16), 8, sink.n)


ALL = MODELS + BASE
