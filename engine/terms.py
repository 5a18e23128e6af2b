"""Hash-consed term DAG shared by the symbolic executor and the provers.

Sorts: 'B' (bool), 'F' (binary64), int n (bit-vector of width n).
LLVM i1 values are sort 'B'.
"""
import math
import struct


class T:
    __slots__ = ("op", "args", "aux", "sort", "id", "ct")

    def __repr__(self):
        return show(self, 4)


_tab = {}
_all = []


def _mk(op, sort, args=(), aux=None):
    key = (op, sort, aux, tuple([a.id for a in args]))
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.aux = aux
        t.sort = sort
        t.id = len(_all)
        if op == "c":
            t.ct = 1
        elif op == "ite" and sort != "B" and sort != "F" and args[1].ct and args[2].ct:
            t.ct = args[1].ct + args[2].ct
            if t.ct > 400:
                t.ct = 0
        else:
            t.ct = 0
        _tab[key] = t
        _all.append(t)
    return t


def show(t, d=6):
    if t.op == "c":
        if t.sort == "F":
            return repr(fval(t))
        return str(t.aux)
    if t.op == "v":
        return t.aux
    if d == 0:
        return "#%d" % t.id
    return "(%s%s %s)" % (
        t.op,
        "" if t.aux is None else ":" + str(t.aux),
        " ".join(show(a, d - 1) for a in t.args),
    )


# ---------------------------------------------------------------- constants
def d2b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b & (2**64 - 1)))[0]


TRUE = _mk("c", "B", (), True)
FALSE = _mk("c", "B", (), False)


def boolc(v):
    return TRUE if v else FALSE


def bv(v, n):
    return _mk("c", n, (), v & ((1 << n) - 1))


def fc(x):
    return _mk("c", "F", (), d2b(x))


def fbits(b):
    return _mk("c", "F", (), b & (2**64 - 1))


def fval(t):
    return b2d(t.aux)


def var(name, sort):
    return _mk("v", sort, (), name)


def undef(sort):
    return _mk("undef", sort)


def is_c(t):
    return t.op == "c"


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


# ---------------------------------------------------------------- booleans
def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "undef":
        return a
    return _mk("not", "B", (a,))


def conj_set(a):
    return a.args if a.op == "and" else (a,)


def mk_and(*xs):
    s = {}
    for x in xs:
        for y in conj_set(x):
            if y is FALSE:
                return FALSE
            if y is not TRUE:
                s[y.id] = y
    if not s:
        return TRUE
    for y in list(s.values()):
        if y.op == "not" and y.args[0].id in s:
            return FALSE
        if y.op == "or":
            # absorption and unit resolution inside disjunctions
            keep = []
            drop = False
            for z in y.args:
                if z.id in s:
                    drop = True
                    break
                if mk_not(z).id in s:
                    continue
                keep.append(z)
            if drop:
                del s[y.id]
            elif len(keep) < len(y.args):
                del s[y.id]
                return mk_and(mk_or(*keep), *s.values())
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return _mk("and", "B", tuple(s[i] for i in sorted(s)))


def mk_or(*xs):
    if len(xs) == 0:
        return FALSE
    r = xs[0]
    for x in xs[1:]:
        r = _or2(r, x)
    return r


def _or2(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    A = {x.id: x for x in conj_set(a)}
    B = {x.id: x for x in conj_set(b)}
    common = [A[i] for i in A if i in B]
    ra = [A[i] for i in A if i not in B]
    rb = [B[i] for i in B if i not in A]
    if not ra or not rb:
        return mk_and(*common)
    # literal complement simplifications
    if len(ra) == 1:
        n = mk_not(ra[0])
        if any(x is n for x in rb):
            rb = [x for x in rb if x is not n]
            if not rb:
                return mk_and(*common)
    if len(rb) == 1:
        n = mk_not(rb[0])
        if any(x is n for x in ra):
            ra = [x for x in ra if x is not n]
            if not ra:
                return mk_and(*common)
    x = mk_and(*ra)
    y = mk_and(*rb)
    if common:
        return mk_and(*(common + [_ornode(x, y)]))
    return _ornode(x, y)


def _ornode(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    s = {}
    for x in (a, b):
        for y in x.args if x.op == "or" else (x,):
            s[y.id] = y
    for y in s.values():
        if mk_not(y).id in s:
            return TRUE
    # drop disjuncts implied (absorption)
    ys = list(s.values())
    out = []
    for y in ys:
        if y.op == "and" and any(z.id in s for z in y.args):
            continue
        if y.op == "and":
            rest = [z for z in y.args if mk_not(z).id not in s]
            if len(rest) < len(y.args):
                y = mk_and(*rest)
        out.append(y)
    if len(out) == 1:
        return out[0]
    s = {y.id: y for y in out}
    if len(s) == 1:
        return out[0]
    if TRUE.id in s:
        return TRUE
    return _mk("or", "B", tuple(s[i] for i in sorted(s)))


def mk_xor(a, b):
    if is_c(a):
        return mk_not(b) if a.aux else b
    if is_c(b):
        return mk_not(a) if b.aux else a
    if a is b:
        return FALSE
    if mk_not(a) is b:
        return TRUE
    return mk_ite(a, mk_not(b), b)


def mk_iff(a, b):
    return mk_not(mk_xor(a, b))


# ---------------------------------------------------------------- ite
def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if c.op == "undef":
        return a
    if c.op == "not":
        return mk_ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        return mk_ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return mk_ite(c, a, b.args[2])
    if a.sort == "B":
        if a is TRUE:
            return mk_or(c, b)
        if a is FALSE:
            return mk_and(mk_not(c), b)
        if b is TRUE:
            return mk_or(mk_not(c), a)
        if b is FALSE:
            return mk_and(c, a)
        return _mk("ite", "B", (c, a, b))
    # ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == "ite":
        if b.args[1] is a:
            return mk_ite(mk_or(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return mk_ite(mk_or(c, mk_not(b.args[0])), a, b.args[1])
    if a.op == "ite":
        if a.args[1] is b:
            return mk_ite(mk_or(mk_not(c), a.args[0]), b, a.args[2])
        if a.args[2] is b:
            return mk_ite(mk_and(c, a.args[0]), a.args[1], b)
    if a.sort != "F" and (a.op == "add" or b.op == "add") and not is_c(a) and not is_c(b):
        # ite(c, l + x, l + y) -> l + ite(c, x, y)
        n = a.sort
        A, B = {}, {}
        ka, kb = _lin(a, 1, A, n), _lin(b, 1, B, n)
        both = {i: A[i] for i in A if i in B and B[i][1] == A[i][1]}
        if both:
            x = _rebuild({i: v for i, v in A.items() if i not in both}, ka, n)
            y = _rebuild({i: v for i, v in B.items() if i not in both}, kb, n)
            return mk_add(_rebuild(both, 0, n), mk_ite(c, x, y))
    return _mk("ite", a.sort, (c, a, b))


_mapmemo = {}


def map_ct(t, f, key):
    """Apply f to every constant leaf of a constant ite tree."""
    k = (t.id, key)
    r = _mapmemo.get(k)
    if r is None:
        if t.op == "c":
            r = f(t)
        else:
            r = mk_ite(t.args[0], map_ct(t.args[1], f, key), map_ct(t.args[2], f, key))
        _mapmemo[k] = r
    return r


def values(t, limit=400):
    """Set of possible constant values of a BV term, or None if unknown."""
    memo = {}

    def go(x):
        r = memo.get(x.id, 0)
        if r != 0:
            return r
        memo[x.id] = None
        n = x.sort
        if x.op == "c":
            r = {x.aux}
        elif x.op == "ite":
            a, b = go(x.args[1]), go(x.args[2])
            r = None if a is None or b is None else a | b
        elif x.op == "add":
            r = {x.aux}
            for c, y in lin_items(x):
                s = go(y)
                if s is None or len(s) * len(r) > 4 * limit:
                    r = None
                    break
                r = {(p + c * q) & ((1 << n) - 1) for p in r for q in s}
        elif x.op in ("zext",):
            r = go(x.args[0])
        elif x.op == "mul" and all(True for _ in x.args):
            a, b = go(x.args[0]), go(x.args[1])
            r = None
            if a is not None and b is not None and len(a) * len(b) <= limit:
                r = {(p * q) & ((1 << n) - 1) for p in a for q in b}
        else:
            r = None
        if r is not None and len(r) > limit:
            r = None
        memo[x.id] = r
        return r

    return go(t)


# ---------------------------------------------------------------- bit-vectors
# 'add' nodes: args = terms, aux = const ; coefficients kept through 'mul' by
# constants.  Canonical linear form.
def lin_items(t):
    """Yield (coef, term) for the non-constant part of an 'add' node."""
    for a in t.args:
        if a.op == "mulc":
            yield a.aux, a.args[0]
        else:
            yield 1, a


def _lin(t, coef, acc, n):
    if t.op == "c":
        return (coef * t.aux) & ((1 << n) - 1)
    if t.op == "add":
        k = (coef * t.aux) & ((1 << n) - 1)
        for c, y in lin_items(t):
            acc[y.id] = (y, (acc.get(y.id, (y, 0))[1] + c * coef) & ((1 << n) - 1))
        return k
    if t.op == "mulc":
        y = t.args[0]
        acc[y.id] = (y, (acc.get(y.id, (y, 0))[1] + t.aux * coef) & ((1 << n) - 1))
        return 0
    acc[t.id] = (t, (acc.get(t.id, (t, 0))[1] + coef) & ((1 << n) - 1))
    return 0


def _rebuild(acc, k, n):
    k &= (1 << n) - 1
    items = [(y, c) for (y, c) in acc.values() if c]
    if not items:
        return bv(k, n)
    if len(items) == 1 and items[0][0].ct:
        y, c = items[0]
        return map_ct(y, lambda z: bv(z.aux * c + k, n), ("lin", c, k, n))
    args = []
    for y, c in sorted(items, key=lambda p: p[0].id):
        args.append(y if c == 1 else _mk("mulc", n, (y,), c))
    if len(args) == 1 and k == 0:
        return args[0]
    return _mk("add", n, tuple(args), k)


def _u(a, b):
    return a.op == "undef" or b.op == "undef"


def mk_add(a, b):
    if _u(a, b):
        return undef(a.sort)
    n = a.sort
    if n == "B":
        return mk_xor(a, b)
    acc = {}
    k = _lin(a, 1, acc, n) + _lin(b, 1, acc, n)
    return _rebuild(acc, k, n)


def mk_sub(a, b):
    if _u(a, b):
        return undef(a.sort)
    n = a.sort
    if n == "B":
        return mk_xor(a, b)
    acc = {}
    k = _lin(a, 1, acc, n) + _lin(b, (1 << n) - 1, acc, n)
    return _rebuild(acc, k, n)


def mk_neg(a):
    return mk_sub(bv(0, a.sort), a)


def mk_mul(a, b):
    if _u(a, b):
        return undef(a.sort)
    n = a.sort
    if n == "B":
        return mk_and(a, b)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if b.aux == 0:
            return b
        acc = {}
        k = _lin(a, b.aux, acc, n)
        return _rebuild(acc, k, n)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", n, (a, b))


def _binfold(op, x, y, n):
    m = (1 << n) - 1
    if op == "udiv":
        return x // y if y else m
    if op == "urem":
        return x % y if y else x
    if op in ("sdiv", "srem"):
        sx, sy = sgn(x, n), sgn(y, n)
        if sy == 0:
            return m if op == "sdiv" else x
        q = abs(sx) // abs(sy)
        if (sx < 0) != (sy < 0):
            q = -q
        return (q if op == "sdiv" else sx - q * sy) & m
    if op == "band":
        return x & y
    if op == "bor":
        return x | y
    if op == "bxor":
        return x ^ y
    if op == "shl":
        return (x << y) & m if y < n else 0
    if op == "lshr":
        return x >> y if y < n else 0
    if op == "ashr":
        return (sgn(x, n) >> min(y, n - 1)) & m
    raise KeyError(op)


def mk_bin(op, a, b):
    """udiv urem sdiv srem band bor bxor shl lshr ashr"""
    n = a.sort
    if n == "B":
        if op == "band":
            return mk_and(a, b)
        if op == "bor":
            return mk_or(a, b)
        if op == "bxor":
            return mk_xor(a, b)
        raise NotImplementedError("bool " + op)
    if op == "band" and (a.op == "c" and a.aux == 0 or b.op == "c" and b.aux == 0):
        return bv(0, n)
    if _u(a, b):
        return undef(n)
    if is_c(a) and is_c(b):
        return bv(_binfold(op, a.aux, b.aux, n), n)
    if op in ("band", "bor", "bxor"):
        if is_c(a):
            a, b = b, a
        m = (1 << n) - 1
        if is_c(b):
            if op == "band":
                if b.aux == m:
                    return a
                # low mask -> zext(extract)
                if b.aux & (b.aux + 1) == 0:
                    k = b.aux.bit_length()
                    return mk_zext(mk_extract(a, k - 1, 0), n)
                if b.aux == 1 << (n - 1):
                    pass
            if op == "bor":
                if b.aux == 0:
                    return a
                if b.aux == m:
                    return b
            if op == "bxor":
                if b.aux == 0:
                    return a
        elif a is b:
            return bv(0, n) if op == "bxor" else a
        elif a.id > b.id:
            a, b = b, a
        if op == "bor":
            # disjoint shifted concat: (zext(x) << k) | zext(y)
            r = _or_concat(a, b, n)
            if r is not None:
                return r
    if is_c(b):
        if op in ("shl", "lshr", "ashr"):
            if b.aux == 0:
                return a
            if op == "lshr" and b.aux < n:
                return mk_zext(mk_extract(a, n - 1, b.aux), n)
            if op == "ashr" and b.aux < n:
                return mk_sext(mk_extract(a, n - 1, b.aux), n)
            if op == "shl" and b.aux < n:
                return mk_concat(mk_extract(a, n - 1 - b.aux, 0), bv(0, b.aux))
            return bv(0, n)
        if op in ("udiv", "sdiv") and b.aux == 1:
            return a
        if op == "urem" and b.aux == 1:
            return bv(0, n)
        if op == "udiv" and b.aux & (b.aux - 1) == 0 and b.aux:
            k = b.aux.bit_length() - 1
            return mk_zext(mk_extract(a, n - 1, k), n)
        if op == "urem" and b.aux & (b.aux - 1) == 0 and b.aux:
            k = b.aux.bit_length() - 1
            return mk_zext(mk_extract(a, k - 1, 0), n)
        if a.ct:
            return map_ct(a, lambda z: bv(_binfold(op, z.aux, b.aux, n), n), (op, b.aux, n))
    if is_c(a) and b.ct:
        return map_ct(b, lambda z: bv(_binfold(op, a.aux, z.aux, n), n), (op, "r", a.aux, n))
    return _mk(op, n, (a, b))


def _parts(t):
    """Decompose into list of (term, width) from msb to lsb when t is concat."""
    if t.op == "concat":
        return list(t.args)
    return [t]


def _or_concat(a, b, n):
    for x, y in ((a, b), (b, a)):
        # x = concat(hi, 0_k), y has zero high bits n-k..
        if x.op == "concat" and is_c(x.args[-1]) and x.args[-1].aux == 0:
            k = x.args[-1].sort
            hi = mk_extract(y, n - 1, k)
            if is_c(hi) and hi.aux == 0 or _umax(y) < 1 << k:
                return mk_concat(mk_extract(x, n - 1, k), mk_extract(y, k - 1, 0))
    return None


def mk_extract(a, hi, lo):
    n = a.sort
    if a.op == "undef":
        return undef(hi - lo + 1 if hi > lo else ("B" if False else hi - lo + 1))
    w = hi - lo + 1
    if w == n:
        return a
    if is_c(a):
        return bv(a.aux >> lo, w)
    if a.op == "tab":
        return mk_table(tuple(v >> lo & (1 << w) - 1 for v in a.aux), a.args[0], w)
    if a.op == "extract":
        l0 = a.aux[1]
        return mk_extract(a.args[0], hi + l0, lo + l0)
    if a.op == "zext":
        m = a.args[0].sort
        if lo >= m:
            return bv(0, w)
        if hi < m:
            return mk_extract(a.args[0], hi, lo)
        return mk_zext(mk_extract(a.args[0], m - 1, lo), w)
    if a.op == "sext":
        m = a.args[0].sort
        if hi < m:
            return mk_extract(a.args[0], hi, lo)
        if lo < m:
            return mk_sext(mk_extract(a.args[0], m - 1, lo), w)
    if a.op == "concat":
        out = []
        pos = n
        for p in a.args:
            top, bot = pos - 1, pos - p.sort
            h, l = min(hi, top), max(lo, bot)
            if h >= l:
                out.append(mk_extract(p, h - bot, l - bot))
            pos = bot
        return mk_concat(*out)
    if a.ct:
        return map_ct(a, lambda z: bv(z.aux >> lo, w), ("ex", hi, lo))
    if a.op == "ite" and (a.args[1].op in ("concat", "c", "zext") or a.args[2].op in ("concat", "c", "zext")):
        return mk_ite(a.args[0], mk_extract(a.args[1], hi, lo), mk_extract(a.args[2], hi, lo))
    if lo == 0 and a.op in ("add", "mulc"):
        # truncation distributes over modular arithmetic
        acc = {}
        k = 0
        if a.op == "add":
            k = a.aux & ((1 << w) - 1)
            items = list(lin_items(a))
        else:
            items = [(a.aux, a.args[0])]
        for c, y in items:
            k += _lin(mk_extract(y, hi, 0), c & ((1 << w) - 1), acc, w)
        return _rebuild(acc, k, w)
    return _mk("extract", w, (a,), (hi, lo))


def mk_concat(*xs):
    """most significant first"""
    flat = []
    for x in xs:
        for p in x.args if x.op == "concat" else (x,):
            if flat:
                q = flat[-1]
                if is_c(q) and is_c(p):
                    flat[-1] = bv((q.aux << p.sort) | p.aux, q.sort + p.sort)
                    continue
                if q.op == "extract" and p.op == "extract" and q.args[0] is p.args[0] and q.aux[1] == p.aux[0] + 1:
                    flat[-1] = mk_extract(q.args[0], q.aux[0], p.aux[1])
                    continue
                if q.op == "extract" and q.aux[1] == p.sort and mk_extract(q.args[0], p.sort - 1, 0) is p:
                    flat[-1] = mk_extract(q.args[0], q.aux[0], 0)
                    continue
            flat.append(p)
    if len(flat) == 1:
        return flat[0]
    n = sum(p.sort for p in flat)
    if any(p.op == "undef" for p in flat) and all(p.op == "undef" for p in flat):
        return undef(n)
    if len(flat) == 2 and is_c(flat[0]) and flat[0].aux == 0:
        return mk_zext(flat[1], n)
    return _mk("concat", n, tuple(flat))


def mk_zext(a, n):
    if a.sort == "B":
        return mk_ite(a, bv(1, n), bv(0, n))
    if a.sort == n:
        return a
    if a.op == "undef":
        return undef(n)
    if is_c(a):
        return bv(a.aux, n)
    if a.op == "zext":
        return mk_zext(a.args[0], n)
    if a.ct:
        return map_ct(a, lambda z: bv(z.aux, n), ("zx", n))
    return _mk("zext", n, (a,))


def mk_sext(a, n):
    if a.sort == "B":
        return mk_ite(a, bv(-1, n), bv(0, n))
    if a.sort == n:
        return a
    if a.op == "undef":
        return undef(n)
    m = a.sort
    if is_c(a):
        return bv(sgn(a.aux, m), n)
    if a.op == "sext":
        return mk_sext(a.args[0], n)
    if a.op == "zext":
        return mk_zext(a.args[0], n)
    if a.ct:
        return map_ct(a, lambda z: bv(sgn(z.aux, m), n), ("sx", m, n))
    return _mk("sext", n, (a,))


def mk_trunc(a, n):
    if n == "B":
        if a.op == "undef":
            return undef("B")
        if a.op == "ite" and a.ct:
            return map_ct(a, lambda z: boolc(z.aux & 1), ("t1",))
        return mk_eq(mk_extract(a, 0, 0), bv(1, 1))
    return mk_extract(a, n - 1, 0)


_eq_memo = {}


def mk_eq(a, b):
    if a is b:
        return TRUE
    k = (a.id, b.id)
    r = _eq_memo.get(k)
    if r is None:
        r = _eq_memo[k] = _mk_eq(a, b)
    return r


def _mk_eq(a, b):
    if _u(a, b):
        return undef("B")
    if a.sort == "B":
        return mk_iff(a, b)
    assert a.sort == b.sort, (a.sort, b.sort)
    if is_c(a):
        a, b = b, a
    if is_c(a) and is_c(b):
        return boolc(a.aux == b.aux)
    if a.sort != "F":
        if is_c(b):
            if a.ct:
                return map_ct(a, lambda z: boolc(z.aux == b.aux), ("eq", b.aux))
            if _umax(a) < b.aux:
                return FALSE
            if a.op == "zext":
                m = a.args[0].sort
                if b.aux >> m:
                    return FALSE
                return mk_eq(a.args[0], bv(b.aux, m))
            if a.op == "sext":
                m = a.args[0].sort
                if bv(sgn(b.aux & ((1 << m) - 1), m), a.sort) is not b:
                    return FALSE
                return mk_eq(a.args[0], bv(b.aux, m))
            if a.op == "add" and len(a.args) == 1:
                y = a.args[0]
                if y.op != "mulc":
                    return mk_eq(y, bv(b.aux - a.aux, a.sort))
            if a.op == "concat":
                pos = a.sort
                out = []
                for p in a.args:
                    pos -= p.sort
                    out.append(mk_eq(p, bv(b.aux >> pos, p.sort)))
                return mk_and(*out)
            if a.op == "ite":
                x = mk_eq(a.args[1], b)
                y = mk_eq(a.args[2], b)
                if is_c(x) or is_c(y) or x is y:
                    return mk_ite(a.args[0], x, y)
        else:
            d = None
            if a.op == "add" or b.op == "add":
                d = mk_sub(a, b)
                if is_c(d):
                    return boolc(d.aux == 0)
                if d.op == "add" and len(d.args) == 1 and d.args[0].op != "mulc":
                    return mk_eq(d.args[0], bv(-d.aux, a.sort))
            if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort:
                return mk_eq(a.args[0], b.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", "B", (a, b))


_umaxes = {}


def _umax(t):
    """upper bound of the unsigned value"""
    if t.op == "c":
        return t.aux
    r = _umaxes.get(t.id)
    if r is None:
        r = _umaxes[t.id] = min(_umax1(t), (1 << t.sort) - 1)
    return r


def _umax1(t):
    full = (1 << t.sort) - 1
    op = t.op
    if op == "zext":
        return _umax(t.args[0]) if t.args[0].sort != "B" else 1
    if op == "ite":
        c, x, y = t.args
        hx, hy = _umax(x), _umax(y)
        if c.op == "ult" and is_c(c.args[1]) and (c.args[0] is x or x.op == "zext" and x.args[0] is c.args[0]):
            hx = min(hx, c.args[1].aux - 1)
        return max(hx, hy)
    if op == "add":
        v = t.aux
        for c, y in lin_items(t):
            v += c * _umax(y)
        return v if v <= full else full
    if op == "mulc":
        v = t.aux * _umax(t.args[0])
        return v if v <= full else full
    if op == "urem" and is_c(t.args[1]) and t.args[1].aux:
        return min(t.args[1].aux - 1, _umax(t.args[0]))
    if op == "udiv" and is_c(t.args[1]) and t.args[1].aux:
        return _umax(t.args[0]) // t.args[1].aux
    if op == "extract":
        return _umax(t.args[0]) >> t.aux[1]
    if op == "tab":
        return max(t.aux)
    if op == "concat" and is_c(t.args[0]):
        v = _umax(t.args[0])
        for y in t.args[1:]:
            v = (v << y.sort) | ((1 << y.sort) - 1)
        return v
    return full


def mk_ult(a, b):
    if _u(a, b):
        return undef("B")
    if a is b:
        return FALSE
    n = a.sort
    if n == "B":
        return mk_and(mk_not(a), b)
    if is_c(a) and is_c(b):
        return boolc(a.aux < b.aux)
    if is_c(b):
        if b.aux == 0:
            return FALSE
        if b.aux == 1:
            return mk_eq(a, bv(0, n))
        if _umax(a) < b.aux:
            return TRUE
        if a.ct:
            return map_ct(a, lambda z: boolc(z.aux < b.aux), ("ult", b.aux))
        if a.op == "zext":
            return mk_ult(a.args[0], bv(b.aux, a.args[0].sort))
    if is_c(a):
        if a.aux == (1 << n) - 1:
            return FALSE
        if _umax(b) <= a.aux:
            return FALSE
        if b.ct:
            return map_ct(b, lambda z: boolc(a.aux < z.aux), ("ultr", a.aux))
        if b.op == "zext":
            return mk_ult(bv(a.aux, b.args[0].sort), b.args[0])
    if a.op == "add" and _covers(a, b):
        return FALSE
    return _mk("ult", "B", (a, b))


def _covers(a, b):
    """a = b + (something), without wrapping"""
    n = a.sort
    A, B = {}, {}
    ka, kb = _lin(a, 1, A, n), _lin(b, 1, B, n)
    if ka < kb or any(i not in A or A[i][1] < B[i][1] for i in B):
        return False
    return ka + sum(c * _umax(y) for y, c in A.values()) < 1 << n


def mk_ule(a, b):
    return mk_not(mk_ult(b, a))


def mk_slt(a, b):
    if _u(a, b):
        return undef("B")
    if a is b:
        return FALSE
    n = a.sort
    if n == "B":
        return mk_and(a, mk_not(b))
    if is_c(a) and is_c(b):
        return boolc(sgn(a.aux, n) < sgn(b.aux, n))
    if is_c(b):
        if a.ct:
            return map_ct(a, lambda z: boolc(sgn(z.aux, n) < sgn(b.aux, n)), ("slt", b.aux))
        if a.op == "f2bits" and b.aux == 0:
            return mk_fsign(a.args[0])
        if a.op == "bxor" and b.aux == 0:
            x, y = mk_slt(a.args[0], b), mk_slt(a.args[1], b)
            return mk_or(mk_and(x, mk_not(y)), mk_and(mk_not(x), y))
        if a.op == "zext":
            if sgn(b.aux, n) <= 0:
                return FALSE
            return mk_ult(a, b)
    if is_c(a):
        if b.ct:
            return map_ct(b, lambda z: boolc(sgn(a.aux, n) < sgn(z.aux, n)), ("sltr", a.aux))
        if b.op == "f2bits" and a.aux == (1 << n) - 1:
            return mk_not(mk_fsign(b.args[0]))
        if b.op == "zext":
            if sgn(a.aux, n) < 0:
                return TRUE
            return mk_ult(a, b)
    if a.op == "zext" and b.op == "zext":
        return mk_ult(a, b)
    return _mk("slt", "B", (a, b))


def mk_sle(a, b):
    return mk_not(mk_slt(b, a))


# ---------------------------------------------------------------- floats
def _isnan(x):
    return x != x


def _fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf


def _pw(f, *a):
    try:
        return f(*a)
    except (ValueError, OverflowError):
        return None


def _roundhalfaway(x):
    if x != x or math.isinf(x):
        return x
    r = math.floor(abs(x))
    d = abs(x) - r
    if d >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def _fold1(op, x):
    if op == "fneg":
        return -x
    if op == "fabs":
        return abs(x)
    if op == "fsqrt":
        return _pw(math.sqrt, x)
    if op == "fsin":
        return _pw(math.sin, x)
    if op == "fcos":
        return _pw(math.cos, x)
    if math.isinf(x) or _isnan(x):
        return x if op in ("ffloor", "fceil", "ftrunc", "fround") else None
    if op == "ffloor":
        return math.copysign(float(math.floor(x)), x) if math.floor(x) == 0 else float(math.floor(x))
    if op == "fceil":
        return math.copysign(float(math.ceil(x)), x)
    if op == "ftrunc":
        return math.copysign(float(math.trunc(x)), x)
    if op == "fround":
        return _roundhalfaway(x)
    return None


def mk_f1(op, a):
    if a.op == "undef":
        return a
    if is_c(a):
        r = _fold1(op, fval(a))
        if r is not None:
            return fc(r)
    if op == "fneg":
        if a.op == "fneg":
            return a.args[0]
    if op == "fabs":
        if a.op == "fneg":
            return mk_f1("fabs", a.args[0])
        if a.op == "fabs":
            return a
    return _mk(op, "F", (a,))


def mk_f2(op, a, b):
    if _u(a, b):
        return undef("F")
    if is_c(a) and is_c(b):
        x, y = fval(a), fval(b)
        r = None
        if op == "fadd":
            r = x + y
        elif op == "fsub":
            r = x - y
        elif op == "fmul":
            r = x * y
        elif op == "fdiv":
            r = _fdiv(x, y)
        elif op == "frem":
            r = _pw(math.fmod, x, y)
        elif op == "fpow":
            r = _pw(math.pow, x, y)
        elif op == "fatan2":
            r = math.atan2(x, y)
        if r is not None and not isinstance(r, complex):
            return fc(r)
    if op == "fsub" and is_c(b) and not _isnan(fval(b)):
        return mk_f2("fadd", a, fc(-fval(b)))
    if op in ("fadd", "fmul", "fmaxn", "fminn"):
        if a.id > b.id:
            a, b = b, a
    if op == "fmul":
        for x, y in ((a, b), (b, a)):
            if is_c(x) and fval(x) == 1.0:
                return y
            if is_c(x) and fval(x) == -1.0:
                return mk_f1("fneg", y)
    if op == "fdiv" and is_c(b) and fval(b) == 1.0:
        return a
    return _mk(op, "F", (a, b))


def mk_powi(a, k):
    """x**k for a literal integer exponent (kept as one node)."""
    if a.op == "undef":
        return a
    if k == 0:
        return fc(1.0)
    if k == 1:
        return a
    if k == 2:
        return mk_f2("fmul", a, a)
    return _mk("fpowi", "F", (a,), k)


def mk_root(a, q):
    """Real q-th root of a non-negative number (only in real-valued terms)."""
    return _mk("froot", "F", (a,), q)


def mk_fcmp(op, a, b):
    """op in flt fle feq"""
    if _u(a, b):
        return undef("B")
    if is_c(a) and is_c(b):
        x, y = fval(a), fval(b)
        return boolc({"flt": x < y, "fle": x <= y, "feq": x == y}[op])
    if op == "feq" and a.id > b.id:
        a, b = b, a
    return _mk(op, "B", (a, b))


def mk_funo(a, b):
    if _u(a, b):
        return undef("B")
    xs = []
    for x in (a, b):
        if is_c(x):
            if _isnan(fval(x)):
                return TRUE
        elif x.op in ("sitofp", "uitofp"):
            pass
        elif x not in xs:
            xs.append(x)
    if not xs:
        return FALSE
    return mk_or(*[_mk("fnan", "B", (x,)) for x in xs])


def mk_fsign(a):
    """sign bit of a"""
    if is_c(a):
        return boolc(a.aux >> 63)
    if a.op == "fabs":
        return FALSE
    return _mk("fsign", "B", (a,))


def mk_fcmp_llvm(pred, a, b):
    if pred == "oeq":
        return mk_fcmp("feq", a, b)
    if pred == "une":
        return mk_not(mk_fcmp("feq", a, b))
    if pred == "olt":
        return mk_fcmp("flt", a, b)
    if pred == "ogt":
        return mk_fcmp("flt", b, a)
    if pred == "ole":
        return mk_fcmp("fle", a, b)
    if pred == "oge":
        return mk_fcmp("fle", b, a)
    if pred == "ult":
        return mk_not(mk_fcmp("fle", b, a))
    if pred == "ugt":
        return mk_not(mk_fcmp("fle", a, b))
    if pred == "ule":
        return mk_not(mk_fcmp("flt", b, a))
    if pred == "uge":
        return mk_not(mk_fcmp("flt", a, b))
    if pred == "uno":
        return mk_funo(a, b)
    if pred == "ord":
        return mk_not(mk_funo(a, b))
    if pred == "one":
        return mk_and(mk_not(mk_fcmp("feq", a, b)), mk_not(mk_funo(a, b)))
    if pred == "ueq":
        return mk_or(mk_fcmp("feq", a, b), mk_funo(a, b))
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    raise NotImplementedError(pred)


def mk_i2f(op, a):
    """sitofp / uitofp"""
    if a.op == "undef":
        return undef("F")
    if a.sort == "B":
        return mk_ite(a, fc(1.0 if op == "uitofp" else -1.0), fc(0.0))
    if is_c(a):
        v = a.aux if op == "uitofp" else sgn(a.aux, a.sort)
        return fc(float(v))
    if op == "sitofp" and a.op == "zext":
        op = "uitofp"
    if op == "uitofp" and a.op == "zext":
        a = a.args[0]
    return _mk(op, "F", (a,))


def mk_f2i(op, a, n):
    """fptosi / fptoui, saturating semantics (NaN -> 0)"""
    if a.op == "undef":
        return undef(n)
    if is_c(a):
        x = fval(a)
        lo, hi = (0, (1 << n) - 1) if op == "fptoui" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        if x != x:
            v = 0
        elif math.isinf(x):
            v = hi if x > 0 else lo
        else:
            v = max(lo, min(hi, math.trunc(x)))
        return bv(v, n)
    if a.op == "ftrunc" or (a.op == "ffloor" and op == "fptoui"):
        # the conversion truncates and saturates at zero anyway
        a = a.args[0]
    return _mk(op, n, (a,))


def mk_f2bits(a):
    if a.op == "undef":
        return undef(64)
    if is_c(a):
        return bv(a.aux, 64)
    if a.op == "bits2f":
        return a.args[0]
    if a.op == "ite":
        x, y = mk_f2bits(a.args[1]), mk_f2bits(a.args[2])
        if x.op != "f2bits" or y.op != "f2bits":
            return mk_ite(a.args[0], x, y)
    return _mk("f2bits", 64, (a,))


def mk_bits2f(a):
    if a.op == "undef":
        return undef("F")
    if is_c(a):
        return fbits(a.aux)
    if a.op == "f2bits":
        return a.args[0]
    if a.op == "ite":
        return mk_ite(a.args[0], mk_bits2f(a.args[1]), mk_bits2f(a.args[2]))
    return _mk("bits2f", "F", (a,))


def mk_uf(name, sort, args):
    return _mk("uf", sort, tuple(args), name)


def mk_table(vals, idx, n):
    """Constant table lookup vals[idx] (vals: tuple of ints)."""
    if is_c(idx):
        return bv(vals[idx.aux] if idx.aux < len(vals) else 0, n)
    if idx.ct:
        return map_ct(idx, lambda z: bv(vals[z.aux] if z.aux < len(vals) else 0, n), ("tab", vals, n))
    return _mk("tab", n, (idx,), vals)


# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        stack = [(r, 0)]
        seen.add(r.id)
        while stack:
            t, i = stack.pop()
            if i < len(t.args):
                stack.append((t, i + 1))
                c = t.args[i]
                if c.id not in seen:
                    seen.add(c.id)
                    stack.append((c, 0))
            else:
                out.append(t)
    return out


def rebuild(t, args):
    """Build the same operation over new arguments (with simplification)."""
    op = t.op
    if op in ("c", "v", "undef"):
        return t
    if op == "not":
        return mk_not(*args)
    if op == "and":
        return mk_and(*args)
    if op == "or":
        return mk_or(*args)
    if op == "ite":
        return mk_ite(*args)
    if op == "add":
        n = t.sort
        acc = {}
        k = t.aux
        for a in args:
            k += _lin(a, 1, acc, n)
        return _rebuild(acc, k, n)
    if op == "mulc":
        return mk_mul(args[0], bv(t.aux, t.sort))
    if op == "mul":
        return mk_mul(*args)
    if op in ("udiv", "urem", "sdiv", "srem", "band", "bor", "bxor", "shl", "lshr", "ashr"):
        return mk_bin(op, *args)
    if op == "extract":
        return mk_extract(args[0], *t.aux)
    if op == "concat":
        return mk_concat(*args)
    if op == "zext":
        return mk_zext(args[0], t.sort)
    if op == "sext":
        return mk_sext(args[0], t.sort)
    if op == "eq":
        return mk_eq(*args)
    if op == "ult":
        return mk_ult(*args)
    if op == "slt":
        return mk_slt(*args)
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fpow", "fatan2", "fmaxn", "fminn"):
        return mk_f2(op, *args)
    if op in ("fneg", "fabs", "fsqrt", "fsin", "fcos", "ffloor", "fceil", "ftrunc", "fround"):
        return mk_f1(op, *args)
    if op == "fpowi":
        return mk_powi(args[0], t.aux)
    if op == "froot":
        return mk_root(args[0], t.aux)
    if op in ("flt", "fle", "feq"):
        return mk_fcmp(op, *args)
    if op == "fnan":
        return mk_funo(args[0], args[0])
    if op == "fsign":
        return mk_fsign(args[0])
    if op in ("sitofp", "uitofp"):
        return mk_i2f(op, args[0])
    if op in ("fptosi", "fptoui"):
        return mk_f2i(op, args[0], t.sort)
    if op == "f2bits":
        return mk_f2bits(args[0])
    if op == "bits2f":
        return mk_bits2f(args[0])
    if op == "tab":
        return mk_table(t.aux, args[0], t.sort)
    if op == "uf":
        return mk_uf(t.aux, t.sort, args)
    raise NotImplementedError(op)


def subst(roots, mapping):
    """mapping: id -> term"""
    memo = dict(mapping)
    for t in topo(roots):
        if t.id not in memo:
            memo[t.id] = rebuild(t, [memo[a.id] for a in t.args]) if t.args else t
    return [memo[r.id] for r in roots]
