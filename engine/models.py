"""Models of intrinsics and of library functions whose bodies are not in the IR.

Everything listed here is part of the trusted base; each check reports the
non-intrinsic models it actually used.
"""
import re

from terms import *
import terms as tm
from symex import Ptr, ptr, UNDEFPTR, EngineError, merge_val, conj_set

MODELS = []


def model(rx):
    def deco(fn):
        MODELS.append((re.compile(rx), fn))
        return fn

    return deco


# ------------------------------------------------------------------ intrinsics
@model(r"^llvm\.(lifetime|assume|experimental\.noalias|dbg|donothing)")
def _nop(ex, st, a):
    return None


@model(r"^llvm\.(memcpy|memmove)")
def _memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2])


@model(r"^(memcpy|memmove)$")
def _memcpy2(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0]


@model(r"^llvm\.memset")
def _memset(ex, st, a):
    n = st.simp(a[2])
    if not is_c(n):
        raise EngineError("memset with symbolic length")
    L = n.aux
    i = 0
    while i < L:
        if is_c(a[1]) and L - i >= 8:
            ex.store_prim(st, ex.padd(a[0], i), 8, bv(int.from_bytes(bytes([a[1].aux]) * 8, "little"), 64))
            i += 8
        else:
            ex.store_prim(st, ex.padd(a[0], i), 1, a[1])
            i += 1


def _f1(op):
    return lambda ex, st, a: mk_f1(op, a[0])


for nm, op in (
    ("fabs", "fabs"),
    ("sqrt", "fsqrt"),
    ("sin", "fsin"),
    ("cos", "fcos"),
    ("floor", "ffloor"),
    ("ceil", "fceil"),
    ("trunc", "ftrunc"),
    ("round", "fround"),
):
    MODELS.append((re.compile(r"^llvm\.%s\.f64$" % nm), _f1(op)))
    MODELS.append((re.compile(r"^%s$" % nm), _f1(op)))
    # libm crate entry points (no-std build)
    MODELS.append((re.compile(r"_4libm.*%d%s$" % (len(nm), nm)), _f1(op)))


@model(r"^llvm\.pow\.f64$|^pow$|_4libm.*3pow$")
def _pow(ex, st, a):
    return mk_f2("fpow", a[0], a[1])


@model(r"^atan2$|^llvm\.atan2\.f64$|_4libm.*5atan2$")
def _atan2(ex, st, a):
    return mk_f2("fatan2", a[0], a[1])


@model(r"^fmod$|_4libm.*4fmod$")
def _fmod(ex, st, a):
    return mk_f2("frem", a[0], a[1])


@model(r"_4libm.*4fabs$")
def _lfabs(ex, st, a):
    return mk_f1("fabs", a[0])


@model(r"^llvm\.powi\.f64")
def _powi(ex, st, a):
    k = a[1]
    if not is_c(k):
        return mk_uf("powi", "F", (a[0], k))
    return mk_powi(a[0], sgn(k.aux, k.sort))


@model(r"^llvm\.maximumnum\.f64|^llvm\.maxnum\.f64|^fmax$|_4libm.*4fmax$")
def _maxn(ex, st, a):
    # fmax semantics; -0.0/+0.0 ordering is not distinguished
    x, y = a
    if is_c(x):
        x, y = y, x
    # result: x if x >= y or y is NaN else y   (x NaN -> y)
    return mk_ite(mk_or(mk_fcmp("flt", y, x), mk_funo(y, y)), x, y)


@model(r"^llvm\.minimumnum\.f64|^llvm\.minnum\.f64|^fmin$|_4libm.*4fmin$")
def _minn(ex, st, a):
    x, y = a
    if is_c(x):
        x, y = y, x
    return mk_ite(mk_or(mk_fcmp("flt", x, y), mk_funo(y, y)), x, y)


@model(r"^llvm\.copysign\.f64|^copysign$")
def _copysign(ex, st, a):
    ab = mk_f1("fabs", a[0])
    return mk_ite(mk_fsign(a[1]), mk_f1("fneg", ab), ab)


@model(r"^llvm\.fptosi\.sat\.i(\d+)\.f64")
def _fptosi(ex, st, a):
    return mk_f2i("fptosi", a[0], ex._sat_n)


def _sat(op, n):
    return lambda ex, st, a: mk_f2i(op, a[0], n)


MODELS.pop()
for n in (8, 16, 32, 64, 128):
    MODELS.append((re.compile(r"^llvm\.fptosi\.sat\.i%d\.f64" % n), _sat("fptosi", n)))
    MODELS.append((re.compile(r"^llvm\.fptoui\.sat\.i%d\.f64" % n), _sat("fptoui", n)))


def umax(t):
    return tm._umax(t) if t.op != "undef" else (1 << t.sort) - 1


@model(r"^llvm\.uadd\.with\.overflow")
def _uaddo(ex, st, a):
    n = a[0].sort
    if umax(a[0]) + umax(a[1]) < 1 << n:
        return (mk_add(a[0], a[1]), FALSE)
    s = mk_add(mk_zext(a[0], n + 1), mk_zext(a[1], n + 1))
    return (mk_add(a[0], a[1]), mk_eq(mk_extract(s, n, n), bv(1, 1)))


@model(r"^llvm\.usub\.with\.overflow")
def _usubo(ex, st, a):
    return (mk_sub(a[0], a[1]), mk_ult(a[0], a[1]))


@model(r"^llvm\.umul\.with\.overflow")
def _umulo(ex, st, a):
    n = a[0].sort
    if umax(a[0]) * umax(a[1]) < 1 << n:
        return (mk_mul(a[0], a[1]), FALSE)
    w = mk_mul(mk_zext(a[0], 2 * n), mk_zext(a[1], 2 * n))
    return (mk_mul(a[0], a[1]), mk_not(mk_eq(mk_extract(w, 2 * n - 1, n), bv(0, n))))


def _so(op, wide):
    def go(ex, st, a):
        n = a[0].sort
        m = wide(n)
        x, y = umax(a[0]), umax(a[1])
        if op is not mk_sub and (x * y if op is mk_mul else x + y) < 1 << (n - 1) and max(x, y) < 1 << (n - 1):
            return (op(a[0], a[1]), FALSE)
        w = op(mk_sext(a[0], m), mk_sext(a[1], m))
        r = op(a[0], a[1])
        return (r, mk_not(mk_eq(mk_sext(r, m), w)))

    return go


MODELS.append((re.compile(r"^llvm\.sadd\.with\.overflow"), _so(mk_add, lambda n: n + 1)))
MODELS.append((re.compile(r"^llvm\.ssub\.with\.overflow"), _so(mk_sub, lambda n: n + 1)))
MODELS.append((re.compile(r"^llvm\.smul\.with\.overflow"), _so(mk_mul, lambda n: 2 * n)))


@model(r"^llvm\.usub\.sat")
def _usubsat(ex, st, a):
    return mk_ite(mk_ult(a[0], a[1]), bv(0, a[0].sort), mk_sub(a[0], a[1]))


@model(r"^llvm\.uadd\.sat")
def _uaddsat(ex, st, a):
    r = mk_add(a[0], a[1])
    return mk_ite(mk_ult(r, a[0]), bv(-1, a[0].sort), r)


@model(r"^llvm\.umin")
def _umin(ex, st, a):
    return mk_ite(mk_ult(a[0], a[1]), a[0], a[1])


@model(r"^llvm\.umax")
def _umax(ex, st, a):
    return mk_ite(mk_ult(a[0], a[1]), a[1], a[0])


@model(r"^llvm\.smin")
def _smin(ex, st, a):
    return mk_ite(mk_slt(a[0], a[1]), a[0], a[1])


@model(r"^llvm\.smax")
def _smax(ex, st, a):
    return mk_ite(mk_slt(a[0], a[1]), a[1], a[0])


@model(r"^llvm\.abs\.")
def _iabs(ex, st, a):
    return mk_ite(mk_slt(a[0], bv(0, a[0].sort)), mk_neg(a[0]), a[0])


@model(r"^llvm\.(s|u)cmp\.i8")
def _cmp3(ex, st, a):
    raise EngineError("use typed cmp")


MODELS.pop()


@model(r"^llvm\.scmp\.i8")
def _scmp(ex, st, a):
    return mk_ite(mk_slt(a[0], a[1]), bv(-1, 8), mk_ite(mk_eq(a[0], a[1]), bv(0, 8), bv(1, 8)))


@model(r"^llvm\.ucmp\.i8")
def _ucmp(ex, st, a):
    return mk_ite(mk_ult(a[0], a[1]), bv(-1, 8), mk_ite(mk_eq(a[0], a[1]), bv(0, 8), bv(1, 8)))


@model(r"^llvm\.fshl\.")
def _fshl(ex, st, a):
    n = a[0].sort
    k = a[2]
    if not is_c(k):
        raise EngineError("fshl symbolic")
    k = k.aux % n
    if k == 0:
        return a[0]
    return mk_concat(mk_extract(a[0], n - 1 - k, 0), mk_extract(a[1], n - 1, n - k))


@model(r"^llvm\.ctpop|^llvm\.cttz|^llvm\.ctlz|^llvm\.bswap")
def _bits(ex, st, a):
    raise EngineError("bit intrinsic")


MODELS.pop()


@model(r"^llvm\.cttz\.i(\d+)")
def _cttz(ex, st, a):
    n = a[0].sort
    r = bv(n, n)
    for i in reversed(range(n)):
        r = mk_ite(mk_eq(mk_extract(a[0], i, i), bv(1, 1)), bv(i, n), r)
    return r


@model(r"^llvm\.ctlz\.i(\d+)")
def _ctlz(ex, st, a):
    n = a[0].sort
    r = bv(n, n)
    for i in range(n):
        r = mk_ite(mk_eq(mk_extract(a[0], i, i), bv(1, 1)), bv(n - 1 - i, n), r)
    return r


@model(r"^llvm\.bswap\.")
def _bswap(ex, st, a):
    n = a[0].sort
    return mk_concat(*[mk_extract(a[0], 8 * i + 7, 8 * i) for i in range(n // 8)])


@model(r"^llvm\.load\.relative")
def _loadrel(ex, st, a):
    """Relative lookup table: ptr + sext(load i32 (ptr+off)); entries are stored as (target - table) constants."""
    off = a[1]
    v = ex.load(st, ("i", 32), ex.padd(a[0], off))
    return ex.int_ptr(mk_add(ex.ptr_int(a[0]), mk_sext(v, 64)))


# ------------------------------------------------------------------ memory compare
def bytes_of(ex, st, p, n):
    return [ex.load_prim(st, ex.padd(p, i), 1, "i") for i in range(n)]


@model(r"^(bcmp|memcmp)$")
def _bcmp(ex, st, a):
    n = st.simp(a[2])
    if is_c(n):
        c = mk_and(*[mk_eq(x, y) for x, y in zip(bytes_of(ex, st, a[0], n.aux), bytes_of(ex, st, a[1], n.aux))])
    else:
        vs = tm.values(n)
        if vs is None:
            raise EngineError("bcmp symbolic length")
        mx = max(vs)
        c = TRUE
        for i, (x, y) in enumerate(zip(bytes_of(ex, st, a[0], mx), bytes_of(ex, st, a[1], mx))):
            c = mk_and(c, mk_or(mk_ule(n, bv(i, 64)), mk_eq(x, y)))
    return mk_ite(c, bv(0, 32), bv(1, 32))


# ------------------------------------------------------------------ allocation
@model(r"___rustc.*___rust_no_alloc_shim_is_unstable")
def _shim(ex, st, a):
    return None


@model(r"___rust_alloc(_zeroed)?$")
def _alloc(ex, st, a):
    n = st.simp(a[0])
    if not is_c(n):
        vs = tm.values(n)
        size = max(vs) if vs else 4096
    else:
        size = n.aux
    return ptr(ex.new_obj(st, size, "heap"))


@model(r"___rust_dealloc$")
def _dealloc(ex, st, a):
    return None
