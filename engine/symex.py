"""Merged symbolic execution of LLVM IR.

Every function body reached from an entry point is executed once per calling
context; control-flow joins merge states with if-then-else terms, loops are
unrolled until the back edge is infeasible.  Panics are collected with their
path conditions.
"""
import heapq
import math
import re
import sys
import threading

import irparse
from irparse import sizeof, field_off
from terms import *
import terms as tm

sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


class EngineError(Exception):
    pass


# ------------------------------------------------------------------ pointers
class Ptr:
    """Guarded pointer: cases = ((guard, obj, offset:T64), ...)"""

    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return "Ptr" + repr(self.cases)


UNDEFPTR = Ptr(())


def ptr(obj, off=0):
    if isinstance(off, int):
        off = bv(off, 64)
    return Ptr(((TRUE, obj, off),))


def ptr_norm(cases):
    d = {}
    for g, o, off in cases:
        if g is FALSE:
            continue
        if o in d:
            g0, off0 = d[o]
            d[o] = (mk_or(g0, g), mk_ite(g, off, off0))
        else:
            d[o] = (g, off)
    if len(d) == 1:
        o, (g, off) = next(iter(d.items()))
        return Ptr(((TRUE, o, off),))
    return Ptr(tuple((g, o, off) for o, (g, off) in d.items()))


def merge_val(c, a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not isinstance(a, tuple):
            return b
        if not isinstance(b, tuple):
            return a
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.cases == b.cases:
            return a
        nc = mk_not(c)
        return ptr_norm([(mk_and(c, g), o, f) for g, o, f in a.cases] + [(mk_and(nc, g), o, f) for g, o, f in b.cases])
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        # mixed pointer / integer cell: keep as pointer
        if isinstance(a, T) and a.op == "undef":
            return b
        if isinstance(b, T) and b.op == "undef":
            return a
        x = a if isinstance(a, Ptr) else ptr(None, a)
        y = b if isinstance(b, Ptr) else ptr(None, b)
        return merge_val(c, x, y)
    if a.sort != b.sort:
        if a.sort == "F":
            a = mk_f2bits(a)
        if b.sort == "F":
            b = mk_f2bits(b)
    return mk_ite(c, a, b)


# ------------------------------------------------------------------ memory
class Obj:
    __slots__ = ("size", "cells", "owner", "const", "name", "tables")

    def __init__(self, size, name="", const=False):
        self.size = size
        self.cells = {}
        self.owner = None
        self.const = const
        self.name = name
        self.tables = None

    def clone(self, owner):
        o = Obj(self.size, self.name, self.const)
        o.cells = dict(self.cells)
        o.owner = owner
        return o


def cell_bytes(ex, size, val):
    """Split a cell value into a list of 8-bit terms (little endian)."""
    if isinstance(val, Ptr):
        val = ex.ptr_int(val)
    if val.sort == "F":
        val = mk_f2bits(val)
    if val.sort == "B":
        val = mk_zext(val, 8)
    n = size * 8
    if val.sort < n:
        val = mk_zext(val, n)
    return [mk_extract(val, 8 * i + 7, 8 * i) for i in range(size)]


def find_cell(cells, off):
    """Cell covering byte off -> start offset or None"""
    if off in cells:
        return off
    for k in range(off - 1, off - 17, -1):
        c = cells.get(k)
        if c is not None:
            if k + c[0] > off:
                return k
            return None
    return None


class Token:
    __slots__ = ()


def flat_conj(c):
    """Conjuncts of a literal, looking through negated disjunctions."""
    out = []
    st = [c]
    while st:
        x = st.pop()
        if x.op == "and":
            st += reversed(x.args)
        elif x.op == "not" and x.args[0].op == "or":
            st += [mk_not(y) for y in reversed(x.args[0].args)]
        else:
            out.append(x)
    return out


class St:
    __slots__ = ("pc", "mem", "tok", "facts", "dead")

    def __init__(self):
        self.pc = ()
        self.mem = {}
        self.tok = Token()
        self.facts = frozenset()
        self.dead = False

    def fork(self):
        s = St()
        s.pc = self.pc
        s.facts = self.facts
        s.mem = dict(self.mem)
        self.tok = Token()
        return s

    def add(self, c):
        """Assume literal c."""
        if c is TRUE:
            return
        if c is FALSE:
            self.dead = True
            self.pc = self.pc + (FALSE,)
            return
        parts = flat_conj(c)
        new = [p for p in parts if p.id not in self.facts]
        if new:
            self.pc = self.pc + tuple(new)
            self.facts = self.facts | frozenset(p.id for p in new)

    def decide(self, c, memo=None):
        """Simplify a boolean term under the path facts."""
        if is_c(c):
            return c
        if c.id in self.facts:
            return TRUE
        if mk_not(c).id in self.facts:
            return FALSE
        if c.op in ("not", "and", "or", "ite"):
            if memo is None:
                memo = {}
            r = memo.get(c.id)
            if r is None:
                r = memo[c.id] = self._decide(c, memo)
            return r
        if c.op == "eq" and is_c(c.args[0]) != is_c(c.args[1]):
            x = c.args[1] if is_c(c.args[0]) else c.args[0]
            k = c.args[0] if is_c(c.args[0]) else c.args[1]
            # x == k' known for another constant
            for p in self.pc:
                if p.op == "eq" and (p.args[0] is x or p.args[1] is x):
                    o = p.args[1] if p.args[0] is x else p.args[0]
                    if is_c(o) and o is not k:
                        return FALSE
        return c

    def _decide(self, c, memo):
        if c.op == "not":
            return mk_not(self.decide(c.args[0], memo))
        if c.op == "ite":
            g = self.decide(c.args[0], memo)
            if is_c(g):
                return self.decide(c.args[1] if g.aux else c.args[2], memo)
            return c
        xs = [self.decide(x, memo) for x in c.args]
        if all(x is y for x, y in zip(xs, c.args)):
            return c
        return (mk_and if c.op == "and" else mk_or)(*xs)

    def simp(self, v):
        """Pick ite branches decided by the path facts (shallow)."""
        if isinstance(v, T):
            n = 0
            while v.op == "ite" and n < 64:
                g = self.decide(v.args[0])
                if g is TRUE:
                    v = v.args[1]
                elif g is FALSE:
                    v = v.args[2]
                else:
                    break
                n += 1
            return v
        if isinstance(v, Ptr) and len(v.cases) > 1:
            out = []
            ch = False
            for g, o, f in v.cases:
                d = self.decide(g)
                if d is FALSE:
                    ch = True
                    continue
                if d is TRUE:
                    return Ptr(((TRUE, o, f),))
                if d is not g:
                    ch = True
                out.append((d, o, f))
            if ch:
                if len(out) == 1:
                    return Ptr(((TRUE, out[0][1], out[0][2]),))
                return Ptr(tuple(out))
        return v


def common_prefix(a, b):
    n = min(len(a), len(b))
    i = 0
    while i < n and a[i] is b[i]:
        i += 1
    return i


def merge_pc(a, b):
    i = common_prefix(a, b)
    ra, rb = mk_and(*a[i:]), mk_and(*b[i:])
    cond = ra
    # choose the cheaper discriminating condition
    if len(conj_set(rb)) < len(conj_set(ra)):
        cond = mk_not(rb)
    r = mk_or(ra, rb)
    return a[:i], r, cond


# ------------------------------------------------------------------ CFG info
class Info:
    pass


def sccs(nodes, succ):
    index = {}
    low = {}
    onst = set()
    stack = []
    out = []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter([s for s in succ[root] if s in nodes]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    onst.add(w)
                    work.append((w, iter([s for s in succ[w] if s in nodes])))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = stack.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    out.reverse()
    return out


def analyse(f):
    if f.info is not None:
        return f.info
    info = Info()
    blocks = f.blocks
    succ = {b: blocks[b].succ for b in blocks}
    pred = {b: [] for b in blocks}
    for b in blocks:
        for s in succ[b]:
            pred[s].append(b)
    entry = f.order[0]
    # hierarchical positions: block -> list of (pos) with loop headers
    place = {}  # block -> tuple of positions; loop levels recorded
    header = {}  # block -> tuple of headers of enclosing loops

    def go(nodes, prefix, hdrs, entries):
        nodes = [b for b in f.order if b in nodes]
        for i, comp in enumerate(sccs_sorted(nodes, succ)):
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                place[comp[0]] = prefix + (i,)
                header[comp[0]] = hdrs
            else:
                cs = set(comp)
                hd = None
                for b in f.order:
                    if b in cs and (b == entry or any(p not in cs for p in pred[b])):
                        hd = b
                        break
                place[hd] = prefix + (i, 0)
                header[hd] = hdrs + (hd,)
                go2 = cs - {hd}
                go_in(go2, prefix + (i,), hdrs + (hd,))

    def go_in(nodes, prefix, hdrs):
        nodes = [b for b in f.order if b in nodes]
        for i, comp in enumerate(sccs_sorted(nodes, succ)):
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                place[comp[0]] = prefix + (i + 1,)
                header[comp[0]] = hdrs
            else:
                cs = set(comp)
                hd = None
                for b in f.order:
                    if b in cs and any(p not in cs for p in pred[b]):
                        hd = b
                        break
                place[hd] = prefix + (i + 1, 0)
                header[hd] = hdrs + (hd,)
                go_in(cs - {hd}, prefix + (i + 1,), hdrs + (hd,))

    def sccs_sorted(nodes, succ):
        return sccs(dict.fromkeys(nodes), succ)

    go(set(blocks), (), (), None)
    info.place = place
    info.header = header
    # liveness
    use = {}
    defs = {}

    def opvars(v, acc):
        if v is None:
            return
        if v[0] == "loc":
            acc.add(v[1])
        elif v[0] == "agg":
            for _, x in v[1]:
                opvars(x, acc)

    for b, blk in blocks.items():
        u = set()
        d = set()
        for ph in blk.phis:
            d.add(ph[1])
        for ins in blk.insts + [blk.term]:
            acc = set()
            k = ins[0]
            if k == "fbin" or k == "bin" or k in ("icmp", "fcmp"):
                opvars(ins[4], acc)
                opvars(ins[5], acc)
            elif k == "fneg":
                opvars(ins[3], acc)
            elif k == "load":
                opvars(ins[3], acc)
            elif k == "store":
                opvars(ins[2], acc)
                opvars(ins[3], acc)
            elif k == "gep":
                opvars(ins[3], acc)
                for _, x in ins[4]:
                    opvars(x, acc)
            elif k == "select":
                opvars(ins[2][1], acc)
                opvars(ins[4], acc)
                opvars(ins[5], acc)
            elif k == "cast":
                opvars(ins[4], acc)
            elif k == "extractvalue":
                opvars(ins[3], acc)
            elif k == "insertvalue":
                opvars(ins[3], acc)
                opvars(ins[4], acc)
            elif k == "call":
                if ins[3][0] == "loc":
                    acc.add(ins[3][1])
                for _, x in ins[4]:
                    opvars(x, acc)
            elif k == "condbr":
                opvars(ins[1], acc)
            elif k == "switch":
                opvars(ins[1][1], acc)
            elif k == "ret":
                opvars(ins[2], acc)
            u |= acc - d
            if k not in ("store", "condbr", "br", "switch", "ret", "unreachable") and len(ins) > 1 and isinstance(ins[1], str):
                d.add(ins[1])
        use[b] = u
        defs[b] = d
    livein = {b: set(use[b]) for b in blocks}
    changed = True
    while changed:
        changed = False
        for b in reversed(f.order):
            out = set()
            for s in succ[b]:
                out |= livein[s] - {ph[1] for ph in blocks[s].phis}
                for ph in blocks[s].phis:
                    if b in ph[3]:
                        opvars(ph[3][b], out)
            n = use[b] | (out - defs[b])
            if not n <= livein[b]:
                livein[b] |= n
                changed = True
    for b in blocks:
        livein[b] |= {ph[1] for ph in blocks[b].phis}
    info.livein = livein
    f.info = info
    return info


PANIC = re.compile(r"9panicking|handle_error|handle_alloc_error|slice_index_fail|slice_error_fail|unwrap_failed|expect_failed|copy_from_slice_impl.*len_mismatch|panic_")


class Panic:
    __slots__ = ("cond", "what", "where", "pc")

    def __init__(self, pc, what, where):
        self.pc = pc
        self.cond = mk_and(*pc)
        self.what = what
        self.where = where

    def __repr__(self):
        return "Panic(%s @ %s)" % (self.what, self.where)


class Engine:
    def __init__(self, modules, models=None):
        self.modules = modules
        self.models = models or []
        self.byname = {}
        for m in modules:
            for n, f in m.funcs.items():
                self.byname.setdefault(n, f)
        self.model_cache = {}
        self.reset()
        self.max_iter = 600
        self.feas = None
        self.trace = False
        self.regime = ()  # literals over the inputs assumed throughout (reals)
        self.regime_memo = {}
        self.on_back = None  # called for every feasible back edge
        self.overrides = {}  # function name -> python model (call summaries)

    def reset(self):
        self.panics = []
        self.cuts = []
        self.nobj = 0
        self.gobj = {}
        self.gmem = {}
        self.visited = {}
        self.ninst = 0
        self.nbranch = 0
        self.nfeas = 0
        self.fresh_n = 0
        self.base = {}
        self.stubs = {}
        self.depth = 0
        self.objname = {}
        self.side = []  # (path condition, fact) a model relied on

    # ---------------------------------------------------------- objects
    def fresh(self, base, sort):
        self.fresh_n += 1
        return var("%s!%d" % (base, self.fresh_n), sort)

    def new_obj(self, st, size, name=""):
        self.nobj += 1
        o = Obj(size, name)
        o.owner = st.tok
        st.mem[self.nobj] = o
        self.objname[self.nobj] = name
        return self.nobj

    def addr(self, obj):
        """Concrete base address of an object."""
        if obj is None:
            return 0
        a = self.base.get(obj)
        if a is None:
            a = 0x100000000 + 0x1000000 * len(self.base)
            self.base[obj] = a
        return a

    def ptr_int(self, p):
        if not p.cases:
            return undef(64)
        r = None
        for g, o, off in p.cases:
            v = mk_add(bv(self.addr(o), 64), off)
            r = v if r is None else mk_ite(g, v, r)
        return r

    def int_ptr(self, t):
        if t.op == "undef":
            return UNDEFPTR
        if is_c(t):
            return self._addr_ptr(t.aux, t)
        if t.op == "ite":
            return merge_val(t.args[0], self.int_ptr(t.args[1]), self.int_ptr(t.args[2]))
        if t.op == "add" and t.aux >= 0x100000000:
            for o, a in self.base.items():
                if a <= t.aux < a + 0x1000000:
                    return ptr(o, mk_sub(t, bv(a, 64)))
            return ptr(None, t)
        return ptr(None, t)

    def _addr_ptr(self, v, t):
        if v >= 0x100000000:
            for o, a in self.base.items():
                if a <= v < a + 0x1000000:
                    return ptr(o, v - a)
        return ptr(None, t)

    # ---------------------------------------------------------- globals
    def global_obj(self, mod, name):
        m = mod
        if name not in m.globals:
            for mm in self.modules:
                if name in mm.globals:
                    m = mm
                    break
            else:
                m = None
        f = None
        if m is None or name in (m.aliases if m else {}):
            if m is not None:
                name = m.aliases[name]
            return ("fn", mod, name)
        key = ("g", id(m), name)
        if key in self.gobj:
            return key
        ty, val, const = m.global_init(name)
        o = Obj(sizeof(ty), "@" + name, const)
        self.gobj[key] = o
        self.gmem[key] = o
        if val is not None:
            self.init_global(m, o, 0, ty, val)
        return key

    def init_global(self, m, o, off, ty, val):
        k = val[0]
        if k == "zero":
            for i in range(sizeof(ty)):
                o.cells[off + i] = (1, bv(0, 8))
        elif k == "str":
            for i, b in enumerate(val[1]):
                o.cells[off + i] = (1, bv(b, 8))
        elif k == "agg":
            for i, (t, v) in enumerate(val[1]):
                fo, ft = field_off(ty, i)
                self.init_global(m, o, off + fo, ft, v)
        elif k == "undef":
            pass
        else:
            v = self.const(m, ty, val)
            o.cells[off] = (sizeof(ty), v)

    def const(self, m, ty, v):
        k = v[0]
        if k == "int":
            if ty == ("i", 1):
                return boolc(v[1])
            return bv(v[1], ty[1])
        if k == "fp":
            s = v[1]
            if s.startswith("f0x"):
                if ty[0] == "double":
                    return fbits(int(s[3:], 16))
                raise EngineError("f32 literal")
            if s.startswith("0x"):
                return fbits(int(s[2:], 16))
            if "inf" in s:
                return fc(math.inf if s[0] == "+" else -math.inf)
            if "nan" in s:
                return fbits(0x7FF8000000000000 | (1 << 63 if s[0] == "-" else 0))
            return fc(float(s))
        if k == "null":
            return ptr(None, 0)
        if k == "undef":
            return self.undef_of(ty)
        if k == "zero":
            return self.zero_of(ty)
        if k == "glob":
            o = self.global_obj(m, v[1][1:].strip('"'))
            return ptr(o, 0)
        if k == "gep":
            base = self.const(m, v[2][0], v[2][1])
            return self.gep(v[1], base, [(t, self.const(m, t, x)) for t, x in v[3]])
        if k == "inttoptr":
            return self.int_ptr(self.const(m, v[1], v[2]))
        if k == "ptrtoint":
            return self.ptr_int(self.const(m, v[1], v[2]))
        if k == "cexpr":
            a, b = self.const(m, v[2], v[3]), self.const(m, v[2], v[4])
            return mk_sub(a, b) if v[1] == "sub" else mk_add(a, b)
        if k == "trunc":
            return mk_trunc(self.const(m, v[1], v[2]), ty[1] if ty[1] != 1 else "B")
        if k == "agg":
            return tuple(self.const(m, t, x) for t, x in v[1])
        raise EngineError("const %r" % (v,))

    def sort_of(self, ty):
        if ty[0] == "i":
            return "B" if ty[1] == 1 else ty[1]
        if ty[0] == "double":
            return "F"
        raise EngineError("sort %r" % (ty,))

    def undef_of(self, ty):
        if ty[0] == "ptr":
            return UNDEFPTR
        if ty[0] == "st":
            return tuple(self.undef_of(x) for x in ty[1])
        if ty[0] == "arr":
            return tuple(self.undef_of(ty[2]) for _ in range(ty[1]))
        return undef(self.sort_of(ty))

    def zero_of(self, ty):
        if ty[0] == "ptr":
            return ptr(None, 0)
        if ty[0] == "st":
            return tuple(self.zero_of(x) for x in ty[1])
        if ty[0] == "arr":
            return tuple(self.zero_of(ty[2]) for _ in range(ty[1]))
        if ty[0] == "double":
            return fc(0.0)
        if ty == ("i", 1):
            return FALSE
        return bv(0, ty[1])

    # ---------------------------------------------------------- memory access
    def obj(self, st, o):
        if isinstance(o, tuple):
            if o[0] == "fn":
                return None
            x = st.mem.get(o)
            return x if x is not None else self.gobj.get(o)
        return st.mem.get(o)

    def wobj(self, st, o):
        x = self.obj(st, o)
        if x is None:
            return None
        if x.owner is not st.tok:
            x = x.clone(st.tok)
            st.mem[o] = x
        return x

    def read_at(self, ob, off, size, want):
        """want: 'ptr' | 'F' | 'i'"""
        c = ob.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        else:
            bs = []
            i = 0
            any_def = False
            while i < size:
                k = find_cell(ob.cells, off + i)
                if k is None:
                    bs.append(undef(8))
                    i += 1
                else:
                    cb = cell_bytes(self, *ob.cells[k])
                    j = off + i - k
                    while i < size and j < len(cb):
                        bs.append(cb[j])
                        i += 1
                        j += 1
                    any_def = True
            if not any_def:
                return UNDEFPTR if want == "ptr" else undef("F" if want == "F" else size * 8)
            v = mk_concat(*reversed(bs)) if size > 1 else bs[0]
        if want == "ptr":
            if isinstance(v, Ptr):
                return v
            if v.sort == "F":
                v = mk_f2bits(v)
            return self.int_ptr(v)
        if isinstance(v, Ptr):
            v = self.ptr_int(v)
        if want == "F":
            return v if v.sort == "F" else mk_bits2f(v)
        if v.sort == "F":
            v = mk_f2bits(v)
        elif v.sort == "B":
            v = mk_zext(v, 8)
        if v.sort != size * 8:
            v = mk_zext(v, size * 8)
        return v

    def offsets(self, st, off, ob, size):
        """Enumerate possible concrete offsets of a symbolic offset term."""
        vs = tm.values(off)
        if vs is None:
            g = 0
            base = 0
            if off.op == "add":
                base = off.aux
                for c, _ in tm.lin_items(off):
                    c = min(c, (1 << 64) - c)
                    g = math.gcd(g, c)
            elif off.op == "mulc":
                g = min(off.aux, (1 << 64) - off.aux)
            g = g or 1
            vs = range(base % g, ob.size - size + 1, g)
        return [v for v in sorted(vs) if 0 <= v and v + size <= ob.size]

    def load_prim(self, st, p, size, want):
        r = None
        p = st.simp(p)
        for g, o, off in p.cases:
            ob = self.obj(st, o)
            if ob is None:
                continue
            off = st.simp(off)
            if is_c(off):
                if off.aux + size > ob.size:
                    continue
                v = self.read_at(ob, off.aux, size, want)
            else:
                v = None
                if ob.const and want == "i" and all(isinstance(c[1], T) and is_c(c[1]) for c in ob.cells.values()):
                    v = self.const_table(ob, off, size)
                if v is None:
                    offs = self.offsets(st, off, ob, size)
                    if len(offs) > 2000:
                        raise EngineError("symbolic read over %d offsets of %s" % (len(offs), ob.name))
                    for k in offs:
                        e = st.decide(mk_eq(off, bv(k, 64)))
                        if e is FALSE:
                            continue
                        x = self.read_at(ob, k, size, want)
                        v = x if v is None else merge_val(e, x, v)
            if v is None:
                continue
            r = v if r is None else merge_val(g, v, r)
        if r is None:
            return UNDEFPTR if want == "ptr" else undef("F" if want == "F" else size * 8)
        return st.simp(r)

    def const_table(self, ob, off, size):
        g = 0
        base = 0
        if off.op == "add":
            base = off.aux
            for c, _ in tm.lin_items(off):
                g = math.gcd(g, min(c, (1 << 64) - c))
        elif off.op == "mulc":
            g = min(off.aux, (1 << 64) - off.aux)
        g = g or 1
        if base % g or ob.size > 4096:
            return None
        # index = off / g
        if off.op == "mulc" or off.op == "add":
            acc = {}
            for c, y in tm.lin_items(off) if off.op == "add" else [(off.aux, off.args[0])]:
                sc = c if c < (1 << 63) else c - (1 << 64)
                acc[y.id] = (y, (sc // g) & ((1 << 64) - 1))
            idx = tm._rebuild(acc, base // g, 64)
        else:
            idx = off
        vals = []
        for k in range(0, ob.size - size + 1, g):
            x = self.read_at(ob, k, size, "i")
            if not is_c(x):
                if x.op == "undef":
                    vals.append(0)
                    continue
                return None
            vals.append(x.aux)
        return mk_table(tuple(vals), idx, size * 8)

    def load(self, st, ty, p):
        k = ty[0]
        if k == "i":
            n = ty[1]
            size = sizeof(ty)
            v = self.load_prim(st, p, size, "i")
            if n == 1:
                return mk_trunc(v, "B")
            if n < size * 8:
                v = mk_extract(v, n - 1, 0)
            return v
        if k == "double":
            return self.load_prim(st, p, 8, "F")
        if k == "ptr":
            return self.load_prim(st, p, 8, "ptr")
        if k in ("st", "arr"):
            n = len(ty[1]) if k == "st" else ty[1]
            out = []
            for i in range(n):
                fo, ft = field_off(ty, i)
                out.append(self.load(st, ft, self.padd(p, fo)))
            return tuple(out)
        raise EngineError("load %r" % (ty,))

    def padd(self, p, k):
        if isinstance(k, int):
            if k == 0:
                return p
            k = bv(k, 64)
        return Ptr(tuple((g, o, mk_add(off, k)) for g, o, off in p.cases))

    def write_at(self, ob, off, size, val):
        cells = ob.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, val)
            return
        # remove / split overlaps
        k = find_cell(cells, off)
        if k is not None and k < off:
            self.split(cells, k)
        end = off + size
        k = find_cell(cells, end - 1)
        if k is not None and k + cells[k][0] > end:
            self.split(cells, k)
        for i in range(off, end):
            if i in cells:
                del cells[i]
        cells[off] = (size, val)

    def split(self, cells, k):
        size, val = cells.pop(k)
        for i, b in enumerate(cell_bytes(self, size, val)):
            if b.op != "undef":
                cells[k + i] = (1, b)

    def store_prim(self, st, p, size, val):
        p = st.simp(p)
        for g, o, off in p.cases:
            ob = self.wobj(st, o)
            if ob is None:
                continue
            if ob.const:
                continue
            off = st.simp(off)
            want = "ptr" if isinstance(val, Ptr) else ("F" if val.sort == "F" else "i")
            if is_c(off):
                if off.aux + size > ob.size:
                    continue
                v = val
                if g is not TRUE:
                    v = merge_val(g, val, self.read_at(ob, off.aux, size, want))
                self.write_at(ob, off.aux, size, v)
            else:
                for k in self.offsets(st, off, ob, size):
                    e = st.decide(mk_and(g, mk_eq(off, bv(k, 64))))
                    if e is FALSE:
                        continue
                    v = merge_val(e, val, self.read_at(ob, k, size, want))
                    self.write_at(ob, k, size, v)

    def store(self, st, ty, val, p):
        k = ty[0]
        if k == "i":
            size = sizeof(ty)
            if ty[1] == 1:
                val = mk_zext(val, 8)
            elif ty[1] < size * 8:
                val = mk_zext(val, size * 8)
            self.store_prim(st, p, size, val)
        elif k in ("double", "ptr"):
            self.store_prim(st, p, 8, val)
        elif k in ("st", "arr"):
            for i in range(len(val)):
                fo, ft = field_off(ty, i)
                self.store(st, ft, val[i], self.padd(p, fo))
        else:
            raise EngineError("store %r" % (ty,))

    def memcpy(self, st, dst, src, n):
        n = st.simp(n)
        dst = st.simp(dst)
        src = st.simp(src)
        if is_c(n) and n.aux == 0:
            return
        if is_c(n) and len(dst.cases) == 1 and len(src.cases) == 1 and is_c(dst.cases[0][2]) and is_c(src.cases[0][2]):
            so = self.obj(st, src.cases[0][1])
            do = self.wobj(st, dst.cases[0][1])
            if so is None or do is None:
                return
            so = self.obj(st, src.cases[0][1])
            s0, d0 = src.cases[0][2].aux, dst.cases[0][2].aux
            L = n.aux
            items = []
            i = 0
            while i < L:
                k = find_cell(so.cells, s0 + i)
                if k is None:
                    i += 1
                    continue
                size, val = so.cells[k]
                if k == s0 + i and i + size <= L:
                    items.append((i, size, val))
                    i += size
                else:
                    cb = cell_bytes(self, size, val)
                    j = s0 + i - k
                    items.append((i, 1, cb[j]))
                    i += 1
            # clear destination range
            k = find_cell(do.cells, d0)
            if k is not None and k < d0:
                self.split(do.cells, k)
            k = find_cell(do.cells, d0 + L - 1)
            if k is not None and k + do.cells[k][0] > d0 + L:
                self.split(do.cells, k)
            for i in range(d0, d0 + L):
                do.cells.pop(i, None)
            for i, size, val in items:
                do.cells[d0 + i] = (size, val)
            return
        vs = tm.values(n)
        if vs is None:
            mx = None
            for g, o, off in dst.cases:
                ob = self.obj(st, o)
                if ob is not None:
                    mx = ob.size if mx is None else max(mx, ob.size)
            if mx is None:
                return
        else:
            mx = max([v for v in vs if v < (1 << 32)] or [0])
        bytes_ = []
        for i in range(mx):
            c = st.decide(mk_ult(bv(i, 64), n))
            if c is FALSE:
                break
            b = self.load_prim(st, self.padd(src, i), 1, "i")
            bytes_.append((i, c, b))
        for i, c, b in bytes_:
            d = self.padd(dst, i)
            if c is not TRUE:
                d = Ptr(tuple((mk_and(g, c), o, off) for g, o, off in d.cases))
            self.store_prim(st, d, 1, b)

    def gep(self, st_ty, base, idx):
        off = bv(0, 64)
        ty = st_ty
        for i, (t, v) in enumerate(idx):
            if v.sort != 64:
                v = mk_sext(v, 64)
            if i == 0:
                off = mk_add(off, mk_mul(v, bv(sizeof(ty), 64)))
            elif ty[0] == "st":
                fo, ty = field_off(ty, v.aux)
                off = mk_add(off, bv(fo, 64))
            else:
                ty = ty[2]
                off = mk_add(off, mk_mul(v, bv(sizeof(ty), 64)))
        return self.padd(base, off)

    # ---------------------------------------------------------- pointers cmp
    def icmp(self, st, pred, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.int_ptr(a)
            if not isinstance(b, Ptr):
                b = self.int_ptr(b)
            if not a.cases or not b.cases:
                return undef("B")
            if pred in ("eq", "ne"):
                r = FALSE
                for g1, o1, f1 in a.cases:
                    for g2, o2, f2 in b.cases:
                        if o1 == o2:
                            r = mk_or(r, mk_and(g1, g2, mk_eq(f1, f2)))
                return mk_not(r) if pred == "ne" else r
            a, b = self.ptr_int(a), self.ptr_int(b)
        if pred == "eq":
            return mk_eq(a, b)
        if pred == "ne":
            return mk_not(mk_eq(a, b))
        if pred == "ult":
            return mk_ult(a, b)
        if pred == "ugt":
            return mk_ult(b, a)
        if pred == "ule":
            return mk_ule(a, b)
        if pred == "uge":
            return mk_ule(b, a)
        if pred == "slt":
            return mk_slt(a, b)
        if pred == "sgt":
            return mk_slt(b, a)
        if pred == "sle":
            return mk_sle(a, b)
        if pred == "sge":
            return mk_sle(b, a)
        raise EngineError(pred)

    # ---------------------------------------------------------- execution
    def find(self, mod, name):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        return self.byname.get(name)

    def run(self, name, args, st=None):
        """Run a function; returns (ret, state).  state is None if it never returns."""
        f = self.byname[name]
        if st is None:
            st = St()
        return self.call_fn(st, f, args)

    def panic(self, st, what, where=""):
        st.dead = True
        if FALSE in st.pc:
            return
        self.panics.append(Panic(st.pc, what, where))

    def call_fn(self, st, f, args):
        f.mod.compile(f)
        info = analyse(f)
        self.visited[f.name] = self.visited.get(f.name, 0) + 1
        if self.depth > 120:
            raise EngineError("recursion depth in " + f.name)
        self.depth += 1
        env = {}
        for (t, nm), v in zip(f.params, args):
            if nm:
                env[nm] = v
        pend = {}
        heap = []
        rets = []

        def sched(key, blk, s, e, iters):
            if key not in pend:
                pend[key] = []
                heapq.heappush(heap, key)
            pend[key].append((blk, s, e, iters))

        def key_of(b, iters):
            pl = info.place[b]
            hd = info.header[b]
            k = []
            # pl = (p0, p1, ...) ; loops interleave iteration counters
            for i in range(len(pl)):
                k.append(pl[i])
                if i < len(pl) - 1:
                    k.append(iters[i])
            return tuple(k)

        base_len = len(st.pc)
        entry = f.order[0]
        it0 = (0,) * len(info.header[entry])
        sched(key_of(entry, it0), entry, st, env, it0)

        def edge(src, dst, s, e, iters):
            """Queue the transition src->dst."""
            dblk = f.blocks[dst]
            hs, hd = info.header[src], info.header[dst]
            # common loops
            n = 0
            while n < len(hs) and n < len(hd) and hs[n] == hd[n]:
                n += 1
            it = list(iters[:n]) + [0] * (len(hd) - n)
            if n and dst == hd[-1] and n == len(hd):
                # back edge to the header of an enclosing loop
                it[n - 1] += 1
                cnt = it[n - 1]
                if not self.loop_ok(f, s, cnt):
                    return
                if self.on_back is not None:
                    self.on_back(f, dst, cnt, s)
            live = info.livein[dst]
            ne = {}
            if dblk.phis:
                vals = [(ph[1], self.val(f.mod, e, ph[2], ph[3][src], s)) for ph in dblk.phis]
                for k in live:
                    if k in e:
                        ne[k] = e[k]
                for k, v in vals:
                    ne[k] = v
            else:
                for k in live:
                    if k in e:
                        ne[k] = e[k]
            it = tuple(it)
            sched(key_of(dst, it), dst, s, ne, it)

        while heap:
            key = heapq.heappop(heap)
            items = pend.pop(key)
            blk, s, e, iters = items[0]
            if len(items) > 1:
                s, e = self.merge_states([(x[1], x[2]) for x in items])
            b = f.blocks[blk]
            alive = True
            for ins in b.insts:
                self.ninst += 1
                self.step(f, s, e, ins)
                if s.dead:
                    alive = False
                    break
            if not alive:
                continue
            t = b.term
            k = t[0]
            if k == "br":
                edge(blk, t[1], s, e, iters)
            elif k == "condbr":
                c = self.val(f.mod, e, ("i", 1), t[1], s)
                c = s.decide(self.hdecide(c))
                if c is TRUE or c.op == "undef":
                    edge(blk, t[2], s, e, iters)
                elif c is FALSE:
                    edge(blk, t[3], s, e, iters)
                elif t[2] == t[3]:
                    edge(blk, t[2], s, e, iters)
                else:
                    self.nbranch += 1
                    s2 = s.fork()
                    s.add(c)
                    s2.add(mk_not(c))
                    edge(blk, t[2], s, e, iters)
                    edge(blk, t[3], s2, e, iters)
            elif k == "switch":
                v = self.val(f.mod, e, t[1][0], t[1][1], s)
                v = s.simp(v)
                if v.op == "undef":
                    edge(blk, t[2], s, e, iters)
                    continue
                n = t[1][0][1]
                if v.sort == "B":
                    v = mk_zext(v, 8)
                    n = 8
                groups = {}
                nots = []
                for cv, tgt in t[3]:
                    c = s.decide(mk_eq(v, bv(cv, n)))
                    nots.append(mk_not(c))
                    if c is not FALSE:
                        groups.setdefault(tgt, []).append(c)
                d = s.decide(mk_and(*nots))
                if d is not FALSE:
                    groups.setdefault(t[2], []).append(d)
                gl = list(groups.items())
                self.nbranch += max(0, len(gl) - 1)
                for i, (tgt, cs) in enumerate(gl):
                    s2 = s.fork() if i < len(gl) - 1 else s
                    s2.add(s2.decide(mk_or(*cs)))
                    if s2.dead:
                        continue
                    edge(blk, tgt, s2, e, iters)
            elif k == "ret":
                rv = None
                if t[1] is not None:
                    rv = self.val(f.mod, e, t[1], t[2], s)
                rets.append((s, {"r": rv}))
            elif k == "unreachable":
                pass
        self.depth -= 1
        if not rets:
            st.dead = True
            return None, None
        s, e = self.merge_states(rets) if len(rets) > 1 else rets[0]
        return e["r"], s

    def hdecide(self, c):
        """Decide comparisons that the regime assumptions alone settle."""
        if not self.regime or is_c(c):
            return c
        r = self.regime_memo.get(c.id)
        if r is not None:
            return r
        r = c
        if c.op in ("flt", "fle", "feq", "fnan", "fsign"):
            if len(tm.topo([c])) <= 12:
                if not self.feas(tuple(self.regime) + (c,)):
                    r = FALSE
                elif not self.feas(tuple(self.regime) + (mk_not(c),)):
                    r = TRUE
        elif c.op in ("and", "or", "not", "ite"):
            r = rebuild(c, [self.hdecide(x) for x in c.args])
        self.regime_memo[c.id] = r
        return r

    def loop_ok(self, f, s, cnt):
        if cnt > self.max_iter:
            raise EngineError("loop bound exceeded in " + f.name)
        if self.feas is None:
            return True
        if has_float(s.pc[-12:]) or cnt in (8, 24, 48, 70, 72, 96, 128, 200, 300):
            self.nfeas += 1
            return self.feas(s.pc)
        return True

    def merge_states(self, items):
        items = list(items)
        while len(items) > 1:
            # merge the pair with the longest common path prefix
            best = None
            for i in range(len(items)):
                for j in range(i + 1, len(items)):
                    n = common_prefix(items[i][0].pc, items[j][0].pc)
                    if best is None or n > best[0]:
                        best = (n, i, j)
            _, i, j = best
            m = self.merge2(items[i], items[j])
            items = [x for k, x in enumerate(items) if k not in (i, j)] + [m]
        return items[0]

    def merge2(self, A, B):
        sa, ea = A
        sb, eb = B
        prefix, r, c = merge_pc(sa.pc, sb.pc)
        s = St()
        s.pc = prefix
        s.facts = frozenset(x.id for x in prefix)
        s.add(r)
        # c: true -> take A
        e = {}
        for k, va in ea.items():
            if k in eb:
                vb = eb[k]
                e[k] = va if va is vb else merge_val(c, va, vb)
            else:
                e[k] = va
        for k, vb in eb.items():
            if k not in ea:
                e[k] = vb
        mem = s.mem
        ma, mb = sa.mem, sb.mem
        for o, xa in ma.items():
            xb = mb.get(o)
            if xb is None and isinstance(o, tuple):
                xb = self.gobj.get(o)
            if xb is None or xa is xb:
                mem[o] = xa
            else:
                mem[o] = self.merge_obj(c, xa, xb, s)
        for o, xb in mb.items():
            if o not in ma:
                if isinstance(o, tuple):
                    mem[o] = self.merge_obj(c, self.gobj[o], xb, s)
                else:
                    mem[o] = xb
        return s, e

    def merge_obj(self, c, xa, xb, s):
        o = Obj(xa.size, xa.name, xa.const)
        o.owner = s.tok
        ca, cb = xa.cells, xb.cells
        if len(ca) == len(cb) and ca.keys() == cb.keys() and all(ca[k][0] == cb[k][0] for k in ca):
            for k, (size, va) in ca.items():
                vb = cb[k][1]
                o.cells[k] = (size, va) if va is vb else (size, merge_val(c, va, vb))
            return o
        offs = sorted(set(ca) | set(cb))
        A, B = dict(ca), dict(cb)
        # align differing shapes by splitting to bytes
        for k in offs:
            if k in A and k in B:
                if A[k][0] != B[k][0]:
                    self.split(A, k)
                    self.split(B, k)
            elif k in A:
                # does a B cell cover part of it?
                cov = [j for j in range(k, k + A[k][0]) if find_cell(B, j) is not None]
                if cov and A[k][0] > 1:
                    self.split(A, k)
                    for j in cov:
                        q = find_cell(B, j)
                        if q is not None and B[q][0] > 1:
                            self.split(B, q)
                else:
                    q = find_cell(B, k)
                    if q is not None and B[q][0] > 1:
                        self.split(B, q)
            elif k in B:
                cov = [j for j in range(k, k + B[k][0]) if find_cell(A, j) is not None]
                if cov and B[k][0] > 1:
                    self.split(B, k)
                    for j in cov:
                        q = find_cell(A, j)
                        if q is not None and A[q][0] > 1:
                            self.split(A, q)
                else:
                    q = find_cell(A, k)
                    if q is not None and A[q][0] > 1:
                        self.split(A, q)
        for k in sorted(set(A) | set(B)):
            if k in A and k in B:
                if A[k][0] != B[k][0]:
                    raise EngineError("cell merge")
                va, vb = A[k][1], B[k][1]
                o.cells[k] = (A[k][0], va if va is vb else merge_val(c, va, vb))
            elif k in A:
                o.cells[k] = A[k]
            else:
                o.cells[k] = B[k]
        return o

    # ---------------------------------------------------------- instructions
    def val(self, mod, env, ty, v, st=None):
        k = v[0]
        if k == "loc":
            x = env.get(v[1])
            if x is None:
                return self.undef_of(ty)
            return x
        return self.const(mod, ty, v)

    def step(self, f, st, env, ins):
        k = ins[0]
        mod = f.mod
        V = self.val
        if k == "fbin":
            if ins[3][0] != "double":
                raise EngineError("float type %r" % (ins[3],))
            env[ins[1]] = mk_f2(ins[2], fsimp(st, V(mod, env, ins[3], ins[4])), fsimp(st, V(mod, env, ins[3], ins[5])))
        elif k == "bin":
            op = ins[2]
            a, b = V(mod, env, ins[3], ins[4]), V(mod, env, ins[3], ins[5])
            a, b = st.simp(a), st.simp(b)
            if op == "add":
                r = mk_add(a, b)
            elif op == "sub":
                r = mk_sub(a, b)
            elif op == "mul":
                r = mk_mul(a, b)
            else:
                r = mk_bin({"and": "band", "or": "bor", "xor": "bxor"}.get(op, op), a, b)
            env[ins[1]] = r
        elif k == "icmp":
            a, b = V(mod, env, ins[3], ins[4]), V(mod, env, ins[3], ins[5])
            env[ins[1]] = st.decide(self.icmp(st, ins[2], st.simp(a), st.simp(b)))
        elif k == "fcmp":
            a, b = V(mod, env, ins[3], ins[4]), V(mod, env, ins[3], ins[5])
            env[ins[1]] = st.decide(mk_fcmp_llvm(ins[2], fsimp(st, a), fsimp(st, b)))
        elif k == "load":
            p = V(mod, env, irparse.PTR, ins[3])
            env[ins[1]] = self.load(st, ins[2], p)
        elif k == "store":
            v = fsimp(st, V(mod, env, ins[1], ins[2]))
            p = V(mod, env, irparse.PTR, ins[3])
            self.store(st, ins[1], v, p)
        elif k == "gep":
            b = V(mod, env, irparse.PTR, ins[3])
            env[ins[1]] = self.gep(ins[2], b, [(t, st.simp(V(mod, env, t, x))) for t, x in ins[4]])
        elif k == "alloca":
            env[ins[1]] = ptr(self.new_obj(st, sizeof(ins[2]), f.name[-24:] + ins[1]))
        elif k == "select":
            c = st.decide(self.hdecide(V(mod, env, ins[2][0], ins[2][1])))
            a, b = V(mod, env, ins[3], ins[4]), V(mod, env, ins[3], ins[5])
            if c is TRUE or c.op == "undef":
                env[ins[1]] = a
            elif c is FALSE:
                env[ins[1]] = b
            else:
                env[ins[1]] = merge_val(c, a, b)
        elif k == "cast":
            env[ins[1]] = self.cast(ins[2], ins[3], V(mod, env, ins[3], ins[4]), ins[5])
        elif k == "fneg":
            env[ins[1]] = mk_f1("fneg", fsimp(st, V(mod, env, ins[2], ins[3])))
        elif k == "extractvalue":
            v = V(mod, env, ins[2], ins[3])
            for i in ins[4]:
                v = v[i]
            env[ins[1]] = v
        elif k == "insertvalue":
            v = V(mod, env, ins[2], ins[3])
            ty = ins[2]
            for i in ins[5]:
                ty = ty[1][i] if ty[0] == "st" else ty[2]
            x = V(mod, env, ty, ins[4])

            def put(v, idx):
                if not idx:
                    return x
                l = list(v)
                l[idx[0]] = put(l[idx[0]], idx[1:])
                return tuple(l)

            env[ins[1]] = put(v, ins[5])
        elif k == "call":
            self.call(f, st, env, ins)
        else:
            raise EngineError("unsupported instruction %r in %s" % (ins, f.name))

    def cast(self, op, t1, v, t2):
        if op == "freeze":
            return v
        if op == "zext":
            return mk_zext(v, t2[1])
        if op == "sext":
            return mk_sext(v, t2[1])
        if op == "trunc":
            return mk_trunc(v, "B" if t2[1] == 1 else t2[1])
        if op == "ptrtoint":
            r = self.ptr_int(v)
            return r if t2[1] == 64 else mk_trunc(r, t2[1])
        if op == "inttoptr":
            return self.int_ptr(v)
        if op == "bitcast":
            if t1 == t2:
                return v
            if t1[0] == "double":
                return mk_f2bits(v)
            if t2[0] == "double":
                return mk_bits2f(v)
            raise EngineError("bitcast")
        if op in ("sitofp", "uitofp"):
            return mk_i2f(op, v)
        if op in ("fptosi", "fptoui"):
            return mk_f2i(op, v, t2[1])
        raise EngineError("cast " + op)

    def call(self, f, st, env, ins):
        _, dst, rt, callee, args, comment = ins
        av = [fsimp(st, self.val(f.mod, env, t, v)) for t, v in args]
        if callee[0] == "loc":
            p = st.simp(env[callee[1]])
            targets = [(g, o) for g, o, off in p.cases]
            if len(targets) != 1:
                raise EngineError("indirect call with %d targets in %s" % (len(targets), f.name))
            if targets[0][1] is None or targets[0][1][0] != "fn":
                raise EngineError("indirect call to data in " + f.name)
            mod, name = targets[0][1][1], targets[0][1][2]
        else:
            mod, name = f.mod, callee[1]
        r = self.invoke(st, mod, name, av, rt, comment, f)
        if dst is not None:
            env[dst] = r

    def invoke(self, st, mod, name, av, rt=None, comment=None, caller=None):
        ov = self.overrides.get(name)
        if ov is not None:
            return ov(self, st, av)
        if name.startswith("llvm."):
            m = self.get_model(name, comment)
            if m is None:
                raise EngineError("no model for intrinsic " + name)
            return m(self, st, av)
        m = self.get_model(name, comment)
        if m is not None:
            self.stubs[name] = self.stubs.get(name, 0) + 1
            return m(self, st, av)
        if PANIC.search(name):
            self.panic(st, name, caller.name if caller else "")
            return None
        fn = self.find(mod, name)
        if fn is not None:
            r, s2 = self.call_fn(st, fn, av)
            if s2 is None:
                st.dead = True
                return None
            if s2 is not st:
                st.pc, st.mem, st.tok, st.facts = s2.pc, s2.mem, s2.tok, s2.facts
                st.dead = s2.dead
            return r
        raise EngineError("no body or model for %s (%s) called from %s" % (name, comment, caller.name if caller else "?"))

    def get_model(self, name, comment):
        if name in self.model_cache:
            return self.model_cache[name]
        r = None
        for rx, fn in self.models:
            if rx.search(name):
                r = fn
                break
        self.model_cache[name] = r
        return r


_hf = {}


def fsimp(st, v):
    """Drop alternatives of a float value that the path facts exclude."""
    if isinstance(v, T) and v.op == "ite" and v.sort == "F":
        return st.simp(v)
    return v


def term_has_float(t):
    r = _hf.get(t.id)
    if r is None:
        r = t.op in ("flt", "fle", "feq", "fnan", "fsign") or any(a.sort == "B" and term_has_float(a) for a in t.args)
        _hf[t.id] = r
    return r


def has_float(lits):
    return any(term_has_float(x) for x in lits)


def in_thread(fn):
    """Run fn in a thread with a large stack; propagate exceptions."""
    box = {}

    def go():
        try:
            box["r"] = fn()
        except BaseException as e:  # noqa
            import traceback

            box["tb"] = traceback.format_exc()
            box["e"] = e

    th = threading.Thread(target=go)
    th.start()
    th.join()
    if "e" in box:
        sys.stderr.write(box["tb"])
        raise box["e"]
    return box.get("r")
