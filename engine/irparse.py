"""Parser for the textual LLVM IR that rustc emits (no vectorisation, panic=abort)."""
import re

TOK = re.compile(
    r"""\s*(?:
    (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\.)*")
  | (?P<loc>%"(?:[^"])*"|%[-\w.$]+)
  | (?P<glob>@"(?:[^"])*"|@[-\w.$]+)
  | (?P<meta>![\w.]*)
  | (?P<flt>[-+](?:inf|q?nan)(?:\([^)]*\))?|f0x[0-9A-Fa-f]+|0x[HKLMR]?[0-9A-Fa-f]+|[-+]?\d+\.\d+(?:[eE][-+]?\d+)?)
  | (?P<int>-?\d+)
  | (?P<id>[A-Za-z_][\w.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*#:|$^])
)""",
    re.X,
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise SyntaxError("tok: " + s[i : i + 60] + "  in " + s[:120])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# types: ('i',n) 'double' 'float' 'ptr' 'void' ('arr',n,t) ('st',(t..),packed) ('vec',n,t) ('opaque',)
PTR = ("ptr",)
DBL = ("double",)
FLT = ("float",)
VOID = ("void",)


def align_up(x, a):
    return (x + a - 1) // a * a


def abi_align(t):
    k = t[0]
    if k == "i":
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k in ("ptr", "double"):
        return 8
    if k == "float":
        return 4
    if k == "arr":
        return abi_align(t[2])
    if k == "st":
        if t[2]:
            return 1
        return max([abi_align(x) for x in t[1]], default=1)
    if k == "vec":
        return sizeof(t)
    raise NotImplementedError(t)


def sizeof(t):
    k = t[0]
    if k == "i":
        n = t[1]
        b = (n + 7) // 8
        return align_up(b, abi_align(t))
    if k in ("ptr", "double"):
        return 8
    if k == "float":
        return 4
    if k == "arr":
        return t[1] * sizeof(t[2])
    if k == "st":
        o = 0
        for x in t[1]:
            if not t[2]:
                o = align_up(o, abi_align(x))
            o += sizeof(x)
        return align_up(o, abi_align(t))
    if k == "vec":
        return t[1] * sizeof(t[2])
    raise NotImplementedError(t)


def field_off(t, i):
    if t[0] in ("arr", "vec"):
        return i * sizeof(t[2]), t[2]
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            o = align_up(o, abi_align(x))
        if j == i:
            return o, x
        o += sizeof(x)
    raise IndexError


VALKW = {"true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "none", "splat", "sub", "add", "trunc", "xor"}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise SyntaxError("expected %s got %s at %s" % (v, x, self.t[max(0, self.i - 8) : self.i + 8]))

    def eof(self):
        return self.i >= len(self.t)

    def is_type(self):
        k, v = self.peek()
        if k == "id":
            return v in ("double", "float", "ptr", "void", "half", "token", "metadata", "label", "fp128") or re.fullmatch(r"i\d+", v) is not None
        if k == "loc":
            return v in self.mod.types
        return k == "p" and v in "[{<"

    def type(self):
        k, v = self.next()
        if k == "id":
            if v in ("double", "float", "ptr", "void", "token", "metadata", "label", "half", "fp128"):
                t = (v,)
                if v == "ptr" and self.peek()[1] == "addrspace":
                    self.next()
                    self.skip_paren()
                return t
            m = re.fullmatch(r"i(\d+)", v)
            if m:
                return ("i", int(m.group(1)))
            raise SyntaxError("type " + v)
        if k == "loc":
            return self.mod.named_type(v)
        if v == "[":
            n = int(self.next()[1])
            self.expect("x")
            t = self.type()
            self.expect("]")
            return ("arr", n, t)
        if v == "{":
            ts = []
            if not self.accept("}"):
                while True:
                    ts.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            return ("st", tuple(ts), False)
        if v == "<":
            if self.accept("{"):
                ts = []
                if not self.accept("}"):
                    while True:
                        ts.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                return ("st", tuple(ts), True)
            n = int(self.next()[1])
            self.expect("x")
            t = self.type()
            self.expect(">")
            return ("vec", n, t)
        raise SyntaxError("type %s %s" % (k, v))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            v = self.next()
            if v[0] == "str":
                continue
            if v[1] == "(":
                d += 1
            elif v[1] == ")":
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "id" and v not in VALKW:
                self.next()
                if v == "align" and self.peek()[0] == "int":
                    self.next()
                elif self.peek()[1] == "(":
                    self.skip_paren()
            elif k == "str" and not v.startswith("c"):
                self.next()
                if self.accept("="):
                    self.next()
            elif k == "p" and v == "#":
                self.next()
                self.next()
            else:
                return

    def value(self, ty):
        """-> ('loc',name) ('glob',name) ('int',v) ('fp',bits) ('null',) ('undef',) ('zero',) ('agg',[(t,v)]) ('str',bytes)
        ('gep',srcty,base,[(t,v)]) ('inttoptr',v) ('ptrtoint',v)"""
        k, v = self.next()
        if k == "loc":
            return ("loc", v)
        if k == "glob":
            return ("glob", v)
        if k == "int":
            if ty[0] in ("double", "float"):
                return ("fp", v)
            return ("int", int(v))
        if k == "flt":
            return ("fp", v)
        if k == "id":
            if v == "true":
                return ("int", 1)
            if v == "false":
                return ("int", 0)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v == "getelementptr":
                while self.peek()[0] == "id":
                    self.next()
                    if self.peek()[1] == "(" and self.t[self.i - 1][1] == "inrange":
                        self.skip_paren()
                self.expect("(")
                st = self.type()
                self.expect(",")
                ops = []
                while True:
                    t = self.type()
                    self.skip_attrs()
                    ops.append((t, self.value(t)))
                    if self.accept(")"):
                        break
                    self.expect(",")
                return ("gep", st, ops[0], ops[1:])
            if v in ("inttoptr", "ptrtoint", "trunc"):
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect("to")
                self.type()
                self.expect(")")
                return (v, t, x)
            if v in ("sub", "add"):
                while self.peek()[0] == "id":
                    self.next()
                self.expect("(")
                t = self.type()
                a = self.value(t)
                self.expect(",")
                t2 = self.type()
                b = self.value(t2)
                self.expect(")")
                return ("cexpr", v, t, a, b)
            if v == "splat":
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect(")")
                return ("splat", x)
            if v == "asm":
                return ("asm",)
            if v == "none":
                return ("null",)
        if k == "str" and v.startswith("c"):
            b = v[2:-1].encode("latin-1")
            b = re.sub(rb"\\(\\|[0-9A-Fa-f]{2})", lambda m: m.group(1) if m.group(1) == b"\\" else bytes([int(m.group(1), 16)]), b)
            return ("str", b)
        if k == "p" and v in "[{<":
            close = {"[": "]", "{": "}", "<": ">"}[v]
            packed = False
            if v == "<" and self.peek()[1] == "{":
                self.next()
                packed = True
                close = "}"
            items = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", items)
        raise SyntaxError("value %s %s in %s" % (k, v, self.t))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))


class Function:
    __slots__ = ("name", "ret", "params", "body_lines", "blocks", "order", "mod", "info", "decl_comment")


class Block:
    __slots__ = ("name", "phis", "insts", "term", "succ")


class Module:
    def __init__(self, text, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.parse(text)

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                f = Function()
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f.body_lines = lines[i + 1 : j]
                f.mod = self
                f.blocks = None
                f.info = None
                f.decl_comment = lines[i - 1] if i else ""
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                f.name = m.group(1).strip('@"')
                f.ret = l[: m.start()]
                f.params = l[m.end() - 1 :]
                self.funcs[f.name] = f
                i = j
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = ', l)
                name = m.group(1)[1:].strip('"')
                self.globals[name] = l[m.end() :]
                ma = re.search(r"\balias\b.*ptr (@[-\w.$\"]+)", l)
                if ma:
                    self.aliases[name] = ma.group(1)[1:].strip('"')
            elif l.startswith("%"):
                m = re.match(r'(%"[^"]*"|%\S+) = type (.*)', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r'@"?([-\w.$]+)', l)
                self.decls.add(m.group(1))
            i += 1

    def named_type(self, v):
        t = self.types[v]
        if isinstance(t, str):
            t = ("opaque",) if t.startswith("opaque") else P(tokenize(t), self).type()
            self.types[v] = t
        return t

    # -------------------------------------------------------------- globals
    def global_init(self, name):
        """-> (type, value or None, constant?)"""
        l = self.globals[name]
        toks = tokenize(l.split(", comdat")[0])
        p = P(toks, self)
        const = False
        while True:
            k, v = p.peek()
            if v == "constant":
                const = True
                p.next()
                break
            if v == "global":
                p.next()
                break
            if v in ("addrspace", "thread_local"):
                p.next()
                if p.peek()[1] == "(":
                    p.skip_paren()
                continue
            p.next()
        ty = p.type()
        if p.eof() or p.peek()[1] == ",":
            return ty, None, const
        return ty, p.value(ty), const

    # -------------------------------------------------------------- functions
    def compile(self, f):
        if f.blocks is not None:
            return f
        # parameters
        p = P(tokenize(f.params), self)
        p.expect("(")
        params = []
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    p.expect(")")
                    break
                t = p.type()
                p.skip_attrs()
                nm = p.next()[1] if p.peek()[0] == "loc" else None
                params.append((t, nm))
                if p.accept(")"):
                    break
                p.expect(",")
        f.params = params
        # return type: last type token(s) before the name
        rt = f.ret
        rp = P(tokenize(rt.replace("define", "", 1)), self)
        while not rp.is_type():
            k, v = rp.next()
            if rp.peek()[1] == "(":
                rp.skip_paren()
            elif v == "align" and rp.peek()[0] == "int":
                rp.next()
        f.ret = rp.type()
        blocks = {}
        order = []
        cur = None
        lines = f.body_lines
        i = 0
        if not re.match(r'^("[^"]*"|[-\w.$]+):', lines[0]):
            cur = Block()
            cur.name = "%<entry>"
            cur.phis, cur.insts, cur.term, cur.succ = [], [], None, []
            blocks[cur.name] = cur
            order.append(cur.name)
        comment = None
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                nm = "%" + m.group(1)
                cur = Block()
                cur.name = nm
                cur.phis, cur.insts, cur.term, cur.succ = [], [], None, []
                blocks[nm] = cur
                order.append(nm)
                continue
            s = l.strip()
            if s.startswith(";"):
                comment = s
                continue
            if s.startswith("#dbg"):
                continue
            if s.startswith("switch"):
                while "]" not in s.split("[", 1)[-1]:
                    s += " " + lines[i].strip()
                    i += 1
            ins = self.inst(s, comment)
            comment = None
            if ins is None:
                continue
            if ins[0] == "phi":
                cur.phis.append(ins)
            elif ins[0] in ("br", "condbr", "switch", "ret", "unreachable"):
                cur.term = ins
                if ins[0] == "br":
                    cur.succ = [ins[1]]
                elif ins[0] == "condbr":
                    cur.succ = [ins[2], ins[3]]
                elif ins[0] == "switch":
                    cur.succ = [ins[2]] + [b for _, b in ins[3]]
            else:
                cur.insts.append(ins)
        f.blocks = blocks
        f.order = order
        f.body_lines = None
        return f

    def inst(self, s, comment):
        toks = tokenize(s)
        # cut trailing metadata
        for k, t in enumerate(toks):
            if t[0] == "meta" and k and toks[k - 1][1] == ",":
                toks = toks[: k - 1]
                break
        p = P(toks, self)
        dst = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            dst = p.next()[1]
            p.next()
        op = p.next()[1]
        if op in ("tail", "musttail", "notail"):
            op = p.next()[1]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg"):
            while p.peek()[0] == "id" and not p.is_type():
                p.next()
            t = p.type()
            a = p.value(t)
            if op == "fneg":
                return ("fneg", dst, t, a)
            p.expect(",")
            return ("fbin", dst, op, t, a, p.value(t))
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            while not p.is_type():
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return ("bin", dst, op, t, a, p.value(t))
        if op in ("icmp", "fcmp"):
            pred = p.next()[1]
            while not p.is_type():
                nxt = p.next()[1]
                if nxt not in ("nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast", "samesign"):
                    pass
                if pred in ("nnan", "ninf", "nsz", "samesign", "fast", "reassoc", "arcp", "contract", "afn"):
                    pred = nxt
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return (op, dst, pred, t, a, p.value(t))
        if op == "load":
            while not p.is_type():
                p.next()
            t = p.type()
            p.expect(",")
            a = p.tv()
            return ("load", dst, t, a[1])
        if op == "store":
            while not p.is_type():
                p.next()
            v = p.tv()
            p.expect(",")
            a = p.tv()
            return ("store", v[0], v[1], a[1])
        if op == "getelementptr":
            while not p.is_type():
                p.next()
            st = p.type()
            p.expect(",")
            b = p.tv()
            idx = []
            while p.accept(","):
                idx.append(p.tv())
            return ("gep", dst, st, b[1], idx)
        if op == "alloca":
            t = p.type()
            return ("alloca", dst, t)
        if op == "br":
            if p.peek()[1] == "label":
                p.next()
                return ("br", p.next()[1])
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1]
            p.expect(",")
            p.expect("label")
            return ("condbr", c, a, p.next()[1])
        if op == "switch":
            t, v = p.tv()
            p.expect(",")
            p.expect("label")
            d = p.next()[1]
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv[1], p.next()[1]))
            return ("switch", (t, v), d, cases)
        if op == "ret":
            t = p.type()
            if t == VOID:
                return ("ret", None, None)
            return ("ret", t, p.value(t))
        if op == "unreachable":
            return ("unreachable",)
        if op == "phi":
            while p.peek()[0] == "id" and not p.is_type():
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = p.next()[1]
                p.expect("]")
                inc[b] = v
                if not p.accept(","):
                    break
            return ("phi", dst, t, inc)
        if op == "select":
            while p.peek()[0] == "id" and not p.is_type():
                p.next()
            c = p.tv()
            p.expect(",")
            a = p.tv()
            p.expect(",")
            b = p.tv()
            return ("select", dst, c, a[0], a[1], b[1])
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "freeze"):
            while p.peek()[0] == "id" and not p.is_type():
                p.next()
            a = p.tv()
            t2 = None
            if op != "freeze":
                p.expect("to")
                t2 = p.type()
            return ("cast", dst, op, a[0], a[1], t2)
        if op == "extractvalue":
            a = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return ("extractvalue", dst, a[0], a[1], idx)
        if op == "insertvalue":
            a = p.tv()
            p.expect(",")
            b = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return ("insertvalue", dst, a[0], a[1], b[1], idx)
        if op == "call":
            # attributes and calling convention before return type
            while not p.is_type():
                k, v = p.next()
                if p.peek()[1] == "(":
                    p.skip_paren()
                elif v == "align" and p.peek()[0] == "int":
                    p.next()
            rt = p.type()
            if p.peek()[1] == "(":  # function type with varargs
                p.skip_paren()
            k, v = p.next()
            if k == "id" and v == "asm":
                return ("asm", dst, rt, s)
            callee = ("glob", v[1:].strip('"')) if k == "glob" else ("loc", v)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    if p.peek()[1] == "metadata":
                        # metadata operand: skip
                        while p.peek()[1] not in (",", ")"):
                            p.next()
                    else:
                        args.append(p.tv())
                    if p.accept(")"):
                        break
                    p.expect(",")
            return ("call", dst, rt, callee, args, comment)
        if op == "fence":
            return None
        if op in ("extractelement", "insertelement", "shufflevector"):
            return ("unsupported", dst, op, s)
        return ("unsupported", dst, op, s)
