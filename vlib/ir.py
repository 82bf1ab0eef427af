"""Reader for textual LLVM IR (the subset clang 18 emits for this project).

Functions are split out textually and parsed on first use.
"""
import re
from fractions import Fraction
import struct as _struct

TOK = re.compile(r'%"[^"]*"|%[-\w.$]+|@"[^"]*"|@[-\w.$]+|c"(?:[^"])*"|"[^"]*"|\.\.\.|#\d+|![\w.]*|-?\d+\.\d+(?:e[+-]?\d+)?|-?0x[0-9A-Fa-f]+|[-\w.$]+|[(){}\[\]<>,=*:]')


class IRError(Exception):
    pass


# ---- types -----------------------------------------------------------------
# ('i',bits) ('f',bits) ('p',) ('a',n,ty) ('s',name) ('l',[ty],packed) ('v',)
PTR = ("p",)
VOID = ("v",)


class Glob:
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name = name
        self.off = off

    def __repr__(self):
        return f"@{self.name}+{self.off}"


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class _Null:
    def __repr__(self):
        return "null"


NULL = _Null()


class _Zero:
    def __repr__(self):
        return "zeroinit"


ZEROINIT = _Zero()


class FConst:
    __slots__ = ("v", "bits")

    def __init__(self, v, bits):
        self.v = v
        self.bits = bits

    def __repr__(self):
        return f"{self.v}"


class Func:
    def __init__(self, mod, name, text):
        self.mod = mod
        self.name = name
        self.text = text
        self._parsed = False

    def parse(self):
        if not self._parsed:
            _parse_func(self)
            self._parsed = True
        return self


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self._layout = {}
        self._size = {}
        self._read(open(path).read())

    def _read(self, txt):
        pos = 0
        for m in re.finditer(r"^define [^\n]*\{\n(?:.*\n)*?\}\n", txt, re.M):
            body = m.group(0)
            head = body[: body.index("\n")]
            nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head).group(1).strip('"')
            self.funcs[nm] = Func(self, nm, body)
        for line in txt.split("\n"):
            if line.startswith("%") and " = type " in line:
                n, t = line.split(" = type ", 1)
                self.structs[n.strip()] = t
            elif line.startswith("@"):
                n, t = line.split(" = ", 1)
                n = n[1:].strip('"')
                if " alias " in " " + t:
                    self.aliases[n] = re.findall(r'@("[^"]*"|[-\w.$]+)', t)[-1].strip('"')
                else:
                    self.globals[n] = t
            elif line.startswith("declare"):
                mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                self.decls.add(mm.group(1).strip('"'))

    # layout ---------------------------------------------------------------
    def struct_def(self, name):
        d = self.structs[name]
        if isinstance(d, str):
            if d.startswith("opaque"):
                raise IRError("opaque struct " + name)
            p = P(d)
            d = p.type()
            self.structs[name] = d
        return d

    def size_align(self, t):
        r = self._size.get(t if t[0] != "l" else None)
        if r is not None:
            return r
        k = t[0]
        if k == "i":
            n = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t[1]]
            r = (n, n)
        elif k == "f":
            r = (t[1] // 8, t[1] // 8)
        elif k == "p":
            r = (8, 8)
        elif k == "a":
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == "vec":
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k in ("s", "l"):
            offs, size, al = self.layout(t)
            r = (size, al)
        else:
            raise IRError(f"size of {t}")
        if k != "l":
            self._size[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def layout(self, t):
        key = t if t[0] == "s" else None
        if key in self._layout and key:
            return self._layout[key]
        d = self.struct_def(t[1]) if t[0] == "s" else t
        if d[0] != "l":
            raise IRError(f"bad struct {t} {d}")
        off = 0
        al = 1
        offs = []
        for f in d[1]:
            s, a = self.size_align(f)
            if d[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        size = (off + al - 1) // al * al
        r = (offs, size, al)
        if key:
            self._layout[key] = r
        return r

    def fields(self, t):
        d = self.struct_def(t[1]) if t[0] == "s" else t
        return d[1]


_ATTR = {
    "noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly",
    "readnone", "writeonly", "returned", "immarg", "inreg", "inbounds", "nsw", "nuw",
    "exact", "volatile", "tail", "musttail", "notail", "fast", "nnan", "ninf", "nsz",
    "arcp", "contract", "afn", "reassoc", "dso_local", "local_unnamed_addr",
    "unnamed_addr", "disjoint", "nneg", "noundef", "allocptr", "hidden", "dead_on_unwind", "writable", "nest", "nofree", "noreturn", "allocalign", "swiftself",
}


class P:
    """token cursor"""

    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError(f"expected {x} at {self.t[self.i-2:self.i+5]} in {' '.join(self.t)[:300]}")

    def attrs(self):
        """skip parameter/return attributes; returns dict of interesting ones"""
        out = {}
        while True:
            p = self.peek()
            if p is None:
                break
            if p in _ATTR:
                self.i += 1
            elif p == "align" or p == "addrspace":
                self.i += 1
                if self.eat("("):
                    self.next()
                    self.expect(")")
                else:
                    self.next()
            elif p in ("dereferenceable", "dereferenceable_or_null", "range", "nofpclass", "memory", "captures", "allocsize", "initializes"):
                self.i += 1
                self.skip_paren()
            elif p in ("sret", "byval", "elementtype"):
                self.i += 1
                self.expect("(")
                t = self.type()
                self.expect(")")
                out[p] = t
            else:
                break
        return out

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "double":
            t = ("f", 64)
        elif x == "float":
            t = ("f", 32)
        elif x == "x86_fp80":
            t = ("f", 80)
        elif x in ("label", "metadata", "token"):
            t = (x,)
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x.startswith("%"):
            t = ("s", x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("a", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = ("l", self._fields(), True)
                self.expect(">")
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x == "{":
            t = ("l", self._fields(), False)
        else:
            raise IRError(f"type? {x} in {' '.join(self.t)[:200]}")
        if self.peek() == "addrspace":
            self.next(); self.skip_paren()
        return t

    def _fields(self):
        fs = []
        if self.eat("}"):
            return tuple(fs)
        while True:
            fs.append(self.type())
            if self.eat("}"):
                return tuple(fs)
            self.expect(",")

    def value(self, ty, mod):
        x = self.next()
        if x.startswith("%"):
            return x
        if x.startswith("@"):
            return Glob(x[1:].strip('"'))
        if x in ("undef", "poison"):
            return UNDEF
        if x == "null":
            return NULL
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x == "zeroinitializer":
            return ZEROINIT
        if x == "none":
            return UNDEF
        if ty[0] == "i":
            return int(x)
        if ty[0] == "f":
            return FConst(parse_float(x, ty[1]), ty[1])
        if x == "getelementptr":
            self.attrs()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            b = self.value(PTR, mod)
            idx = []
            while self.eat(","):
                self.attrs()
                it = self.type()
                idx.append(self.value(it, mod))
            self.expect(")")
            off = const_gep(mod, bt, idx)
            return Glob(b.name, b.off + off)
        if x == "[" or x == "{" or (x == "<"):
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                close = "}"
            vals = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    vals.append((t, self.value(t, mod)))
                    if self.eat(close):
                        break
                    self.expect(",")
            if x == "<" and close == "}":
                self.expect(">")
            return ("agg", vals)
        if x.startswith('c"'):
            return ("str", x[2:-1])
        if x in ("inttoptr", "bitcast", "addrspacecast"):
            self.expect("(")
            t = self.type()
            v = self.value(t, mod)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        raise IRError(f"value? {x} type {ty} in {' '.join(self.t)[:200]}")

    def tval(self, mod):
        t = self.type()
        a = self.attrs()
        return t, self.value(t, mod)


def const_gep(mod, bt, idx):
    off = mod.size(bt) * idx[0]
    t = bt
    for i in idx[1:]:
        if t[0] == "a":
            off += mod.size(t[2]) * i
            t = t[2]
        else:
            off += mod.layout(t)[0][i]
            t = mod.fields(t)[i]
    return off


def parse_float(x, bits):
    if x.startswith("0x"):
        h = x[2:]
        if h[0] in "KLMHR":
            raise IRError("fp format " + x)
        return _struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
    return float(x)


_CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi",
          "fptoui", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}
_BIN = {"add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "and", "or", "xor", "shl",
        "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}


def _parse_func(f):
    lines = f.text.split("\n")
    head = lines[0]
    mod = f.mod
    p = P(head[: head.rindex("{")])
    p.next()  # define
    while True:
        x = p.peek()
        if x in ("internal", "linkonce_odr", "linkonce", "weak", "weak_odr", "private",
                 "available_externally", "dso_local", "noundef", "hidden", "protected",
                 "external"):
            p.next()
        else:
            break
    p.attrs()
    f.ret = p.type()
    x = p.next()
    if not x.startswith("@"):
        raise IRError("fn head " + head[:200])
    p.expect("(")
    f.params = []
    f.variadic = False
    if not p.eat(")"):
        while True:
            if p.eat("..."):
                f.variadic = True
                p.expect(")")
                break
            t = p.type()
            a = p.attrs()
            n = p.next()
            f.params.append((t, n, a))
            if p.eat(")"):
                break
            p.expect(",")
    blocks = {}
    cur = None
    curname = None
    order = []
    i = 1
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if ln == "}" or not ln.strip():
            continue
        if ln[0] != " ":
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if not m:
                raise IRError("label? " + ln)
            curname = "%" + m.group(1)
            cur = []
            blocks[curname] = cur
            order.append(curname)
            continue
        if cur is None:
            curname = "%entry?"
            cur = []
            blocks[curname] = cur
            order.append(curname)
        s = ln.strip()
        if s.startswith("switch"):
            while "]" not in s:
                s += " " + lines[i].strip()
                i += 1
        elif " invoke " in " " + s or s.startswith("invoke"):
            s += " " + lines[i].strip()
            i += 1
        elif "landingpad" in s:
            while i < n and re.match(r"^\s+(catch|cleanup|filter)", lines[i]):
                i += 1
        k = s.find(", !")
        if k >= 0:
            s = s[:k]
        cur.append(s)
    f.blocks = {}
    f.raw = blocks
    f.entry = order[0]
    f.order = order
    for bn in order:
        f.blocks[bn] = [parse_inst(mod, s) for s in blocks[bn]]


def parse_inst(mod, s):
    p = P(s)
    dst = None
    x = p.next()
    if x.startswith("%"):
        dst = x
        p.expect("=")
        x = p.next()
    if x in ("tail", "musttail", "notail"):
        x = p.next()
    op = x
    if op == "alloca":
        t = p.type()
        cnt = 1
        if p.eat(","):
            if p.peek() != "align":
                ct = p.type()
                cnt = p.value(ct, mod)
        return ("alloca", dst, t, cnt)
    if op == "load":
        p.attrs()
        t = p.type()
        p.expect(",")
        _, v = p.tval(mod)
        return ("load", dst, t, v, mod.size(t))
    if op == "store":
        p.attrs()
        t, v = p.tval(mod)
        p.expect(",")
        _, q = p.tval(mod)
        return ("store", None, t, v, q, mod.size(t))
    if op == "getelementptr":
        p.attrs()
        bt = p.type()
        p.expect(",")
        _, b = p.tval(mod)
        idx = []
        while p.eat(","):
            p.attrs()
            t = p.type()
            idx.append(p.value(t, mod))
        # precompute
        off = 0
        dyn = []
        t = bt
        for k, ix in enumerate(idx):
            if k == 0:
                sz = mod.size(bt)
            elif t[0] == "a":
                sz = mod.size(t[2])
                t = t[2]
            elif t[0] == "vec":
                sz = mod.size(t[2])
                t = t[2]
            else:
                off += mod.layout(t)[0][ix]
                t = mod.fields(t)[ix]
                continue
            if isinstance(ix, int):
                off += sz * ix
            else:
                dyn.append((ix, sz))
        return ("gep", dst, b, off, tuple(dyn))
    if op in ("call", "invoke"):
        while p.peek() in _ATTR or p.peek() in ("fastcc", "ccc"):
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == "(":  # function type for variadic
            p.skip_paren()
        cal = p.next()
        if cal.startswith("@"):
            callee = cal[1:].strip('"')
        elif cal.startswith("%"):
            callee = ("r", cal)
        elif cal == "asm":
            return ("asm", dst, s)
        else:
            raise IRError("callee? " + s[:300])
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                t = p.type()
                a = p.attrs()
                if t[0] == "metadata":
                    # skip
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        y = p.next()
                        if y in "([{<":
                            d += 1
                        if y in ")]}>":
                            d -= 1
                    args.append((t, None, a))
                else:
                    args.append((t, p.value(t, mod), a))
                if p.eat(")"):
                    break
                p.expect(",")
        to = None
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.expect("label")
            to = p.next()
        return ("call", dst, rt, callee, args, to)
    if op == "ret":
        t = p.type()
        if t == VOID:
            return ("ret", None, None)
        return ("ret", None, p.value(t, mod))
    if op == "br":
        t = p.type()
        if t[0] == "label":
            return ("br", None, p.next())
        c = p.value(t, mod)
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        return ("cbr", None, c, a, b)
    if op == "switch":
        t, v = p.tval(mod)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        cases = []
        while not p.eat("]"):
            t2, k = p.tval(mod)
            p.expect(",")
            p.expect("label")
            cases.append((k, p.next()))
        return ("switch", None, v, d, cases)
    if op == "phi":
        p.attrs()
        t = p.type()
        inc = {}
        while True:
            p.expect("[")
            v = p.value(t, mod)
            p.expect(",")
            l = p.next()
            p.expect("]")
            inc[l] = v
            if not p.eat(","):
                break
        return ("phi", dst, inc, t)
    if op in _CASTS:
        p.attrs()
        t, v = p.tval(mod)
        p.expect("to")
        t2 = p.type()
        return ("cast", dst, op, t, v, t2)
    if op in _BIN:
        p.attrs()
        t = p.type()
        a = p.value(t, mod)
        p.expect(",")
        b = p.value(t, mod)
        return ("bin", dst, op, t, a, b)
    if op == "fneg":
        p.attrs()
        t, a = p.tval(mod)
        return ("fneg", dst, t, a)
    if op == "icmp":
        p.attrs()
        pr = p.next()
        t = p.type()
        a = p.value(t, mod)
        p.expect(",")
        b = p.value(t, mod)
        return ("icmp", dst, pr, t, a, b)
    if op == "fcmp":
        p.attrs()
        pr = p.next()
        t = p.type()
        a = p.value(t, mod)
        p.expect(",")
        b = p.value(t, mod)
        return ("fcmp", dst, pr, t, a, b)
    if op == "select":
        p.attrs()
        t0, c = p.tval(mod)
        p.expect(",")
        t1, a = p.tval(mod)
        p.expect(",")
        t2, b = p.tval(mod)
        return ("select", dst, c, a, b)
    if op == "extractvalue":
        t, v = p.tval(mod)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return ("extractvalue", dst, v, tuple(idx))
    if op == "insertvalue":
        t, v = p.tval(mod)
        p.expect(",")
        t2, w = p.tval(mod)
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        return ("insertvalue", dst, t, v, w, tuple(idx))
    if op == "unreachable":
        return ("unreachable", None)
    if op in ("landingpad", "resume", "extractelement", "insertelement", "shufflevector",
              "fence", "cmpxchg", "atomicrmw", "freeze"):
        return ("unsupported", dst, s)
    raise IRError("instruction? " + s[:300])
