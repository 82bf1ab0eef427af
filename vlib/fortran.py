"""F77-subset front end: the reference kernels (m4 output) are parsed on every
run and executed symbolically into the same phase form as the C++ kernels."""
import re
from fractions import Fraction
from .poly import Poly, padd, psub, pmul, pscale
from .ctx import Unsupported, Failed, GE, LE, LT, GT, EQ, NE
from . import fp, reals
from .fp import R
from .execir import ArrayDecl


class FSyntax(Exception):
    pass


TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[ed][+-]?\d+)?|\.\d+(?:[ed][+-]?\d+)?|\d+[ed][+-]?\d+)"
                 r"|(\d+)|(\.(?:eq|ne|lt|le|gt|ge|and|or|not|true|false)\.)|([a-z_]\w*)|(\*\*|==|/=|<=|>=|[-+*/(),=<>:]))")


def tokenize(s):
    out = []
    i = 0
    s = s.strip()
    # 1.eq. ambiguity: insert blanks around logical operators
    s = re.sub(r"\.\s*(eq|ne|lt|le|gt|ge|and|or|not)\s*\.", r" .\1. ", s)
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise FSyntax(f"cannot tokenize {s[i:]!r} in {s!r}")
        if m.group(1):
            out.append(("r", m.group(1)))
        elif m.group(2):
            out.append(("n", int(m.group(2))))
        elif m.group(3):
            out.append(("op", m.group(3)))
        elif m.group(4):
            out.append(("id", m.group(4)))
        else:
            out.append(("op", m.group(5)))
        i = m.end()
        while i < len(s) and s[i] == " ":
            i += 1
    return out


def statements(text):
    """logical lines, lower case"""
    cur = None
    for ln in text.split("\n"):
        if not ln.strip() or ln[0] in "cC*!":
            continue
        ln = ln.split("!")[0].rstrip()
        if not ln.strip():
            continue
        if len(ln) > 5 and ln[:5].strip() == "" and ln[5] not in " 0":
            if cur is None:
                raise FSyntax("continuation without statement")
            cur += " " + ln[6:]
        else:
            if cur is not None:
                yield cur.strip().lower()
            cur = ln
    if cur is not None:
        yield cur.strip().lower()


class EP:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise FSyntax(f"expected {v} got {x}")
        self.i += 1
        return x

    def expr(self):
        return self.lor()

    def lor(self):
        a = self.land()
        while self.peek()[1] == ".or.":
            self.take()
            a = ("or", a, self.land())
        return a

    def land(self):
        a = self.lnot()
        while self.peek()[1] == ".and.":
            self.take()
            a = ("and", a, self.lnot())
        return a

    def lnot(self):
        if self.peek()[1] == ".not.":
            self.take()
            return ("not", self.lnot())
        return self.rel()

    REL = {".eq.": "eq", ".ne.": "ne", ".lt.": "lt", ".le.": "le", ".gt.": "gt", ".ge.": "ge",
           "==": "eq", "/=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}

    def rel(self):
        a = self.add()
        if self.peek()[1] in self.REL and self.peek()[0] == "op":
            o = self.REL[self.take()[1]]
            return ("rel", o, a, self.add())
        return a

    def add(self):
        if self.peek() == ("op", "-"):
            self.take()
            a = ("neg", self.mul())
        elif self.peek() == ("op", "+"):
            self.take()
            a = self.mul()
        else:
            a = self.mul()
        while self.peek() in (("op", "+"), ("op", "-")):
            o = self.take()[1]
            a = (o, a, self.mul())
        return a

    def mul(self):
        a = self.pow()
        while self.peek() in (("op", "*"), ("op", "/")):
            o = self.take()[1]
            a = (o, a, self.pow())
        return a

    def pow(self):
        a = self.prim()
        if self.peek() == ("op", "**"):
            self.take()
            a = ("pow", a, self.pow())
        return a

    def prim(self):
        k, v = self.take()
        if k == "n":
            return ("int", v)
        if k == "r":
            s = v.replace("d", "e")
            return ("real", Fraction(s))
        if k == "op" and v in (".true.", ".false."):
            return ("log", v == ".true.")
        if k == "op" and v == "(":
            a = self.expr()
            self.take(")")
            return a
        if k == "op" and v == "-":
            return ("neg", self.prim())
        if k == "op" and v == "+":
            return self.prim()
        if k == "id":
            if self.peek() == ("op", "("):
                self.take()
                args = []
                while self.peek() != ("op", ")"):
                    a = self.expr()
                    if self.peek() == ("op", ":"):
                        self.take()
                        b = self.expr()
                        a = ("range", a, b)
                    args.append(a)
                    if self.peek() == ("op", ","):
                        self.take()
                self.take(")")
                return ("idx", v, tuple(args))
            return ("var", v)
        raise FSyntax(f"unexpected {k} {v}")


class Routine:
    def __init__(self, name, params):
        self.name = name
        self.params = params
        self.types = {}     # name -> ('i'|'r', dims or None)
        self.consts = {}
        self.body = []
        self.func = False
        self.file = None


def parse_file(text):
    out = {}
    cur = None
    stack = None
    for st in statements(text):
        m = re.match(r"(?:recursive\s+)?subroutine\s+(\w+)\s*\((.*)\)$", st)
        if m:
            cur = Routine(m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()])
            out[cur.name] = cur
            cur.file = out
            stack = [cur.body]
            kinds = []
            cur.err = None
            continue
        m = cur is None and re.match(r"(?:(integer|double\s+precision|real\*8)\s+)?function\s+(\w+)\s*\((.*)\)$", st)
        if m:
            cur = Routine(m.group(2), [x.strip() for x in m.group(3).split(",") if x.strip()])
            cur.func = True
            if m.group(1):
                cur.types[cur.name] = ("i" if m.group(1) == "integer" else "r", None)
            out[cur.name] = cur
            cur.file = out
            stack = [cur.body]
            kinds = []
            cur.err = None
            continue
        if cur is None:
            continue
        if re.match(r"end(\s*(subroutine|function)(\s+\w+)?)?$", st):
            if kinds and not cur.err:
                cur.err = "unclosed block"
            cur = None
            continue
        if cur.err:
            continue
        try:
            _stmt(cur, st, stack, kinds)
        except FSyntax as e:
            cur.err = str(e)
    return out


def _split_top(s):
    d = 0
    cur = ""
    out = []
    for c in s:
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [x.strip() for x in out]


def _stmt(r, st, stack, kinds):
    lab = None
    m = re.match(r"(\d+)\s*([a-z].*)$", st)
    if m:
        lab, st = m.groups()
        # the last statement of labelled loops
        inner = [k for k in kinds if isinstance(k, tuple) and k[1] == lab]
        if not inner:
            if st != "continue":
                raise FSyntax("label")
            return
        if st != "continue":
            _stmt(r, st, stack, kinds)
        while kinds and kinds[-1] == ("do", lab):
            kinds.pop()
            stack.pop()
        return
    m = re.match(r"(integer|double\s+precision|real\*8|logical)\s*(,[^:()]*(?:\([^()]*\)[^:()]*)?)?::\s*(.*)$", st)
    if m:
        for d in _split_top(m.group(3)):
            if "=" in d:
                a, b = d.split("=", 1)
                if "parameter" not in (m.group(2) or ""):
                    raise FSyntax("initialised variable")
                r.consts[a.strip()] = EP(tokenize(b)).expr()
            elif "dimension" in (m.group(2) or ""):
                raise FSyntax("dimension attribute")
            else:
                _stmt(r, m.group(1) + " " + d, stack, kinds)
        return
    m = re.match(r"(integer|double\s+precision|real\*8|logical)\s+(.*)$", st)
    if m and "=" not in st:
        ty = "i" if m.group(1) in ("integer", "logical") else "r"
        for d in _split_top(m.group(2)):
            mm = re.match(r"(\w+)\s*(?:\((.*)\))?$", d)
            if not mm:
                raise FSyntax("declaration " + d)
            dims = None
            if mm.group(2):
                dims = []
                for x in _split_top(mm.group(2)):
                    if ":" in x:
                        a, b = x.split(":")
                    else:
                        a, b = "1", x
                    if b.strip() == "*":
                        dims.append((EP(tokenize(a)).expr(), None))
                    else:
                        dims.append((EP(tokenize(a)).expr(), EP(tokenize(b)).expr()))
            r.types[mm.group(1)] = (ty, dims)
        return
    if st.startswith("implicit") or st.startswith("external") or st.startswith("save"):
        return
    m = re.match(r"parameter\s*\((.*)\)$", st)
    if m:
        for x in _split_top(m.group(1)):
            a, b = x.split("=")
            r.consts[a.strip()] = EP(tokenize(b)).expr()
        return
    if st in ("return", "continue"):
        if st == "return":
            stack[-1].append(("return",))
        return
    m = re.match(r"do\s+(\d+\s*,?\s+)?([a-z]\w*)\s*=\s*(.*)$", st)
    if m:
        lab = m.group(1) and re.match(r"\d+", m.group(1)).group(0)
        parts = _split_top(m.group(3))
        es = [EP(tokenize(x)).expr() for x in parts]
        body = []
        stack[-1].append(("do", m.group(2), es[0], es[1], es[2] if len(es) > 2 else ("int", 1), body))
        stack.append(body)
        kinds.append(("do", lab) if lab else "do")
        return
    m = re.match(r"select\s*case\s*\((.*)\)$", st)
    if m:
        body = []
        stack[-1].append(("select", EP(tokenize(m.group(1))).expr(), []))
        stack.append(body)      # nothing precedes the first case
        kinds.append("select")
        return
    m = re.match(r"case\s*(?:\((.*)\)|default)$", st)
    if m and kinds and kinds[-1] == "select":
        stack.pop()
        sel = stack[-1][-1]
        alts = None
        if m.group(1) is not None:
            alts = []
            for x in _split_top(m.group(1)):
                if ":" in x:
                    lo, hi = x.split(":")
                    alts.append(("range", EP(tokenize(lo)).expr() if lo.strip() else None,
                                 EP(tokenize(hi)).expr() if hi.strip() else None))
                else:
                    alts.append(EP(tokenize(x)).expr())
        body = []
        sel[2].append((alts, body))
        stack.append(body)
        return
    if re.match(r"end\s*select$", st):
        if not kinds or kinds.pop() != "select":
            raise FSyntax("end select")
        stack.pop()
        return
    m = re.match(r"call\s+(\w+)\s*(\(.*\))?$", st)
    if m:
        e = EP(tokenize(m.group(1) + (m.group(2) or "()")))
        stack[-1].append(("call", e.prim()))
        return
    if st == "cycle":
        stack[-1].append(("cycle",))
        return
    if re.match(r"end\s*do$", st):
        if not kinds or kinds.pop() != "do":
            raise FSyntax("enddo")
        stack.pop()
        return
    m = re.match(r"(else\s*)?if\s*\(", st)
    if m:
        # matching paren
        d = 0
        for j in range(m.end() - 1, len(st)):
            if st[j] == "(":
                d += 1
            elif st[j] == ")":
                d -= 1
                if d == 0:
                    break
        cond = EP(tokenize(st[m.end():j])).expr()
        rest = st[j + 1:].strip()
        if m.group(1):
            if rest != "then":
                raise FSyntax("else if")
            body = []
            stack.pop()
            stack[-1][-1][1].append((cond, body))
            stack.append(body)
            return
        if rest == "then":
            body = []
            stack[-1].append(("if", [(cond, body)]))
            stack.append(body)
            kinds.append("if")
            return
        body = []
        stack[-1].append(("if", [(cond, body)]))
        _stmt(r, rest, [body], [])
        return
    if st == "else":
        body = []
        stack.pop()
        stack[-1][-1][1].append((None, body))
        stack.append(body)
        return
    if re.match(r"end\s*if$", st):
        if not kinds or kinds.pop() != "if":
            raise FSyntax("endif")
        stack.pop()
        return
    m = re.match(r"(\w+)\s*(\(.*?\))?\s*=", st)
    if m:
        p = EP(tokenize(st))
        lhs = p.prim()
        p.take("=")
        rhs = p.expr()
        if p.i != len(p.t):
            raise FSyntax("trailing tokens in " + st)
        stack[-1].append(("=", lhs, rhs))
        return
    if re.match(r"write\s*\(", st) or re.match(r"print\s", st):
        stack[-1].append(("nop", "diagnostic output"))
        return
    raise FSyntax("statement " + st)


class _Return(Exception):
    pass


class _Cycle(Exception):
    pass


UNKNOWN = object()      # a scalar whose value the loop rule does not track


class FExec:
    """execute a routine with bound arguments.

    args: list aligned with routine.params; each is an int/Poly (integer
    scalar), R (real scalar), a list of ints (integer array) or an ArrayDecl
    name (str)."""

    def __init__(self, routine, machine, args, shapes=True):
        self.r = routine
        self.m = machine
        self.ctx = machine.ctx
        if routine.err:
            raise Unsupported(f"Fortran routine {routine.name}: {routine.err}")
        self.env = {}
        self.local = {}
        self.loopset = set()
        self.depth = 0
        self.unrolled = 0
        self.loops = 0       # symbolic loops of this routine around the statement
        for p, a in zip(routine.params, args):
            self.env[p] = a

    # declared shape of an array parameter: [(lo, extent)]
    def shape(self, name):
        ty, dims = self.r.types[name]
        out = []
        for lo, hi in dims:
            l = self.ev(lo)
            if hi is None:
                out.append((l, None))
            else:
                out.append((l, padd(psub(self.ev(hi), l), 1)))
        return out

    def run(self):
        try:
            self.block(self.r.body)
        except _Return:
            pass

    def block(self, body):
        for s in body:
            self.stmt(s)

    def cond(self, e):
        k = e[0]
        if k == "and":
            return self.cond(e[1]) and self.cond(e[2])
        if k == "or":
            return self.cond(e[1]) or self.cond(e[2])
        if k == "not":
            return not self.cond(e[1])
        if k == "log":
            return e[1]
        if k == "rel":
            a = self.ev(e[2])
            b = self.ev(e[3])
            if isinstance(a, R) or isinstance(b, R):
                return self.realcond(e[1], self.real(a), self.real(b))
            at = {"eq": EQ, "ne": NE, "lt": LT, "le": LE, "gt": GT, "ge": GE}[e[1]](a, b)
            return self.ctx.decide(at)
        raise Unsupported("condition " + repr(e))

    def realcond(self, op, a, b):
        """both outcomes are explored (see reals.py)"""
        o, want, a, b = {"eq": ("eq", 1, a, b), "ne": ("eq", 0, a, b), "lt": ("lt", 1, a, b), "ge": ("lt", 0, a, b),
                         "le": ("le", 1, a, b), "gt": ("le", 0, a, b)}[op]
        if self.ctx.dec is None:
            raise Unsupported("real comparison")
        k = reals.key(self.ctx, o, self.m._nnode(a), self.m._nnode(b), self.m)
        if not isinstance(k, bool):
            self.ctx.fpbranch = True
            k = self.ctx.decide(GE(k))
        return k == bool(want)

    def stmt(self, s):
        k = s[0]
        if k == "=":
            v = self.ev(s[2])
            lhs = s[1]
            if lhs[0] == "var":
                ty = self.r.types.get(lhs[1], (None, None))[0]
                if ty == "r" and not isinstance(v, R):
                    v = fp.intval(self.ctx.norm(v))
                self.env[lhs[1]] = v
            else:
                self.assign(lhs[1], [self.ev(x) for x in lhs[2]], v)
        elif k == "if":
            for c, body in s[1]:
                if c is None or self.cond(c):
                    self.block(body)
                    break
        elif k == "do":
            self.do(s)
        elif k == "select":
            v = self.ev(s[1])
            dflt = None
            for alts, body in s[2]:
                if alts is None:
                    dflt = body
                    continue
                if any(self.matches(v, a) for a in alts):
                    self.block(body)
                    return
            if dflt is not None:
                self.block(dflt)
        elif k == "call":
            self.invoke(s[1][1], s[1][2])
        elif k == "nop":
            pass
        elif k == "cycle":
            if self.m.cur is None and not self.unrolled:
                raise Unsupported("cycle outside a loop")
            raise _Cycle()
        elif k == "return":
            if self.loops:
                raise Unsupported("return inside loop")
            raise _Return()
        else:
            raise Unsupported("statement " + k)

    def matches(self, v, a):
        if isinstance(v, R):
            raise Unsupported("select on a real")
        if a[0] == "range":
            if a[1] is not None and not self.ctx.decide(GE(v, self.ev(a[1]))):
                return False
            return a[2] is None or self.ctx.decide(LE(v, self.ev(a[2])))
        return self.ctx.decide(EQ(v, self.ev(a)))

    def invoke(self, name, args):
        """inlined call of a routine of the same file"""
        r = self.r.file.get(name) if self.r.file else None
        if r is None or len(r.params) != len(args):
            raise Unsupported("call of " + name)
        if self.depth > 5:
            raise Unsupported("recursion")
        vals = []
        back = []
        for p, a in zip(r.params, args):
            if a[0] == "var" and isinstance(self.env.get(a[1]), (str, list)):
                vals.append(self.env[a[1]])
            elif a[0] == "idx" and (isinstance(self.env.get(a[1]), str)) and r.types.get(p, (None, None))[1] is not None:
                raise Unsupported("array section as argument")
            elif a[0] == "var" and (a[1] not in self.env or self.env[a[1]] is UNKNOWN):
                vals.append(UNKNOWN if a[1] in self.env else None)
                back.append((p, a[1]))
            else:
                vals.append(self.ev(a))
                if a[0] == "var":
                    back.append((p, a[1]))
                elif a[0] == "idx":
                    back.append((p, (a[1], [self.ev(x) for x in a[2]], vals[-1])))
        f = self.child(r, vals)
        f.depth = self.depth + 1
        for p, v in zip(r.params, vals):
            if v is None:
                del f.env[p]
            elif isinstance(v, R) != (r.types.get(p, ("r" if p[0] not in "ijklmn" else "i",))[0] == "r") and not isinstance(v, (str, list)) and v is not UNKNOWN:
                raise Unsupported("argument type")
            elif isinstance(v, str):
                # the callee must declare the same shape
                if r.types.get(p, (None, None))[1] is None:
                    raise Unsupported("array argument")
                self.check_argument(f, p, v)
        asg = _scalars(r.body, self.r.file)
        try:
            f.block(r.body)
        except _Return:
            pass
        for p, a in back:
            if p in asg:
                if isinstance(a, tuple):
                    # an element, returned by the call: no other argument may be that element
                    for q, x in zip(r.params, args):
                        if q != p and x[0] in ("var", "idx") and self.env.get(x[1]) == self.env.get(a[0]) and not (
                                x[0] == "idx" and q not in asg and any(self.ctx.prove(NE(self.ev(y), z)) for y, z in zip(x[2], a[1]))):
                            raise Unsupported("array element changed by a call with the array")
                    if f.env.get(p) is not a[2]:
                        self.assign(a[0], a[1], f.env[p])
                elif p in f.env:
                    self.env[a] = f.env[p]
        return f.env

    def child(self, r, vals):
        return FExec(r, self.m, vals)

    def check_argument(self, f, p, v):
        sh = f.shape(p)
        dims = self.m.arrays[v].dims
        if len(sh) != len(dims):
            raise Unsupported("array shape at call")
        for i, ((l, e), (L, E)) in enumerate(zip(sh, dims)):
            if not self.ctx.prove(EQ(l, L)) or (e is not None and not self.ctx.prove(EQ(e, E))) or (e is None and i < len(sh) - 1):
                raise Unsupported("array shape at call")

    def do(self, s):
        _, var, lo, hi, step, body = s
        lo = self.ctx.norm(self.ev(lo))
        hi = self.ctx.norm(self.ev(hi))
        step = self.ctx.norm(self.ev(step))
        if not isinstance(step, int) and step != 1:
            raise Unsupported("loop step")
        if isinstance(lo, int) and isinstance(hi, int) and abs(hi - lo) < 12:
            for v in range(lo, hi + (1 if step > 0 else -1), step):
                self.env[var] = v
                self.unrolled += 1
                try:
                    self.block(body)
                except _Cycle:
                    pass
                finally:
                    self.unrolled -= 1
            self.env[var] = UNKNOWN
            return
        if step == 0:
            raise Unsupported("loop step")
        if step == -1:
            # the order of the iterations does not matter (checked: the loop
            # rule requires independent iterations)
            lo, hi, step = hi, lo, 1
        if not self.ctx.decide(LE(lo, hi) if step > 0 else LE(hi, lo)):
            return
        if step != 1:
            first = lo
            n = self.ctx.divmod_floor(psub(hi, lo) if step > 0 else psub(lo, hi), abs(step))[0]

        assigned = {a for a in _scalars(body, self.r.file) if not isinstance(self.env.get(a), (str, list))} | self._arrays(body)
        self.loopset |= _targets(body, file=self.r.file)

        def run():
            saved = dict(self.env)
            self.loops += 1
            try:
                if step == 1:
                    v = self.m.itervar(lo, padd(hi, 1))
                else:
                    v = padd(first, pscale(self.m.itervar(0, padd(n, 1)), step))
                self.env[var] = v
                if sum(1 for x in body if x[0] == "do") > 1 or \
                        any(x[0] == "do" for x in body) and body[-1][0] != "do":
                    raise Unsupported("imperfect loop nest")
                for a in assigned:
                    self.env[a] = UNKNOWN   # must be defined within the iteration
                try:
                    self.block(body)
                except _Cycle:
                    pass
            finally:
                # values that leave the loop are not tracked
                self.loops -= 1
                self.env = dict(saved)
                for a in assigned | {var}:
                    self.env[a] = UNKNOWN
        if self.m.cur is not None:
            run()
        else:
            self.m.region(run, "do " + var)

    def _arrays(self, body):
        """elements of local arrays assigned somewhere in the body"""
        out = set()
        names = _targets(body, file=self.r.file)
        for k in self.env:
            if isinstance(k, tuple) and k[0] in names:
                out.add(k)
        return out

    def assign(self, name, subs, v):
        a = self.env.get(name)
        ty, dims = self.r.types.get(name, (None, None))
        if ty == "r" and not isinstance(v, R):
            v = fp.intval(self.ctx.norm(v))
        if isinstance(a, str):
            arr = self.m.arrays[a]
            cs = self.m.check_coords(arr, subs)
            self.m.write(arr, cs, v)
            return
        if dims is not None and all(isinstance(self.ctx.norm(x), int) for x in subs):
            self.env[(name,) + tuple(self.ctx.norm(x) for x in subs)] = v
            return
        raise Unsupported("assignment to " + name)

    def ev(self, e):
        k = e[0]
        if k == "int":
            return e[1]
        if k == "real":
            return fp.const(e[1])
        if k == "var":
            if e[1] in self.env:
                v = self.env[e[1]]
                if v is UNKNOWN:
                    raise Unsupported(f"{e[1]} carries a value between loop iterations or out of a loop")
                if isinstance(v, (list, str)):
                    raise Unsupported("array as value")
                return v
            if e[1] in self.r.consts:
                return self.ev(self.r.consts[e[1]])
            raise Failed("reference-defined", f"{self.r.name}: use of undefined variable {e[1]}")
        if k == "idx":
            return self.index(e[1], e[2])
        if k == "neg":
            v = self.ev(e[1])
            return fp.neg(v) if isinstance(v, R) else pscale(v, -1)
        if k in "+-*/":
            a = self.ev(e[1])
            b = self.ev(e[2])
            if isinstance(a, R) or isinstance(b, R):
                a = self.real(a)
                b = self.real(b)
                return {"+": fp.add, "-": fp.sub, "*": fp.mul, "/": fp.div}[k](a, b)
            if k == "+":
                return padd(a, b)
            if k == "-":
                return psub(a, b)
            if k == "*":
                return pmul(a, b)
            return self.ctx.sdiv(a, b)[0]
        if k == "pow":
            a = self.ev(e[1])
            b = self.ev(e[2])
            if not isinstance(b, int) or b < 0:
                raise Unsupported("power")
            r = fp.ONE if isinstance(a, R) else 1
            for _ in range(b):
                r = fp.mul(r, a) if isinstance(a, R) else pmul(r, a)
            return r
        raise Unsupported("expression " + repr(e))

    def real(self, v):
        return v if isinstance(v, R) else fp.intval(self.ctx.norm(v))

    def index(self, name, subs):
        a = self.env.get(name)
        fr = self.r.file.get(name) if self.r.file else None
        if a is None and fr is not None and fr.func:
            env = self.invoke(name, subs)
            v = env.get(name)
            if v is None or v is UNKNOWN:
                raise Unsupported("function without a value")
            return self.real(v) if self.r.file[name].types.get(name, ("r",))[0] == "r" else v
        if a is None and name not in self.r.types:
            args = [self.ev(x) for x in subs]
            return self.fcall(name, args)
        subs = [self.ev(x) for x in subs]
        if isinstance(a, str):
            arr = self.m.arrays[a]
            cs = self.m.check_coords(arr, subs)
            return self.m.read(arr, cs)
        if isinstance(a, list):
            lo = self.shape(name)[0][0]
            i = psub(self.ctx.norm(subs[0]), lo)
            if not isinstance(i, int) or not 0 <= i < len(a):
                raise Unsupported("integer array index")
            return a[i]
        key = (name,) + tuple(self.ctx.norm(x) for x in subs)
        if key in self.env:
            if self.env[key] is UNKNOWN:
                raise Unsupported(f"{name} carries a value between loop iterations or out of a loop")
            return self.env[key]
        if name in self.loopset:
            raise Unsupported(f"{name} carries a value between loop iterations or out of a loop")
        if name in self.r.types:
            raise Failed("reference-defined", f"{self.r.name}: use of undefined {key}")
        return self.fcall(name, subs)

    def fcall(self, name, args):
        if name in ("max", "min", "max0", "min0"):
            if any(isinstance(x, R) for x in args):
                raise Unsupported("real max")
            r = args[0]
            for x in args[1:]:
                r = self.ctx.maxmin(name[:3], r, x)
            return r
        if name == "modulo":
            return self.ctx.divmod_floor(args[0], args[1])[1]
        if name == "mod":
            return self.ctx.sdiv(args[0], args[1])[1]
        if name in ("abs", "iabs") and not isinstance(args[0], R):
            v = args[0]
            return v if self.ctx.decide(GE(v)) else pscale(v, -1)
        if name in ("dble", "real", "float", "dfloat"):
            return self.real(args[0])
        raise Unsupported("function " + name)


def _targets(body, kind="idx", file=None, depth=0):
    out = set()
    for s in body:
        if s[0] == "=" and s[1][0] == kind:
            out.add(s[1][1])
        elif s[0] == "if":
            for _, b in s[1]:
                out |= _targets(b, kind, file, depth)
        elif s[0] == "select":
            for _, b in s[2]:
                out |= _targets(b, kind, file, depth)
        elif s[0] == "do":
            out |= _targets(s[5], kind, file, depth)
            if kind == "var":
                out.add(s[1])
        elif s[0] == "call":
            r = file.get(s[1][1]) if file else None
            asg = None
            if r is not None and depth < 6:
                asg = _targets(r.body, "var", file, depth + 1) | _targets(r.body, "idx", file, depth + 1)
            for n, a in enumerate(s[1][2]):
                if asg is not None and n < len(r.params) and r.params[n] not in asg:
                    continue
                if a[0] == kind or kind == "idx" and a[0] == "var":
                    out.add(a[1])
    return out


def _scalars(body, file=None):
    return _targets(body, "var", file)
