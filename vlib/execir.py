"""Symbolic execution of the LLVM IR extracted from /repo.

Produces, for one entry point, the list of parallel phases it performs on
the declared data arrays (or, for pure functions, the final memory).
"""
from .poly import (Poly, V, mk, padd, psub, pscale, pmul, pvars, psubst, pstr, var_name, pexactdiv, peval)
from .ctx import (Ctx, Unsupported, Failed, Infeasible, GE, LE, LT, GT, EQ, NE, neg, astr, avars)
from .ir import (Module, Glob, UNDEF, NULL, ZEROINIT, FConst, Func, IRError, PTR)
from . import fp, reals
from .fp import R
import re
import sys

sys.setrecursionlimit(20000)


class Obj:
    __slots__ = ("kind", "name", "cells", "info", "size", "owner")
    _n = 0

    def __init__(self, kind, name, info=None, size=None):
        self.kind = kind      # 'mem' | 'array' | 'iarray' | 'func'
        self.name = name
        self.cells = {}       # off -> (size, value)
        self.info = info
        self.size = size

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"


class Packed:
    """value wider than one scalar: list of (off, size, val)"""
    __slots__ = ("size", "parts")

    def __init__(self, size, parts):
        self.size = size
        self.parts = parts


class Shifted:
    __slots__ = ("v", "bits")

    def __init__(self, v, bits):
        self.v = v
        self.bits = bits


class ZeroFill:
    pass


I32 = ("i", 32)
ZF = ZeroFill()
NULLP = Ptr(None, 0)


class ArrayDecl:
    """data array in Fortran layout: dims fastest first, each (lo, extent)"""

    def __init__(self, name, dims, esize=8, writable=True, kind="f"):
        self.name = name
        self.dims = dims
        self.esize = esize
        self.writable = writable
        self.kind = kind

    def coords_ok_text(self):
        return "(" + ",".join(f"{pstr(l)}:+{pstr(e)}" for l, e in self.dims) + ")"


class Family:
    """one guarded path of a phase body"""

    def __init__(self, writes, reads, guards, vars_, defs):
        self.writes = writes   # [(arr, coords, node)] in order
        self.reads = reads     # [(arr, coords)]
        self.guards = guards   # atoms over phase vars / params
        self.vars = vars_      # leaf var ids of the iteration space
        self.defs = defs       # [(var, kind, a, b)] derived variables
        self.iter = ()         # iteration identity


class Phase:
    def __init__(self, seq, count, families, label=""):
        self.seq = seq
        self.count = count     # number of iterations (Poly)
        self.families = families
        self.label = label


class Machine:
    """shared by the IR executor and the Fortran executor: arrays, phases and
    access obligations"""

    def __init__(self, ctx, T=64):
        self.ctx = ctx
        self.arrays = {}
        self.phases = []
        self.seq = 0
        self.cur = None           # pending body record of the current phase
        self.T = T
        self.access_log = []
        self.check_access = True

    def decl(self, a):
        self.arrays[a.name] = a
        if self.ctx.ovf is not None:
            self.ctx.ovf.shape([e for _, e in reversed(a.dims)], [l for l, _ in reversed(a.dims)])
        return a

    # -- coordinates
    def coords(self, arr, off):
        """element offset -> coordinates, with in-bounds obligations"""
        ctx = self.ctx
        off = ctx.norm(off)
        out = []
        n = len(arr.dims)
        ctx.stats.ob("in-bounds")
        e = off
        for d in range(n - 1):
            lo, ext = arr.dims[d]
            q, r = ctx.divmod_floor(e, ext, why=f"extent of {arr.name}")
            out.append(padd(r, lo))
            e = q
        lo, ext = arr.dims[-1]
        ok = ctx.prove(GE(e))
        lst = ctx.last
        if ok:
            ok = ctx.prove(LT(e, ext))
            lst = ctx.last
        if not ok:
            m = ctx.model([("or", (neg(GE(e)), neg(LT(e, ext))))])
            if m is None and lst == "unknown":
                raise Unsupported(f"in-bounds query unknown: {arr.name} offset {pstr(off)}")
            raise Failed("in-bounds", f"access to {arr.name} at element offset {pstr(off)} "
                         f"(last coordinate {pstr(e)} of extent {pstr(ext)}) leaves the array", m)
        out.append(padd(e, lo))
        return tuple(ctx.norm(c) for c in out)

    def check_coords(self, arr, cs):
        ctx = self.ctx
        ctx.stats.ob("in-bounds")
        for c, (lo, ext) in zip(cs, arr.dims):
            for at in (GE(c, lo), LT(c, padd(lo, ext))):
                if not ctx.prove(at):
                    if ctx.last == "unknown":
                        raise Unsupported("in-bounds unknown " + astr(at))
                    raise Failed("in-bounds", f"{arr.name}({','.join(map(pstr, cs))}): {astr(at)}",
                                 ctx.model([neg(at)]))
        return tuple(ctx.norm(c) for c in cs)

    def same_cell(self, c1, c2):
        """True/False whether coords coincide (may fork)"""
        ctx = self.ctx
        for a, b in zip(c1, c2):
            d = ctx.norm(psub(a, b))
            if isinstance(d, int) and d != 0:
                return False
        for a, b in zip(c1, c2):
            if not ctx.decide(EQ(a, b)):
                return False
        return True

    def read(self, arr, cs):
        if self.cur is not None:
            for (a, c, v) in reversed(self.cur["writes"]):
                if a == arr.name and self.same_cell(c, cs):
                    return v
            self.cur["reads"].append((arr.name, cs))
        return fp.rd(arr.name, cs, self.seq)

    def write(self, arr, cs, val):
        if not arr.writable:
            raise Failed("frame", f"write to read-only array {arr.name} at {','.join(map(pstr, cs))}")
        if self.cur is not None:
            self.cur["writes"].append((arr.name, cs, val))
        else:
            self.seq += 1
            self.phases.append(Phase(self.seq, 1, [Family([(arr.name, cs, val)], [], [], [], [])], "serial"))

    def parallel(self, count, body, label=""):
        """run body(kpoly) for a generic k with 0 <= k < count"""
        ctx = self.ctx
        if self.cur is not None:
            raise Unsupported("nested parallel region")
        count = ctx.norm(count)
        if not ctx.decide(GT(count, 0)):
            return

        def run():
            k = self.itervar(0, count, split=True)
            body(k)
        self.region(run, label, count)

    def itervar(self, lo, hi, split=False):
        """fresh generic iteration variable v with lo <= v < hi (inside a region)"""
        ctx = self.ctx
        k = ctx.fresh("k")
        kid = next(iter(pvars(k)))
        if split:
            ctx.ub[kid] = hi
            ctx.split[kid] = True
        ctx.assume(GE(k, lo))
        ctx.assume(LT(k, hi))
        self.cur["iters"].append(k)
        return k

    def region(self, run, label="", count=None):
        """explore all guarded paths of one generic iteration"""
        ctx = self.ctx
        base = len(ctx.facts)
        rules0 = dict(ctx.rules)
        c0 = ctx.counter

        def path():
            self.cur = dict(writes=[], reads=[], iters=[])
            try:
                run()
                cur = self.cur
            finally:
                self.cur = None
            n = ctx.norm
            w = [(a, tuple(n(c) for c in cs), self._nnode(v)) for a, cs, v in cur["writes"]]
            r = [(a, tuple(n(c) for c in cs)) for a, cs in cur["reads"]]
            guards = []
            for f in ctx.facts[base:]:
                g = ctx.norm_atom(f)
                if ctx.const_atom(g) is None and g not in guards:
                    guards.append(g)
            # equations of the path that became rewrite rules for outer
            # variables: normalisation hides them, the guard keeps them
            for v, rhs in ctx.rules.items():
                if v not in rules0 and not self._isnew(v, c0):
                    guards.append(EQ(Poly({(v,): 1}), rhs))
            defs = []
            for key, (q, _) in ctx.divs.items():
                d = self._defvar(q, c0)
                if d is not None:
                    defs.append((d, "q", n(key[0]), n(key[1])))
            for key, m in ctx.minmax.items():
                d = self._defvar(m, c0)
                if d is not None:
                    x, y = (tuple(key[1]) * 2)[:2]
                    defs.append((d, key[0], n(x), n(y)))
            num = lambda v: int(var_name(v).split("!")[1])
            defs.sort(key=lambda t: num(t[0]))
            dset = {d[0] for d in defs}
            # a definition that an equation of the path has turned into one in
            # terms of itself (or a later one) defines nothing: the variable is
            # determined by the guards instead
            while True:
                bad = {d[0] for d in defs for x in (d[2], d[3]) for v in (pvars(x) if not isinstance(x, int) else ())
                       if v in dset and num(v) >= num(d[0])}
                if not bad:
                    break
                defs = [d for d in defs if d[0] not in bad]
                dset -= bad
            allv = set()
            for it in cur["iters"]:
                allv |= pvars(n(it))
            for a, cs, v in w:
                for c in cs:
                    allv |= pvars(c)
            for g in guards:
                allv |= avars(g)
            leaf = sorted(v for v in allv if self._isnew(v, c0) and v not in dset)
            fam = Family(w, r, guards, leaf, defs)
            fam.iter = tuple(n(k) for k in cur["iters"])
            return fam

        saved = self.phases[:]
        fams = ctx.explore(path)
        self.phases = saved
        self.seq += 1
        self.phases.append(Phase(self.seq, count, fams, label))

    def _isnew(self, v, c0):
        nm = var_name(v)
        return "!" in nm and nm.split("!")[1].isdigit() and int(nm.split("!")[1]) > c0

    def _defvar(self, q, c0):
        if isinstance(q, int) or len(q.t) != 1:
            return None
        (m, c), = q.t.items()
        if len(m) != 1 or c != 1 or not self._isnew(m[0], c0):
            return None
        if var_name(m[0]).startswith(("q!", "mm!")):
            return m[0]
        return None

    def _nnode(self, v):
        n = self.ctx.norm
        return fp.subst_node(v, n, lambda a, cs, s: fp.rd(a, cs, s))


class Exec:
    def __init__(self, mod, ctx, machine, contracts=None, T=64):
        self.mod = mod
        self.ctx = ctx
        self.m = machine
        self.gobjs = {}
        self.T = T
        self.contracts = contracts or {}
        self.steps = 0
        self.called = set()
        self.used_contracts = {}
        self.depth = 0
        self.maxsteps = 3000000

    # -- memory ---------------------------------------------------------------
    def new(self, name, size=None):
        return Obj("mem", name, size=size)

    def load(self, p, ty, size):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported(f"load through {p}")
        o = p.obj
        if o.kind == "array":
            return self.load_array(o, p.off, ty, size)
        if o.kind == "iarray":
            return self.load_iarray(o, p.off, ty, size)
        off = self.ctx.norm(p.off)
        if not isinstance(off, int):
            raise Unsupported(f"symbolic offset {pstr(off)} in {o}")
        if ty[0] in ("s", "l", "a"):
            return self.load_agg(p, ty)
        if o.size is not None and not (0 <= off and off + size <= o.size):
            raise Failed("memory-safety", f"load of {size} bytes at offset {off} of object {o.name} (size {o.size})")
        c = o.cells.get(off)
        if c is not None:
            if c[0] == size:
                v = c[1]
                if v is ZF:
                    return self.zero(ty)
                if ty[0] == "i" and isinstance(v, (Ptr, R)) or ty[0] == "f" and isinstance(v, (Ptr, int, Poly)):
                    return self.retype(v, ty)
                return v
            if c[0] > size:
                return self.sub_load(c, 0, ty, size)
        # gather
        parts = []
        for co, (cs, cv) in o.cells.items():
            if co < off + size and co + cs > off:
                if co <= off and co + cs >= off + size:
                    return self.sub_load((cs, cv), off - co, ty, size)
                if co < off or co + cs > off + size:
                    raise Unsupported(f"partial overlap load {o} {off}+{size} vs {co}+{cs}")
                parts.append((co - off, cs, cv))
        if not parts:
            return UNDEF
        parts.sort(key=lambda x: x[0])
        if ty[0] in ("i", "f", "vec"):
            return Packed(size, parts)
        raise Unsupported(f"gather load of {ty}")

    def retype(self, v, ty):
        if isinstance(v, R) and ty[0] == "i":
            return Packed(ty[1] // 8, [(0, ty[1] // 8, v)])
        if isinstance(v, int) and v == 0 and ty[0] == "f":
            return fp.ZERO
        return v

    def zero(self, ty):
        if ty[0] == "f":
            return fp.ZERO
        if ty[0] == "p":
            return NULLP
        return 0

    def sub_load(self, c, delta, ty, size):
        cs, cv = c
        if cv is ZF:
            return self.zero(ty)
        if cv is UNDEF:
            return UNDEF
        if isinstance(cv, Packed):
            sub = [(o, s, v) for o, s, v in cv.parts if o >= delta and o + s <= delta + size]
            if len(sub) == 1 and sub[0][0] == delta and sub[0][1] == size:
                return sub[0][2]
            if not sub:
                return UNDEF
            return Packed(size, [(o - delta, s, v) for o, s, v in sub])
        if isinstance(cv, int) and cv >= 0 and ty[0] == "i":
            return (cv >> (8 * delta)) & ((1 << (8 * size)) - 1)
        raise Unsupported(f"sub-load {size} at {delta} of {c}")

    def load_agg(self, p, ty):
        out = []
        if ty[0] == "a":
            s = self.mod.size(ty[2])
            for i in range(ty[1]):
                out.append(self.load(Ptr(p.obj, padd(p.off, s * i)), ty[2], s))
            return out
        offs = self.mod.layout(ty)[0]
        for o, f in zip(offs, self.mod.fields(ty)):
            out.append(self.load(Ptr(p.obj, padd(p.off, o)), f, self.mod.size(f)))
        return out

    def store(self, p, v, ty, size):
        if not isinstance(p, Ptr) or p.obj is None:
            raise Unsupported(f"store through {p}")
        o = p.obj
        if o.kind == "array":
            return self.store_array(o, p.off, v, ty, size)
        if o.kind == "iarray":
            raise Failed("frame", f"store to read-only integer array {o.name}")
        off = self.ctx.norm(p.off)
        if not isinstance(off, int):
            raise Unsupported(f"symbolic store offset {pstr(off)} in {o}")
        if o.info == "const":
            raise Failed("frame", f"store to input {o.name}")
        if isinstance(v, list):
            if ty[0] == "a":
                s = self.mod.size(ty[2])
                for i, x in enumerate(v):
                    self.store(Ptr(o, off + s * i), x, ty[2], s)
            else:
                offs = self.mod.layout(ty)[0]
                for oo, f, x in zip(offs, self.mod.fields(ty), v):
                    self.store(Ptr(o, off + oo), x, f, self.mod.size(f))
            return
        if v is ZEROINIT:
            v = ZF
        if o.size is not None and not (0 <= off and off + size <= o.size):
            raise Failed("memory-safety", f"store of {size} bytes at offset {off} of object {o.name} (size {o.size})")
        self.put(o, off, size, v)

    def put(self, o, off, size, v):
        c = o.cells.get(off)
        if c is not None and c[0] == size and not isinstance(v, Packed):
            o.cells[off] = (size, v)
            return
        self.clear(o, off, size)
        if isinstance(v, Packed):
            for po, ps, pv in v.parts:
                o.cells[off + po] = (ps, pv)
        else:
            o.cells[off] = (size, v)

    def clear(self, o, off, size):
        for co in list(o.cells):
            cs, cv = o.cells[co]
            if co < off + size and co + cs > off:
                if co >= off and co + cs <= off + size:
                    del o.cells[co]
                elif cv is ZF:
                    del o.cells[co]
                    if co < off:
                        o.cells[co] = (off - co, ZF)
                    if co + cs > off + size:
                        o.cells[off + size] = (co + cs - off - size, ZF)
                elif isinstance(cv, Packed):
                    del o.cells[co]
                    for po, ps, pv in cv.parts:
                        o.cells[co + po] = (ps, pv)
                    return self.clear(o, off, size)
                elif cv is UNDEF:
                    del o.cells[co]
                else:
                    raise Unsupported(f"partial overwrite in {o} at {off}+{size} vs {co}+{cs}")

    def memcpy(self, d, s, n):
        n = self.ctx.norm(n)
        if not isinstance(n, int):
            raise Unsupported("symbolic memcpy")
        if n == 0:
            return
        do = self.ctx.norm(d.off)
        so = self.ctx.norm(s.off)
        if s.obj.kind == "array" or d.obj.kind == "array":
            raise Unsupported("memcpy on data array")
        if s.obj.kind == "iarray":
            cells = [(i * 4, 4, self.load_iarray(s.obj, padd(s.off, 4 * i), ("i", 32), 4)) for i in range(n // 4)]
            for co, cs, cv in cells:
                self.put(d.obj, do + co, cs, cv)
            return
        if not isinstance(do, int) or not isinstance(so, int):
            raise Unsupported("memcpy at symbolic offset")
        for oo, off in ((d.obj, do), (s.obj, so)):
            if oo.size is not None and not (0 <= off and off + n <= oo.size):
                raise Failed("memory-safety", f"memcpy of {n} bytes at offset {off} of object {oo.name} (size {oo.size})")
        cells = []
        for co, (cs, cv) in list(s.obj.cells.items()):
            if co < so + n and co + cs > so:
                if co >= so and co + cs <= so + n:
                    cells.append((co - so, cs, cv))
                elif cv is ZF:
                    a = max(co, so)
                    b = min(co + cs, so + n)
                    cells.append((a - so, b - a, ZF))
                elif cv is UNDEF:
                    pass
                else:
                    raise Unsupported(f"memcpy splits a cell of {s.obj}")
        self.clear(d.obj, do, n)
        for co, cs, cv in cells:
            d.obj.cells[do + co] = (cs, cv)

    # data arrays
    def elem(self, o, off, size):
        a = o.info
        off = self.ctx.norm(off)
        if size != a.esize:
            raise Unsupported(f"access of {size} bytes to array {a.name} of {a.esize}-byte elements")
        e = pexactdiv(off, a.esize)
        if e is None:
            raise Unsupported(f"misaligned access to {a.name}: {pstr(off)}")
        return a, self.m.coords(a, e)

    def load_array(self, o, off, ty, size):
        a, cs = self.elem(o, off, size)
        return self.m.read(a, cs)

    def store_array(self, o, off, v, ty, size):
        a, cs = self.elem(o, off, size)
        if isinstance(v, Packed) and len(v.parts) == 1:
            v = v.parts[0][2]
        if not isinstance(v, R):
            if isinstance(v, int) and v == 0:
                v = fp.ZERO
            else:
                raise Unsupported(f"store of {v!r} to array {a.name}")
        self.m.write(a, cs, v)

    def load_iarray(self, o, off, ty, size):
        a = o.info
        e = pexactdiv(self.ctx.norm(off), 4)
        if e is None or size % 4:
            raise Unsupported("iarray access")
        if size == 8:
            return Packed(8, [(0, 4, a.get(self, e)), (4, 4, a.get(self, padd(e, 1)))])
        return a.get(self, e)

    # -- values ---------------------------------------------------------------
    def val(self, env, v):
        t = type(v)
        if t is str:
            return env[v]
        if t is int:
            return v
        if t is Glob:
            return self.glob(v)
        if t is FConst:
            return fp.from_double(v.v, v.bits)
        if v is NULL:
            return NULLP
        return v

    def glob(self, g):
        n = g.name
        if n in self.mod.aliases:
            n = self.mod.aliases[n]
        o = self.gobjs.get(n)
        if o is None:
            if n in self.mod.funcs or n in self.mod.decls:
                o = Obj("func", n)
            else:
                o = Obj("mem", "@" + n)
                d = self.mod.globals.get(n)
                if d:
                    self.init_global(o, d)
            self.gobjs[n] = o
        return Ptr(o, g.off)

    def init_global(self, o, d):
        from .ir import P
        p = P(d)
        while p.peek() not in ("constant", "global"):
            if p.peek() is None:
                return
            if p.peek() == "external":
                return
            x = p.next()
            if p.peek() == "(":
                p.skip_paren()
        p.next()
        t = p.type()
        if p.peek() in (None, ","):
            return
        try:
            v = p.value(t, self.mod)
        except IRError:
            return
        self.put_const(o, 0, t, v)

    def put_const(self, o, off, t, v):
        if v is ZEROINIT:
            o.cells[off] = (self.mod.size(t), ZF)
        elif isinstance(v, tuple) and v[0] == "agg":
            if t[0] == "a":
                s = self.mod.size(t[2])
                for i, (tt, x) in enumerate(v[1]):
                    self.put_const(o, off + s * i, tt, x)
            else:
                for oo, (tt, x) in zip(self.mod.layout(t)[0], v[1]):
                    self.put_const(o, off + oo, tt, x)
        elif isinstance(v, tuple) and v[0] == "str":
            b = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), v[1])
            for i, ch in enumerate(b):
                o.cells[off + i] = (1, ord(ch) & 255)
        elif isinstance(v, tuple):
            return
        elif v is UNDEF:
            return
        else:
            o.cells[off] = (self.mod.size(t), self.val({}, v))

    # -- execution -------------------------------------------------------------
    def call(self, name, args):
        if name in self.mod.aliases:
            name = self.mod.aliases[name]
        h = self.intrinsic(name, args)
        if h is not None:
            return h[0]
        c = self.contracts.get(name) if self.contracts else None
        if c is not None:
            r = c(self, args)
            if r is not NotImplemented:
                return r
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported("call to external function " + name[:200])
        f.parse()
        self.called.add(name)
        env = {}
        for (t, n, a), v in zip(f.params, args):
            if "byval" in a:
                sz = self.mod.size(a["byval"])
                o = self.new(n, sz)
                self.memcpy(Ptr(o, 0), v, sz)
                v = Ptr(o, 0)
            env[n] = v
        self.depth += 1
        if self.depth > 800:
            raise Unsupported("call depth")
        try:
            return self.run(f, env)
        finally:
            self.depth -= 1

    def run(self, f, env):
        bn = f.entry
        prev = None
        val = self.val
        visits = {}
        ctx = self.ctx
        while True:
            c = visits[bn] = visits.get(bn, 0) + 1
            if c > 600:
                raise Unsupported(f"loop without bound in {f.name[:120]}")
            block = f.blocks[bn]
            i = 0
            if block and block[0][0] == "phi":
                vals = []
                key = prev
                while block[i][0] == "phi":
                    ins = block[i]
                    k = key if key in ins[2] else ("%0" if "%0" in ins[2] else None)
                    if key not in ins[2]:
                        # entry block has an implicit number
                        cand = [b for b in ins[2] if b not in f.blocks]
                        if key == f.entry and len(cand) == 1:
                            k = cand[0]
                        else:
                            raise Unsupported("phi predecessor")
                    vals.append((ins[1], val(env, ins[2][k])))
                    i += 1
                for d, v in vals:
                    env[d] = v
            nb = None
            n = len(block)
            while i < n:
                ins = block[i]
                i += 1
                self.steps += 1
                op = ins[0]
                if op == "gep":
                    b = val(env, ins[2])
                    if not isinstance(b, Ptr):
                        raise Unsupported(f"gep on {b!r}")
                    off = padd(b.off, ins[3])
                    for ix, sz in ins[4]:
                        iv = val(env, ix)
                        if not isinstance(iv, (int, Poly)):
                            raise Unsupported(f"gep index {iv!r}")
                        off = padd(off, pscale(iv, sz))
                    env[ins[1]] = Ptr(b.obj, off)
                elif op == "load":
                    env[ins[1]] = self.load(val(env, ins[3]), ins[2], ins[4])
                elif op == "store":
                    self.store(val(env, ins[4]), val(env, ins[3]), ins[2], ins[5])
                elif op == "call":
                    r = self.do_call(ins, env)
                    if ins[1] is not None:
                        env[ins[1]] = r
                    if ins[5] is not None:
                        nb = ins[5]
                elif op == "alloca":
                    if ins[3] != 1 and not isinstance(ins[3], int):
                        raise Unsupported("dynamic alloca")
                    env[ins[1]] = Ptr(self.new(f.name[-12:] + ins[1], self.mod.size(ins[2]) * ins[3]), 0)
                elif op == "bin":
                    v = env[ins[1]] = self.binop(ins[2], ins[3], val(env, ins[4]), val(env, ins[5]))
                    if ctx.ovf is not None and ins[3] == I32 and ins[2] in ("add", "sub", "mul", "shl") and isinstance(v, (int, Poly)):
                        ctx.ovf.record(v, f.name)
                elif op == "cast":
                    env[ins[1]] = self.cast(ins[2], ins[3], val(env, ins[4]), ins[5])
                elif op == "icmp":
                    env[ins[1]] = self.icmp(ins[2], ins[3], val(env, ins[4]), val(env, ins[5]))
                elif op == "ret":
                    return None if ins[2] is None else val(env, ins[2])
                elif op == "br":
                    nb = ins[2]
                elif op == "cbr":
                    c = val(env, ins[2])
                    if not isinstance(c, int):
                        raise Unsupported("branch on " + repr(c))
                    nb = ins[3] if c else ins[4]
                elif op == "switch":
                    v = val(env, ins[2])
                    nb = None
                    if isinstance(v, int):
                        for k, l in ins[4]:
                            if k == v:
                                nb = l
                                break
                    else:
                        for k, l in ins[4]:
                            if ctx.decide(EQ(v, k)):
                                nb = l
                                break
                    if nb is None:
                        nb = ins[3]
                elif op == "extractvalue":
                    v = val(env, ins[2])
                    for k in ins[3]:
                        if v is UNDEF:
                            break
                        v = v[k]
                    env[ins[1]] = v
                elif op == "insertvalue":
                    env[ins[1]] = self.insertvalue(ins[2], val(env, ins[3]), val(env, ins[4]), ins[5])
                elif op == "select":
                    c = val(env, ins[2])
                    env[ins[1]] = val(env, ins[3]) if c else val(env, ins[4])
                elif op == "fneg":
                    env[ins[1]] = fp.neg(self.fval(val(env, ins[3])))
                elif op == "fcmp":
                    env[ins[1]] = self.fcmp(ins[2], val(env, ins[4]), val(env, ins[5]))
                elif op == "unreachable":
                    raise Unsupported("reached unreachable in " + f.name[:100])
                else:
                    raise Unsupported(f"instruction {op}: {ins}")
            if self.steps > self.maxsteps:
                raise Unsupported("step limit")
            if nb is None:
                raise Unsupported("fell off block")
            prev = bn
            bn = nb

    def do_call(self, ins, env):
        callee = ins[3]
        if isinstance(callee, tuple):
            p = self.val(env, callee[1])
            if not isinstance(p, Ptr) or p.obj is None or p.obj.kind != "func":
                raise Unsupported("indirect call")
            name = p.obj.name
        else:
            name = callee
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume"):
            return None
        args = [None if a[1] is None else self.val(env, a[1]) for a in ins[4]]
        return self.call(name, args)

    def insertvalue(self, ty, v, w, idx):
        if v is UNDEF:
            n = ty[1] if ty[0] == "a" else len(self.mod.fields(ty))
            v = [UNDEF] * n
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = w
        else:
            sub = ty[2] if ty[0] == "a" else self.mod.fields(ty)[idx[0]]
            v[idx[0]] = self.insertvalue(sub, v[idx[0]], w, idx[1:])
        return v

    def ival(self, v):
        if isinstance(v, (int, Poly)):
            return v
        if isinstance(v, Packed) and len(v.parts) == 1 and v.parts[0][0] == 0 and isinstance(v.parts[0][2], (int, Poly)):
            return v.parts[0][2]
        if v is UNDEF:
            raise Failed("memory-safety", "use of an uninitialised integer value")
        raise Unsupported(f"integer expected, got {v!r}")

    def fval(self, v):
        if isinstance(v, R):
            return v
        if isinstance(v, Packed) and len(v.parts) == 1 and isinstance(v.parts[0][2], R):
            return v.parts[0][2]
        if isinstance(v, int) and v == 0:
            return fp.ZERO
        if v is UNDEF:
            raise Failed("memory-safety", "use of an uninitialised floating-point value")
        raise Unsupported(f"float expected, got {v!r}")

    def binop(self, op, ty, a, b):
        if op[0] == "f":
            a = self.fval(a)
            b = self.fval(b)
            if op == "fadd":
                return fp.add(a, b)
            if op == "fsub":
                return fp.sub(a, b)
            if op == "fmul":
                return fp.mul(a, b)
            if op == "fdiv":
                return fp.div(a, b)
            raise Unsupported(op)
        if ty == ("i", 1) or ty == ("i", 8):
            if isinstance(a, int) and isinstance(b, int):
                m = (1 << ty[1]) - 1
                return {"xor": a ^ b, "and": a & b, "or": a | b, "add": (a + b) & m}[op]
        if isinstance(a, (Packed, Shifted)) or isinstance(b, (Packed, Shifted)):
            return self.packed_bin(op, ty, a, b)
        if op in ("sub",) and isinstance(a, Ptr):
            return self.ptrdiff(a, b)
        a = self.ival(a)
        b = self.ival(b)
        if op == "add":
            return padd(a, b)
        if op == "sub":
            return psub(a, b)
        if op == "mul":
            return pmul(a, b)
        if op in ("sdiv", "srem"):
            q, r = self.ctx.sdiv(a, b)
            return q if op == "sdiv" else r
        if op in ("udiv", "urem"):
            if not (self.ctx.prove(GE(a)) and self.ctx.prove(GT(b, 0))):
                raise Unsupported("unsigned division of possibly negative value")
            q, r = self.ctx.divmod_floor(a, b)
            return q if op == "udiv" else r
        if isinstance(a, int) and isinstance(b, int):
            if op == "xor":
                return a ^ b
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "shl":
                return a << b
            if op == "ashr":
                return a >> b
            if op == "lshr" and a >= 0:
                return a >> b
        if op == "shl" and isinstance(b, int):
            return pscale(a, 1 << b)
        if op == "xor" and b == -1:
            return psub(pscale(a, -1), 1)
        if op in ("lshr", "ashr") and isinstance(b, int):
            if op == "ashr" or self.ctx.prove(GE(a)):
                return self.ctx.divmod_floor(a, 1 << b)[0]
        if op == "and" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
            return self.ctx.divmod_floor(a, b + 1)[1]
        raise Unsupported(f"integer op {op}")

    def packed_bin(self, op, ty, a, b):
        if op == "lshr" and isinstance(a, Packed) and isinstance(b, int) and b % 8 == 0:
            return self.sub_load((a.size, a), b // 8, ("i", (a.size - b // 8) * 8), a.size - b // 8)
        if op == "shl" and isinstance(b, int) and b % 8 == 0:
            return Shifted(a, b)
        if op == "or":
            x, y = (a, b) if isinstance(b, Shifted) else (b, a)
            if isinstance(y, Shifted) and isinstance(x, (int, Poly)):
                return Packed(ty[1] // 8, [(0, y.bits // 8, x), (y.bits // 8, ty[1] // 8 - y.bits // 8, y.v)])
        raise Unsupported(f"packed op {op}")

    def ptrdiff(self, a, b):
        if a.obj is b.obj:
            return psub(a.off, b.off)
        raise Unsupported("difference of pointers into different objects")

    def cast(self, op, t1, v, t2):
        if op in ("sext", "bitcast", "addrspacecast", "inttoptr"):
            if op == "sext" and t1 == ("i", 1):
                return -self.ival(v)
            return v
        if op == "ptrtoint":
            return v
        if op == "zext":
            if t1 == ("i", 1):
                return v
            if isinstance(v, Packed):
                return v
            v = self.ival(v)
            if isinstance(v, int):
                return v % (1 << t1[1])
            if not self.ctx.prove(GE(v)):
                if self.ctx.decide(GE(v)):
                    return v
                return padd(v, 1 << t1[1])
            return v
        if op == "trunc":
            if isinstance(v, Packed):
                return self.sub_load((v.size, v), 0, t2, t2[1] // 8)
            if isinstance(v, Ptr):
                raise Unsupported("truncated pointer")
            if t2 == ("i", 1):
                return v & 1 if isinstance(v, int) else self.ctx.divmod_floor(self.ival(v), 2)[1]
            if not isinstance(v, int) and isinstance(v, Poly) and t2[1] <= 16:
                # a narrowed index must fit
                ctx = self.ctx
                ctx.stats.ob("narrowing")
                for at in (GE(v, -(1 << (t2[1] - 1))), LT(v, 1 << t2[1])):
                    if not ctx.prove(at):
                        if ctx.last == "unknown":
                            raise Unsupported("narrowing undecided")
                        raise Failed("narrowing", f"{pstr(v)} does not fit in {t2[1]} bits", ctx.model([neg(at)]))
                return v
            if self.ctx.ovf is not None and t2 == I32 and isinstance(v, Poly):
                self.ctx.ovf.record(v, "truncation")
            if isinstance(v, int) and not (-(1 << (t2[1] - 1)) <= v < (1 << t2[1])):
                v &= (1 << t2[1]) - 1
                if v >= 1 << (t2[1] - 1):
                    v -= 1 << t2[1]
            return v
        if op == "sitofp":
            return fp.intval(self.ctx.norm(self.ival(v)))
        if op == "uitofp":
            v = self.ival(v)
            return fp.intval(v)
        if op == "fpext":
            return self.fval(v)
        if op == "fptrunc":
            v = self.fval(v)
            if self.T == 32 or v.k == "c" and fp_exact32(v):
                return v
            return fp.uf("narrow", v)
        if op == "fptosi":
            return self.fptosi(self.fval(v))
        raise Unsupported("cast " + op)

    def fptosi(self, v):
        if v.k == "c":
            x = v.a[0]
            return int(x)
        if v.k == "i":
            return v.a[0]
        raise Unsupported("fptosi of " + repr(v))

    def icmp(self, pr, ty, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is not b.obj:
                    if pr == "eq":
                        return 0
                    if pr == "ne":
                        return 1
                    raise Unsupported("pointer order")
                a, b = a.off, b.off
                pr = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(pr, pr)
            else:
                raise Unsupported("pointer/int compare")
        if isinstance(a, Packed) and not isinstance(a.parts[0][2], (int, Poly)):
            raise Unsupported("compare packed")
        a = self.ival(a)
        b = self.ival(b)
        if pr[0] == "u":
            for x in (a, b):
                if not self.ctx.prove(GE(x)):
                    if isinstance(x, int):
                        raise Unsupported("unsigned compare with negative constant")
                    if not self.ctx.decide(GE(x)):
                        raise Unsupported("unsigned compare with negative value")
            pr = "s" + pr[1:]
        at = {"eq": EQ, "ne": NE, "slt": LT, "sle": LE, "sgt": GT, "sge": GE}[pr](a, b)
        return 1 if self.ctx.decide(at) else 0

    def fabs(self, a):
        return (fp.neg(self.fval(a)) if self.fcmp("olt", a, fp.ZERO) else a,)

    def memcmp(self, p, q, n):
        """equality of integers in memory; the sign of a difference is left open"""
        if not isinstance(n, int) or n % 4:
            raise Unsupported("memcmp")
        for o in range(0, n, 4):
            a = self.load(Ptr(p.obj, padd(p.off, o)), ("i", 32), 4)
            b = self.load(Ptr(q.obj, padd(q.off, o)), ("i", 32), 4)
            if self.icmp("ne", ("i", 32), a, b):
                v = self.ctx.fresh("memcmp")
                self.ctx.assume(GE(v, 1) if self.ctx.decide(GE(v)) else LE(v, -1))
                return v
        return 0

    def fcmp(self, pr, a, b):
        a = self.fval(a)
        b = self.fval(b)
        if a.k == "c" and b.k == "c":
            x, y = a.a[0], b.a[0]
            return int({"oeq": x == y, "one": x != y, "olt": x < y, "ole": x <= y, "ogt": x > y,
                        "oge": x >= y, "ueq": x == y, "une": x != y, "ult": x < y, "ule": x <= y,
                        "ugt": x > y, "uge": x >= y}[pr])
        # branch on data: both outcomes are explored (see reals.py)
        if self.ctx.dec is None:
            raise Unsupported("floating-point comparison outside exploration")
        flip = {"oeq": ("eq", 1), "ueq": ("eq", 1), "one": ("eq", 0), "une": ("eq", 0),
                "olt": ("lt", 1), "ult": ("lt", 1), "oge": ("lt", 0), "uge": ("lt", 0),
                "ole": ("le", 1), "ule": ("le", 1), "ogt": ("le", 0), "ugt": ("le", 0)}.get(pr)
        if flip is None:
            raise Unsupported("floating-point comparison " + pr)
        self.ctx.fpbranch = True
        k = reals.key(self.ctx, flip[0], self.m._nnode(a), self.m._nnode(b), self.m)
        r = k if isinstance(k, bool) else self.ctx.decide(GE(k))
        return int(r == bool(flip[1]))

    # -- intrinsics / trusted runtime -----------------------------------------
    def intrinsic(self, name, args):
        if name.startswith("llvm."):
            if name.startswith(("llvm.memcpy", "llvm.memmove")):
                self.memcpy(args[0], args[1], args[2])
                return (None,)
            if name.startswith("llvm.memset"):
                n = args[2]
                if args[1] != 0 or not isinstance(n, int):
                    raise Unsupported("memset")
                self.clear(args[0].obj, self.ctx.norm(args[0].off), n)
                args[0].obj.cells[self.ctx.norm(args[0].off)] = (n, ZF)
                return (None,)
            if name.startswith("llvm.fmuladd"):
                return (fp.add(fp.mul(self.fval(args[0]), self.fval(args[1])), self.fval(args[2])),)
            if name.startswith(("llvm.smax", "llvm.smin")):
                return (self.ctx.maxmin("max" if "smax" in name else "min", self.ival(args[0]), self.ival(args[1])),)
            if name.startswith("llvm.abs"):
                v = self.ival(args[0])
                return (v if self.ctx.decide(GE(v)) else pscale(v, -1),)
            if name.startswith(("llvm.stacksave", "llvm.stackrestore", "llvm.experimental.noalias", "llvm.trap")):
                if "trap" in name:
                    raise Unsupported("trap reached")
                return (NULLP,)
            if name.startswith("llvm.expect"):
                return (args[0],)
            if name.startswith("llvm.is.constant"):
                return (0,)
            if name.startswith("llvm.fma."):
                return (fp.add(fp.mul(self.fval(args[0]), self.fval(args[1])), self.fval(args[2])),)
            if name.startswith("llvm.fabs."):
                return self.fabs(args[0])
            if name.startswith(("llvm.maxnum.", "llvm.minnum.")):
                return (args[int(self.fcmp("olt", *args[:2]) == ("max" in name))],)
            raise Unsupported("intrinsic " + name)
        if name in ("fma", "fmaf"):
            return (fp.add(fp.mul(self.fval(args[0]), self.fval(args[1])), self.fval(args[2])),)
        if name in ("fabs", "fabsf"):
            return self.fabs(args[0])
        if name in ("fmax", "fmaxf", "fmin", "fminf"):
            return (args[int(self.fcmp("olt", *args[:2]) == ("max" in name))],)
        if name in ("abs", "labs"):
            v = self.ival(args[0])
            return (v if self.ctx.decide(GE(v)) else pscale(v, -1),)
        if name in ("memcmp", "bcmp"):
            return (self.memcmp(*args[:3]),)
        if name == "__kmpc_fork_call":
            self.fork_call(args)
            return (None,)
        if name in ("__kmpc_global_thread_num", "omp_get_thread_num"):
            return (0,)
        if name.startswith("__kmpc_for_static_init"):
            self.static_init(args)
            return (None,)
        if name == "__kmpc_for_static_fini":
            return (None,)
        if name in ("_ZSt3maxIiERKT_S2_S2_", "_ZSt3minIiERKT_S2_S2_"):
            a = self.load(args[0], ("i", 32), 4)
            b = self.load(args[1], ("i", 32), 4)
            v = self.ctx.maxmin("max" if "max" in name else "min", self.ival(a), self.ival(b))
            o = self.new("minmax", 4)
            o.cells[0] = (4, v)
            return (Ptr(o, 0),)
        if name in ("omp_get_max_threads", "omp_get_num_procs", "omp_get_num_threads", "omp_in_parallel"):
            v = self.ctx.fresh(name)
            self.ctx.assume(GE(v, 0 if name == "omp_in_parallel" else 1))
            return (v,)
        return None

    def fork_call(self, args):
        """trusted OpenMP contract: the region runs the work-shared loop, each
        iteration of which executes exactly once, in unspecified order"""
        fnp = args[2]
        rest = args[3:]
        self.fork = {"k": None, "seen": False}
        info = {"count": None}
        # first pass: discover the trip count
        probe = self.discover(fnp.obj.name, rest)
        if probe is None:
            return
        base, count = probe
        snap = None

        def body(k):
            before = self.snapshot(rest)
            self.fork = {"k": padd(base, k), "seen": False}
            t = self.new("gtid", 4)
            t.cells[0] = (4, 0)
            self.call(fnp.obj.name, [Ptr(t, 0), Ptr(t, 0)] + list(rest))
            self.fork = None
            self.restore_check(before)

        self.m.parallel(count, body, "omp")

    class _Stop(Exception):
        pass

    def discover(self, fname, rest):
        res = {}
        self.fork = {"k": "probe", "seen": False, "res": res}
        t = self.new("gtid", 4)
        t.cells[0] = (4, 0)
        d = self.depth
        try:
            self.call(fname, [Ptr(t, 0), Ptr(t, 0)] + list(rest))
        except Exec._Stop:
            self.depth = d
            return res["base"], res["count"]
        finally:
            self.fork = None
        return None  # no work-shared loop executed (n <= 0)

    def static_init(self, args):
        # loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk
        fk = self.fork
        if fk is None or fk["seen"]:
            raise Unsupported("unexpected work-sharing loop")
        fk["seen"] = True
        size = 8
        lo = self.load(args[4], ("i", 64), args[4].obj.size or 8)
        hi = self.load(args[5], ("i", 64), args[5].obj.size or 8)
        if args[7] != 1:
            raise Unsupported("loop increment")
        if fk["k"] == "probe":
            fk["res"]["base"] = lo
            fk["res"]["count"] = padd(psub(hi, lo), 1)
            raise Exec._Stop()
        sz = args[4].obj.size or 8
        self.put(args[4].obj, args[4].off, sz, fk["k"])
        self.put(args[5].obj, args[5].off, sz, fk["k"])

    def reach(self, roots):
        seen = {}
        work = [p.obj for p in roots if isinstance(p, Ptr) and p.obj is not None]
        while work:
            o = work.pop()
            if id(o) in seen or o.kind != "mem":
                continue
            seen[id(o)] = o
            for _, v in o.cells.values():
                if isinstance(v, Ptr) and v.obj is not None:
                    work.append(v.obj)
        return list(seen.values())

    def snapshot(self, roots):
        return [(o, dict(o.cells)) for o in self.reach(roots)]

    def restore_check(self, snap):
        for o, cells in snap:
            if o.cells != cells:
                for k in set(o.cells) | set(cells):
                    a = o.cells.get(k)
                    b = cells.get(k)
                    if a != b and not (a and b and a[0] == b[0] and self.same_val(a[1], b[1])):
                        raise Failed("race-freedom", f"parallel loop body changes shared host object {o.name} at byte {k}")
                o.cells = cells

    def same_val(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.obj is b.obj and a.off == b.off
        return a == b if type(a) is type(b) else False


def fp_exact32(v):
    import struct
    from fractions import Fraction
    try:
        f = float(v.a[0])
        return Fraction(struct.unpack("f", struct.pack("f", f))[0]) == v.a[0]
    except Exception:
        return False
