"""Contracts on the Fortran-only routines that apply an assembled stencil and
on the smoothing sweeps.  The m4-expanded routine is parsed on every run and
executed symbolically for arbitrary boxes, stencil lengths and offsets; its
final state is compared with the contract's for a generic cell.

Stencil entries are summed by a loop of symbolic length: the loop rule for
reductions (`fold`) checks that one generic iteration adds a term that does not
depend on the accumulator, and puts (value before) + sum of the terms.

Gauss-Seidel sweeps visit the cells one after the other.  For them the contract
gives the order of the visits (ascending storage order), the visited cells and
what a visit stores, in terms of the values at the time of the visit."""
import copy
import itertools
import re
import time
from . import build, fp, state
from .ctx import Ctx, Stats, Unsupported, Failed, Infeasible, GE, LE, LT, GT, EQ, NE, neg
from .execir import Machine, ArrayDecl
from .fortran import FExec, UNKNOWN, _Cycle, _scalars, _targets
from .poly import Poly, V, padd, psub, pscale, pmul, pvars, psubst, pstr, var_id, var_name

S = V("s@")
fp.SUMVARS.add(var_id("s@"))


class Offsets(list):
    """the stencil offsets: component d of offset s is the variable o<d>@<s>"""

    def __init__(self, nd, count, lo, hi):
        super().__init__()
        self.nd = nd
        self.count = count
        self.lo = lo        # bounds of component d
        self.hi = hi
        self.at = {}        # variable id -> (d, s)

    def var(self, d, s):
        n = f"o{d}@{s if isinstance(s, int) else pstr(s)}"
        v = V(n)
        i = var_id(n)
        self.at[i] = (d, s)
        if pvars(s) & fp.SUMVARS:
            fp.SUMVARS.add(i)
        return v

    def subst(self, p, sub):
        """p with the position variables of the offsets replaced as well"""
        m = dict(sub)
        for v in list(pvars(p)):
            if v in self.at:
                d, s = self.at[v]
                t = psubst(s, sub)
                if t != s:
                    m[v] = self.var(d, t)
        return psubst(p, m)


class SweepMachine(Machine):
    def __init__(self, ctx, seqarr=()):
        super().__init__(ctx)
        self.seqarr = set(seqarr)
        self.folding = False

    def same_cell(self, c1, c2):
        if not self.folding:
            return super().same_cell(c1, c2)
        eqs = [EQ(a, b) for a, b in zip(c1, c2)]
        if all(self.ctx.prove(e) for e in eqs):
            return True
        if self.ctx.prove(("or", tuple(NE(a, b) for a, b in zip(c1, c2)))):
            return False
        raise Unsupported("aliasing within a reduction")

    def read(self, arr, cs):
        if arr.name not in self.seqarr:
            return super().read(arr, cs)
        if self.cur is None:
            raise Unsupported("access outside a loop")
        for a, c, v in reversed(self.cur["writes"]):
            if a == arr.name and self.same_cell(c, cs):
                return v
        return fp.rd(arr.name + "@visit", cs, self.seq)

    def write(self, arr, cs, val):
        if self.cur is None:
            raise Unsupported("assignment outside a loop")
        if self.cur.get("closed"):
            raise Unsupported("assignment after an inner loop")
        super().write(arr, cs, val)


class SweepExec(FExec):
    def __init__(self, routine, machine, args):
        super().__init__(routine, machine, args)
        self.shapes = {}
        self.logs = []      # accesses to local arrays by the loops around the statement
        # local arrays of symbolic shape
        for n, (ty, dims) in routine.types.items():
            if dims is None or n in routine.params:
                continue
            sh = self.shape(n)
            if all(isinstance(self.ctx.norm(x), int) for d in sh for x in d):
                continue
            if ty != "r":
                raise Unsupported("local integer array")
            if machine.cur is not None:
                raise Unsupported("local array in a loop")
            name = f"local:{routine.name}:{n}:{len(machine.arrays)}"
            machine.decl(ArrayDecl(name, sh))
            self.env[n] = name

    def child(self, r, vals):
        return SweepExec(r, self.m, vals)

    def check_argument(self, f, p, v):
        f.lower(p, v)

    def lower(self, name, arr):
        """declared lower bounds of an array; the extents must be the contract's"""
        if name not in self.shapes:
            sh = self.shape(name)
            dims = self.m.arrays[arr].dims
            if len(sh) != len(dims):
                raise Unsupported("rank of " + name)
            for (l, e), (L, E) in list(zip(sh, dims))[:-1]:
                if e is None or not self.ctx.prove(EQ(e, E)):
                    raise Unsupported("extents of " + name)
            self.shapes[name] = [l for l, _ in sh]
        return self.shapes[name]

    def rel(self, name, arr, subs):
        if any(isinstance(x, fp.R) for x in subs):
            raise Unsupported("real subscript")
        lo = self.lower(name, arr)
        if len(subs) != len(lo):
            raise Unsupported("subscripts of " + name)
        return [padd(psub(self.ctx.norm(x), l), L) for x, l, (L, _) in zip(subs, lo, self.m.arrays[arr].dims)]

    def index(self, name, subs):
        a = self.env.get(name)
        if isinstance(a, Offsets):
            sh = self.shape(name)
            if len(subs) != 2 or len(sh) != 2 or sh[0][1] is None or not self.ctx.prove(EQ(sh[0][1], a.nd)):
                raise Unsupported("shape of " + name)
            d, s = [self.ctx.norm(psub(self.ctx.norm(self.ev(x)), l)) for x, (l, _) in zip(subs, sh)]
            if not isinstance(d, int):
                raise Unsupported("component of an offset")
            self.ctx.stats.ob("in-bounds")
            if not 0 <= d < a.nd:
                raise Failed("in-bounds", f"{name}: component {d} of an offset", self.ctx.model())
            for at in (GE(s), LT(s, a.count)):
                if not self.ctx.prove(at):
                    if self.ctx.last == "unknown":
                        raise Unsupported("in-bounds unknown: " + name)
                    raise Failed("in-bounds", f"{name}: entry {pstr(s)} of {pstr(a.count)}", self.ctx.model([neg(at)]))
            v = a.var(d, s)
            # the precondition on the offsets, at this entry
            self.ctx.assume(GE(v, a.lo[d]))
            self.ctx.assume(LE(v, a.hi[d]))
            return v
        if isinstance(a, str):
            subs = [self.ev(x) for x in subs]
            arr = self.m.arrays[a]
            return self.m.read(arr, self.m.check_coords(arr, self.rel(name, a, subs)))
        if a is None and self.r.types.get(name, (None, None))[1] is not None and name not in self.r.params:
            return self.table(name, [self.ctx.norm(self.ev(x)) for x in subs])
        return super().index(name, subs)

    def table(self, name, subs):
        """element of a local array of constant shape"""
        sh = [tuple(self.ctx.norm(x) for x in d) for d in self.shape(name)]
        if len(sh) != len(subs) or any(isinstance(x, fp.R) for x in subs):
            raise Unsupported("subscripts of " + name)
        at = []
        for x, (l, e) in zip(subs, sh):
            self.ctx.stats.ob("in-bounds")
            for c in (GE(x, l), LT(x, padd(l, e))):
                if not self.ctx.prove(c):
                    if self.ctx.last == "unknown":
                        raise Unsupported("in-bounds unknown: " + name)
                    raise Failed("in-bounds", f"{name}: subscript {pstr(x)}", self.ctx.model([neg(c)]))
            at.append([x] if isinstance(x, int) else range(l, l + e))
        size = 1
        for x in at:
            size *= len(x)
        if size > 200:
            raise Unsupported("local array " + name)
        vals = []
        for cs in itertools.product(*reversed(at)):
            key = (name,) + cs[::-1]
            v = self.env.get(key)
            if v is UNKNOWN:
                raise Unsupported(f"{name} carries a value out of a loop")
            if v is None:
                raise Failed("reference-defined", f"{self.r.name}: use of undefined {key}")
            if not isinstance(v, fp.R):
                raise Unsupported("local integer array")
            self.touch(key, "r")
            vals.append(v)
        if size == 1:
            return vals[0]
        return fp.uf("pick", *[fp.intval(psub(x, l)) for x, (l, _) in zip(subs, sh) if not isinstance(x, int)], *vals)

    def touch(self, key, how):
        """accesses of an element of a local array by one iteration of a loop:
        one that is written may not be read before"""
        for log, done in self.logs:
            if how == "w":
                done.add(key)
            if how == "w" or key not in done:
                log.setdefault(key, set()).add(how)
                if len(log[key]) > 1:
                    raise Unsupported(f"{key[0]} carries a value between loop iterations")

    def assign(self, name, subs, v):
        a = self.env.get(name)
        if isinstance(a, str):
            if not isinstance(v, fp.R):
                v = fp.intval(self.ctx.norm(v))
            arr = self.m.arrays[a]
            self.m.write(arr, self.m.check_coords(arr, self.rel(name, a, subs)), v)
            return
        super().assign(name, subs, v)
        if a is None:
            self.touch((name,) + tuple(self.ctx.norm(x) for x in subs), "w")

    def stmt(self, s):
        if self.m.folding and s[0] == "if" and len(s[1]) == 1 and s[1][0][0] is not None and s[1][0][0][0] == "rel" and s[1][0][0][1] == "ne":
            a, b = [self.ev(x) for x in s[1][0][0][2:4]]
            if isinstance(a, fp.R) and isinstance(b, (int, fp.R)) and self.real(b) is fp.ZERO and a.k == "rd":
                return self.unless_zero(a, s[1][0][1])
        super().stmt(s)

    def unless_zero(self, x, body):
        """if (x /= 0) body, within a reduction: the body changes nothing when x is zero"""
        env = dict(self.env)
        nw = len(self.m.cur["writes"])
        state0 = {}
        for a, cs, v in self.m.cur["writes"]:
            state0[a, cs] = v
        self.block(body)

        def zero(v):
            return fp.subst_node(v, lambda p: p, lambda a, cs, q: fp.ZERO if (a, cs, q) == x.a else fp.rd(a, cs, q))

        def same(new, old):
            if new is not old and not (isinstance(new, fp.R) and isinstance(old, fp.R) and fp.equal_real(zero(new), zero(old), self.ctx.norm)):
                raise Unsupported("branch within a reduction")
        for n, v in self.env.items():
            if v is not env.get(n):
                if n in env and isinstance(v, fp.R) and isinstance(env[n], fp.R):
                    same(v, env[n])
                else:
                    self.env[n] = UNKNOWN
        last = {}
        for a, cs, v in self.m.cur["writes"][nw:]:
            last[a, cs] = v
        for key, v in last.items():
            if key not in state0:
                raise Unsupported("branch within a reduction")
            same(v, state0[key])

    def cond(self, e):
        if self.m.folding and e[0] == "rel":
            a, b = self.ev(e[2]), self.ev(e[3])
            if isinstance(a, fp.R) or isinstance(b, fp.R):
                raise Unsupported("real comparison within a reduction")
            at = {"eq": EQ, "ne": NE, "lt": LT, "le": LE, "gt": GT, "ge": GE}[e[1]](a, b)
            if self.ctx.prove(at):
                return True
            if self.ctx.prove(neg(at)):
                return False
            raise Unsupported("branch within a reduction")
        return super().cond(e)

    # -- loops
    def isfold(self, var, body):
        if any(x[0] in ("do", "call", "return", "cycle") for x in _flat(body)):
            return False
        moving = _scalars(body, self.r.file) | {var}
        # scalars that only name the position's offset or a subscript
        for x in _flat(body):
            if x[0] == "=" and x[1][0] == "idx":
                if any(_names(y) & moving for y in x[1][2]):
                    return False
        return True

    def do(self, s):
        if self.m.cur is None and not self.m.seqarr and not self.m.folding:
            parts = self.fission(s)
            if parts is not None:
                return self.distributed(s, parts)
        self.loop(s)

    # -- imperfect nests: one nest per group of statements
    def bounded(self, e):
        """constant bounds: such a loop is unrolled"""
        return all(_constant(x) for x in e[2:5])

    def plain(self, x):
        """a statement that is executed as part of one iteration"""
        if x[0] == "do":
            return self.isfold(x[1], x[5]) or (self.bounded(x) and all(self.plain(y) for y in x[5]))
        if x[0] == "if":
            return all(self.plain(y) for _, b in x[1] for y in b)
        if x[0] == "select":
            return all(self.plain(y) for _, b in x[2] for y in b)
        return x[0] in ("=", "nop")

    def pieces(self, s):
        """[(loops around it, statements)], None: not distributable"""
        body = s[5]
        names = _scalars(body, self.r.file) | _targets(body, "idx", self.r.file)
        groups, defs, cur = [], [], []
        count = {}
        for x in _flat(body):
            if x[0] == "=" and x[1][0] == "var":
                count[x[1][1]] = count.get(x[1][1], 0) + 1
        for x in body:
            if self.plain(x):
                # names for values that stay the same throughout the iteration
                if x[0] == "=" and x[1][0] == "var" and count[x[1][1]] == 1 and not (_names(x[2]) & (names - {d[1][1] for d in defs})):
                    defs.append(x)
                elif x[0] != "nop":
                    cur.append(x)
            elif x[0] == "do":
                if cur:
                    groups.append(cur)
                    cur = []
                groups.append(x)
            else:
                return None
        if cur:
            groups.append(cur)
        out = []
        for g in groups:
            if isinstance(g, list):
                sub = [((), g)]
            else:
                if (_names(g[2]) | _names(g[3]) | _names(g[4])) & {d[1][1] for d in defs}:
                    return None
                sub = self.pieces(g)
                if sub is None:
                    return None
            for loops, b in sub:
                out.append(((s,) + loops, defs + b))
        # no other scalar may connect the groups
        keep = {d[1][1] for d in defs}
        sets = [_scalars(g if isinstance(g, list) else [g], self.r.file) for g in groups]
        uses = [set().union(*[_names(y) for y in (g if isinstance(g, list) else [g])]) for g in groups]
        for i, a in enumerate(sets):
            for j, u in enumerate(uses):
                if i != j and any(self.env.get(n) is None or not isinstance(self.env.get(n), str) for n in (a - keep) & u
                                  if not self.loopvar(n, groups[j])):
                    return None
        return out

    def loopvar(self, n, g):
        """n is set by every loop of the group before it is used"""
        g = g if isinstance(g, list) else [g]
        if n in _scalars([x for x in g if x[0] != "do"], self.r.file):
            return False
        for x in g:
            if x[0] == "do":
                if n in _names(x[2]) | _names(x[3]) | _names(x[4]):
                    return False
                if x[1] != n and not self.loopvar(n, x[5]):
                    return False
            elif n in _names(x):
                return False
        return True

    def fission(self, s):
        body = s[5]
        if any(x[0] in ("call", "return", "cycle") for x in _flat([s])):
            return None
        if isinstance(self.const(s[2]), int) and isinstance(self.const(s[3]), int):
            return None
        parts = self.pieces(s)
        if parts is None:
            return None
        out = []
        moved = False
        for loops, b in parts:
            # a reduction outside of the loops over the cells
            n = 0
            nest = loops
            while n < len(loops) - 1:
                l = loops[n]
                moving = _scalars(b, self.r.file) | {l[1]}
                if self.isfold(l[1], b) and not any((_names(x[2]) | _names(x[3]) | _names(x[4])) & moving for x in loops if x is not l):
                    if any(x[0] == "do" for x in _flat(b)):
                        return None
                    b = [("do", l[1], l[2], l[3], l[4], b)]
                    loops = loops[:n] + loops[n + 1:]
                    moved = True
                    break
                n += 1
            out.append((nest, loops, b))
        return out if moved or len(out) > 1 else None

    def const(self, e):
        try:
            return self.ctx.norm(self.ev(e))
        except (Unsupported, Failed):
            return None

    def distributed(self, s, parts):
        done = []
        for nest, loops, b in parts:
            n0 = len(self.m.phases)
            for l in reversed(loops):
                b = [("do", l[1], l[2], l[3], l[4], b)]
            self.loop(b[0])
            fams = [f for p in self.m.phases[n0:] for f in p.families if f.writes or f.reads]
            if len(self.m.phases) > n0 + 1 or any(len(f.iter) != len(loops) for f in fams):
                raise Unsupported("loop distribution")
            done.append((nest, loops, fams))
        # different iterations of the common loops are independent
        for i, (nest1, l1, fs1) in enumerate(done):
            for nest2, l2, fs2 in done[:i]:
                common = 0
                while common < min(len(nest1), len(nest2)) and nest1[common] is nest2[common]:
                    common += 1
                kept = l1[:common] == nest1[:common] == l2[:common]
                for f1, f2 in itertools.product(fs1, fs2):
                    w1, w2 = {x[0] for x in f1.writes}, {x[0] for x in f2.writes}
                    if not kept:
                        # a common loop has moved inwards
                        if w1 & (w2 | {x[0] for x in f2.reads}) or w2 & {x[0] for x in f1.reads}:
                            raise Unsupported("loop distribution")
                        continue
                    a, b = copy.copy(f1), copy.copy(f2)
                    a.iter, b.iter = f1.iter[:common], f2.iter[:common]
                    for x, y in ((a, b), (b, a)):
                        try:
                            state.pair_race(self.ctx, self.m, None, x, y, self.r.name)
                        except Failed as e:
                            raise Unsupported(f"dependent iterations: {e.detail}")

    def loop(self, s):
        _, var, lo, hi, step, body = s
        lo = self.ctx.norm(self.ev(lo))
        hi = self.ctx.norm(self.ev(hi))
        step = self.ctx.norm(self.ev(step))
        if not isinstance(step, int) or step == 0:
            raise Unsupported("loop step")
        if isinstance(lo, int) and isinstance(hi, int) and abs(hi - lo) < 12:
            for v in range(lo, hi + (1 if step > 0 else -1), step):
                self.env[var] = v
                self.unrolled += 1
                try:
                    self.block(body)
                except _Cycle:
                    pass
                finally:
                    self.unrolled -= 1
            self.env[var] = UNKNOWN
            return
        if self.m.folding:
            raise Unsupported("loop within a reduction")
        if self.isfold(var, body) and (self.m.cur is not None):
            if abs(step) != 1:
                raise Unsupported("step of a reduction")
            self.fold(var, *((lo, hi) if step > 0 else (hi, lo)), body)
            return
        if step < 0 and self.m.seqarr:
            raise Unsupported("descending visits")
        if step == -1:
            # the order of the iterations does not matter (race freedom is checked)
            lo, hi, step = hi, lo, 1
        if not self.ctx.decide(LE(lo, hi) if step > 0 else LE(hi, lo)):
            return
        first = lo
        n = None
        if step != 1:
            n = self.ctx.divmod_floor(psub(hi, lo) if step > 0 else psub(lo, hi), abs(step))[0]
        assigned = {a for a in _scalars(body, self.r.file) if not isinstance(self.env.get(a), (str, list))} | self._arrays(body)
        self.loopset |= _targets(body, file=self.r.file)

        def run():
            saved = dict(self.env)
            cur = self.m.cur
            if cur.get("closed") or cur["writes"]:
                raise Unsupported("imperfect loop nest")
            self.loops += 1
            # kept over all paths of the exploration
            self.logs.append((self.ctx.__dict__.setdefault("localacc", {}).setdefault(id(s), {}), set()))
            try:
                if step == 1:
                    v = self.m.itervar(lo, padd(hi, 1))
                else:
                    v = padd(first, pscale(self.m.itervar(0, padd(n, 1)), step))
                self.env[var] = v
                for a in assigned:
                    if not isinstance(a, tuple):
                        self.env[a] = UNKNOWN
                try:
                    self.block(body)
                except _Cycle:
                    pass
                cur["closed"] = True
            finally:
                self.loops -= 1
                self.logs.pop()
                self.env = dict(saved)
                for a in assigned | {var}:
                    self.env[a] = UNKNOWN
        if self.m.cur is not None:
            run()
        else:
            self.m.region(run, "do " + var)

    def fold(self, var, lo, hi, body):
        """reduction: accumulators get (value before) + sum over the positions"""
        ctx, m = self.ctx, self.m
        assigned = _scalars(body, self.r.file)
        before = {}
        if not ctx.decide(LE(lo, hi)):
            return
        for a in sorted(assigned):
            v = self.env.get(a)
            before[a] = v if isinstance(v, fp.R) else None
        # elements updated by the body, under the subscripts they have now
        cells = {}
        for x in _flat(body):
            if x[0] == "=" and x[1][0] == "idx":
                name, subs = x[1][1], x[1][2]
                a = self.env.get(name)
                if not isinstance(a, str):
                    raise Unsupported("reduction into " + name)
                arr = m.arrays[a]
                cs = m.check_coords(arr, self.rel(name, a, [self.ev(y) for y in subs]))
                if (a, cs) not in cells:
                    cells[a, cs] = (arr, m.read(arr, cs))
        nw = len(m.cur["writes"])
        env0 = dict(self.env)
        ctx.push()
        m.folding = True
        try:
            k = ctx.fresh("k")
            kid = next(iter(pvars(k)))
            ctx.assume(GE(k, lo))
            ctx.assume(LE(k, hi))
            self.env[var] = k
            accs = {}
            for a in assigned:
                if before[a] is not None:
                    accs[a] = "acc:" + a
                    self.env[a] = fp.param(accs[a])
                else:
                    self.env[a] = UNKNOWN
            for i, (a, cs) in enumerate(cells):
                accs[a, cs] = f"acc:{i}:{a}"
                m.cur["writes"].append((a, cs, fp.param(accs[a, cs])))
            self.block(body)
            res = {}
            for a in assigned:
                if before[a] is not None:
                    res[a] = self.env[a]
            for key in cells:
                for a, cs, v in m.cur["writes"][nw:]:
                    if (a, cs) == key:
                        res[key] = v
                    elif (a, cs) not in cells:
                        raise Unsupported("element of a reduction")
            names = set(accs.values())
            terms = {}
            sub = {kid: padd(S, lo)}
            off = [x for x in self.env.values() if isinstance(x, Offsets)]

            def fpoly(p):
                for o in off:
                    p = o.subst(p, sub)
                return psubst(p, sub)
            for key, v in res.items():
                if not isinstance(v, fp.R):
                    raise Unsupported("reduction value")
                used = _params(v) & names
                if not used:
                    terms[key] = None     # a temporary
                    if key in cells:
                        raise Unsupported("overwritten element in a loop")
                    continue
                if used != {accs[key]}:
                    raise Unsupported("coupled reductions")
                t = _zero(v, accs[key])
                if accs[key] in _params(t) or not fp.equal_real(v, fp.add(fp.param(accs[key]), t), ctx.norm):
                    raise Unsupported("not a sum over the positions")
                ctx.stats.ob("reduction")
                ctx.stats.hit("rational-normal-form")
                terms[key] = fp.subst_node(t, fpoly, lambda a, cs, q: fp.rd(a, cs, q))
        finally:
            m.folding = False
            ctx.pop()
            del m.cur["writes"][nw:]
        self.env = env0
        count = padd(psub(hi, lo), 1)
        for a in assigned | {var}:
            self.env[a] = UNKNOWN
        for key, t in terms.items():
            if t is None:
                continue
            if key in cells:
                arr, v0 = cells[key]
                m.write(arr, key[1], fp.add(v0, fp.total(count, t)))
            else:
                self.env[key] = fp.add(before[key], fp.total(count, t))


def _flat(body):
    for x in body:
        yield x
        if x[0] == "if":
            for _, b in x[1]:
                yield from _flat(b)
        elif x[0] == "select":
            for _, b in x[2]:
                yield from _flat(b)
        elif x[0] == "do":
            yield from _flat(x[5])


def _constant(e):
    return e[0] == "int" or e[0] == "neg" and _constant(e[1])


def _names(e):
    out = set()
    if isinstance(e, tuple):
        if e and e[0] in ("var", "idx"):
            out.add(e[1])
        for x in e[1:]:
            if isinstance(x, tuple):
                out |= _names(x) if x and isinstance(x[0], str) else set().union(*[_names(y) for y in x]) if x else set()
    return out


def _params(r, out=None, seen=None):
    if out is None:
        out, seen = set(), set()
    if r.id in seen:
        return out
    seen.add(r.id)
    if r.k == "v":
        out.add(r.a[0])
    for x in r.a:
        if isinstance(x, fp.R):
            _params(x, out, seen)
    return out


def _zero(r, name):
    k = r.k
    if k == "v":
        return fp.ZERO if r.a[0] == name else r
    if k in "+-*/":
        a, b = _zero(r.a[0], name), _zero(r.a[1], name)
        return {"+": fp.add, "-": fp.sub, "*": fp.mul, "/": fp.div}[k](a, b)
    if k == "f":
        return fp.uf(r.a[0], *[_zero(x, name) for x in r.a[1:]])
    return r


# ---- the contracts --------------------------------------------------------------

class Sweep:
    def __init__(self, name, ffile, nd, kind, seq=False):
        self.name = name
        self.routine = name
        self.ffile = ffile
        self.nd = nd
        self.kind = kind
        self.seq = seq

    def files(self):
        """the sources the contract depends on"""
        return {self.ffile}

    def params(self):
        """[(name, kind)] in calling order; kinds i integer, r real, a array, o offsets"""
        D = range(self.nd)
        box = lambda p: [(f"{p}{e}{d}", "i") for d in D for e in ("lo", "hi")]
        k = self.kind
        if k in ("apply", "point"):
            pt = [(f"p{d}", "i") for d in D] if k == "point" else []
            return (box("") + pt + [("n", "i"), ("off", "o"), ("st", "a"), ("a", "r"), ("b", "r"), ("fgcw", "i"), ("f", "a"),
                                    ("ugcw", "i"), ("u", "a"), ("rgcw", "i"), ("r", "a")])
        if k == "adjust":
            b = [(f"lo{d}", "i") for d in D] + [(f"hi{d}", "i") for d in D]
            return b + [("m", "i"), ("off", "o"), ("n", "i"), ("st", "a"), ("ugcw", "i"), ("u", "a"), ("fgcw", "i"), ("f", "a")]
        if k in ("jacobi", "gs", "rb"):
            return (box("") + ([("color", "i")] if k == "rb" else []) + [("n", "i"), ("off", "o")] + box("s") + [("st", "a")]
                    + box("f") + [("f", "a")] + box("u") + [("u", "a")])
        if k[0] == "c":
            return box("") + [("color", "i")] + box("s") + [("st", "a")] + box("f") + [("f", "a")] + box("u") + [("u", "a")]
        if k == "b1":
            return box("") + [("st", "a"), ("fgcw", "i"), ("f", "a"), ("ugcw", "i"), ("u", "a")]
        return box("") + [("st", "a"), ("fgcw", "i"), ("f0", "a"), ("f1", "a"), ("ugcw", "i"), ("u0", "a"), ("u1", "a")]

    def entries(self, P):
        """length of the leading dimension of the stencil, or None"""
        return {"b1": None, "b2": 4, "c5": 5, "c7": 7, "c9": 9}.get(self.kind, P.get("n"))

    def writes(self):
        return {"apply": {"r"}, "point": {"r"}, "adjust": {"f"}, "b2": {"u0", "u1"}}.get(self.kind, {"u"})

    def ints(self):
        """free integer variables: (name, smallest value)"""
        out = []
        for d in range(self.nd):
            out += [(f"lo{d}", None), (f"N{d}", 1)]
        ns = [n for n, k in self.params() if k == "i"]
        for n in ns:
            if n.endswith("gcw"):
                out.append((n, 0))
        if "n" in ns:
            out.append(("n", 1 if self.kind in ("jacobi", "gs", "rb") else 0))
        if "m" in ns:
            out.append(("m", 0))
        if "color" in ns:
            out.append(("color", 0))
        if self.kind == "point":
            out += [(f"p{d}", None) for d in range(self.nd)]
        for p in "sfu":
            if f"{p}lo0" in ns:
                w = 1 if p == "u" and self.kind[0] == "c" else 0
                for d in range(self.nd):
                    out += [(f"{p}l{d}", w), (f"{p}h{d}", w)]
        return out

    def bind(self, X):
        """parameter values from the free variables (integers or polynomials)"""
        P = dict(X)
        for d in range(self.nd):
            P[f"hi{d}"] = padd(X[f"lo{d}"], padd(X[f"N{d}"], -1))
            for p in "sfu":
                if f"{p}l{d}" in X:
                    P[f"{p}lo{d}"] = psub(X[f"lo{d}"], X[f"{p}l{d}"])
                    P[f"{p}hi{d}"] = padd(P[f"hi{d}"], X[f"{p}h{d}"])
        return P

    def relations(self, X):
        out = []
        if self.kind == "adjust":
            out.append(LE(X["m"], X["n"]))
        if "color" in X:
            out.append(LE(X["color"], 1))
        if self.kind == "point":
            for d in range(self.nd):
                out += [GE(X[f"p{d}"], X[f"lo{d}"]), LT(X[f"p{d}"], padd(X[f"lo{d}"], X[f"N{d}"]))]
        return out

    def dims(self, n, P):
        D = range(self.nd)
        lo = [P[f"lo{d}"] for d in D]
        hi = [P[f"hi{d}"] for d in D]
        if n[0] in "fur" and f"{n[0]}gcw" in P:
            g = P[f"{n[0]}gcw"]
            lo = [psub(l, g) for l in lo]
            hi = [padd(h, g) for h in hi]
        elif n[0] in "sfu" and f"{n[0]}lo0" in P:
            lo = [P[f"{n[0]}lo{d}"] for d in D]
            hi = [P[f"{n[0]}hi{d}"] for d in D]
        out = [(l, padd(psub(h, l), 1)) for l, h in zip(lo, hi)]
        e = self.entries(P)
        if n == "st" and e is not None:
            out = [(0, e)] + out
        return out

    def offsets(self, P):
        D = range(self.nd)
        if "ugcw" in P:
            return [pscale(P["ugcw"], -1) for _ in D], [P["ugcw"] for _ in D]
        return [pscale(P[f"ul{d}"], -1) for d in D], [P[f"uh{d}"] for d in D]


def _all():
    out = []
    for d in (1, 2, 3):
        out += [Sweep(f"applystencilatpoint{d}d", f"applystencil{d}d", d, "point"),
                Sweep(f"applystencilonpatch{d}d", f"applystencil{d}d", d, "apply"),
                Sweep(f"celljacobi{d}d", f"cellsmooth{d}d", d, "jacobi"),
                Sweep(f"cellgs{d}d", f"cellsmooth{d}d", d, "gs", True),
                Sweep(f"cellrbgs{d}d", f"cellsmooth{d}d", d, "rb", True)]
    for d in (1, 2):
        out += [Sweep(f"celladjustsystemrhspatch{d}d", f"celladjustrhs{d}d", d, "adjust"),
                Sweep(f"cellblock1x1jacobi{d}d", f"cellblocksmooth{d}d", d, "b1"),
                Sweep(f"cellblock2x2jacobi{d}d", f"cellblocksmooth{d}d", d, "b2")]
    out += [Sweep("cells5rbgs2d", "cellsmooth2d", 2, "c5"), Sweep("cells9rbgs2d", "cellsmooth2d", 2, "c9", True),
            Sweep("cells7rbgs3d", "cellsmooth3d", 3, "c7")]
    return out


SWEEPS = _all()
BY_NAME = {s.name: s for s in SWEEPS}


def lookup(name):
    if not any(s.name.startswith("node") for s in SWEEPS):
        from . import cfrhs, nodes, twin
        for s in cfrhs.table() + nodes.table() + twin.table():
            SWEEPS.append(s)
            BY_NAME[s.name] = s
    return BY_NAME[name]


def routines_of(pattern):
    lookup(SWEEPS[0].name)
    return [s for s in SWEEPS if re.search(pattern, s.name)]


COMPACT = {"c5": [(-1, 0), (1, 0), (0, -1), (0, 1)],
           "c9": [(-1, 0), (1, 0), (0, -1), (0, 1), (-1, -1), (1, -1), (-1, 1), (1, 1)],
           "c7": [(-1, 0, 0), (1, 0, 0), (0, -1, 0), (0, 1, 0), (0, 0, -1), (0, 0, 1)]}


def omega(nd):
    from fractions import Fraction
    return Fraction(2, 3) if nd == 1 else Fraction(4, 5)


def contract(k, ctx, ms, P, off):
    """the state the contract prescribes, as one generic iteration over the box"""
    c = fp.const
    D = range(k.nd)

    def rd(a, cs):
        arr = ms.arrays[a]
        return ms.read(arr, tuple(ctx.norm(x) for x in cs))

    def total(x, first, count, scale=None):
        """sum of st(s,x) u(x+off(s)) over `count` entries from `first` on"""
        if not ctx.decide(GT(count, 0)):
            return fp.ZERO
        s = padd(S, first)
        un = "u@visit" if k.seq else "u"
        t = fp.mul(fp.rd("st", (s,) + x, ms.seq), fp.rd(un, tuple(padd(y, off.var(d, s)) for d, y in enumerate(x)), ms.seq))
        if scale is not None:
            t = fp.mul(scale, t)
        return fp.total(count, t)

    def cell(x):
        if k.kind in ("apply", "point"):
            ms.write(ms.arrays["r"], x, fp.add(fp.mul(fp.param("b"), rd("f", x)), total(x, 0, P["n"], fp.param("a"))))
        elif k.kind == "adjust":
            ms.write(ms.arrays["f"], x, fp.add(rd("f", x), total(x, 0, P["m"])))
        elif k.kind == "jacobi":
            r = fp.div(fp.sub(rd("f", x), total(x, 0, P["n"])), rd("st", (0,) + x))
            ms.write(ms.arrays["u"], x, fp.add(rd("u", x), fp.mul(c(omega(k.nd)), r)))
        elif k.kind in ("gs", "rb"):
            ms.write(ms.arrays["u"], x, fp.div(fp.sub(rd("f", x), total(x, 1, padd(P["n"], -1))), rd("st", (0,) + x)))
        elif k.kind in COMPACT:
            r = rd("f", x)
            for i, o in enumerate(COMPACT[k.kind]):
                r = fp.sub(r, fp.mul(rd("st", (i + 1,) + x), rd("u", tuple(padd(y, z) for y, z in zip(x, o)))))
            ms.write(ms.arrays["u"], x, fp.div(r, rd("st", (0,) + x)))
        elif k.kind == "b1":
            ms.write(ms.arrays["u"], x, fp.add(rd("u", x), fp.div(fp.mul(c(omega(k.nd)), rd("f", x)), rd("st", x))))
        else:
            a = [rd("st", (i,) + x) for i in range(4)]
            f = [rd("f0", x), rd("f1", x)]
            u = [rd("u0", x), rd("u1", x)]
            det = fp.sub(fp.mul(a[0], a[3]), fp.mul(a[1], a[2]))
            w = c(omega(k.nd))
            ms.write(ms.arrays["u0"], x, fp.add(u[0], fp.div(fp.mul(w, fp.sub(fp.mul(a[3], f[0]), fp.mul(a[1], f[1]))), det)))
            ms.write(ms.arrays["u1"], x, fp.add(u[1], fp.div(fp.mul(w, fp.sub(fp.mul(a[0], f[1]), fp.mul(a[2], f[0]))), det)))

    def run():
        if k.kind == "point":
            x = tuple(P[f"p{d}"] for d in D)
        else:
            x = tuple(reversed([ms.itervar(P[f"lo{d}"], padd(P[f"hi{d}"], 1)) for d in reversed(D)]))
        if "color" in P:
            t = padd(psub(x[0], P["lo0"]), P["color"])
            for y in x[1:]:
                t = padd(t, y)
            if not ctx.decide(EQ(ctx.divmod_floor(t, 2)[1], 0)):
                return
        cell(tuple(ctx.norm(y) for y in x))
    ms.region(run, "contract")


def visit_order(ctx, m, k):
    """the cells of the sweep are visited one after the other in ascending storage order"""
    phs = [p for p in m.phases if any(w[0] in m.seqarr for f in p.families for w in f.writes)]
    if len(phs) > 1:
        raise Unsupported("several sweeps")
    for p in phs:
        for f in p.families:
            ws = {cs for a, cs, _ in f.writes if a in m.seqarr}
            if not ws:
                continue
            if len(ws) > 1 or len(f.iter) != k.nd:
                raise Unsupported("order of the visits")
            deps = {}
            for v, kind, a, b in f.defs:
                deps[v] = set().union(*[deps.get(x, {x}) for y in (a, b) for x in pvars(y)])
            ids = []
            for it in f.iter:
                if isinstance(it, int) or len(it.t) != 1:
                    raise Unsupported("order of the visits")
                (mono, co), = it.t.items()
                if len(mono) != 1 or co != 1:
                    raise Unsupported("order of the visits")
                ids.append(mono[0])
            cs = list(reversed(next(iter(ws))))
            ctx.stats.ob("visit-order")
            for d, c in enumerate(cs):
                if isinstance(c, int):
                    raise Unsupported("order of the visits")
                inner = set(ids[d:])
                co = c.t.get((ids[d],))
                for mono in c.t:
                    if mono == (ids[d],):
                        continue
                    if any((deps.get(v, {v}) & inner) for v in mono):
                        raise Unsupported("order of the visits")
                if co is None or co <= 0:
                    raise Unsupported("order of the visits")
            ctx.stats.hit("normalisation")


def run_sweep(name, timeout_ms=4000):
    from .runner import CaseResult, routines
    k = lookup(name)
    res = CaseResult()
    t0 = time.time()
    stats = Stats()
    ctx = Ctx(stats, timeout_ms)
    res.stats = stats
    try:
        r = routines(k.ffile).get(k.routine)
        if r is None:
            raise Unsupported(f"routine {k.routine} not found")
        if len(r.params) != len(k.params()):
            raise Unsupported("parameters of " + k.name)
        res.called.add(k.routine)

        def path():
            X = {n: V(n) for n, _ in k.ints()}
            for n, lo in k.ints():
                if lo is not None:
                    ctx.assume(GE(X[n], lo))
            for a in k.relations(X):
                ctx.assume(a)
            stats.ob("precondition-satisfiable")
            if not ctx.dec and not ctx.feasible():
                raise Failed("vacuous", "precondition unsatisfiable")
            P = k.bind(X)
            lo, hi = k.offsets(P)
            off = Offsets(k.nd, P.get("m", P.get("n", 0)), lo, hi)
            if "n" in P:
                ctx.decide(GT(off.count, 1 if k.kind in ("gs", "rb") else 0))
            ws = k.writes()

            def machine():
                m = SweepMachine(ctx, ws if k.seq else ())
                for n, kd in k.params():
                    if kd == "a":
                        m.decl(ArrayDecl(n, k.dims(n, P), 8, n in ws))
                return m
            mc = machine()
            args = [fp.param(n) if kd == "r" else n if kd == "a" else off if kd == "o" else P[n] for n, kd in k.params()]
            for p, (n, kd) in zip(r.params, k.params()):
                ty, dims = r.types.get(p, (None, None))
                if (ty == "i") != (kd in "io") or (dims is not None) != (kd in "ao"):
                    raise Unsupported("type of " + p)
            fe = SweepExec(r, mc, args)
            for p, (n, kd) in zip(r.params, k.params()):
                if kd == "a":
                    fe.lower(p, n)
            if k.kind == "point" or k.kind in ("fold", "ntwin") and k.nd == 1:
                mc.region(fe.run, "point")
            else:
                fe.run()
            res.phases += len(mc.phases)
            res.steps += 1
            if k.seq:
                visit_order(ctx, mc, k)
            else:
                try:
                    state.race_check(ctx, mc, k.name)
                except Failed as e:
                    raise Unsupported(f"dependent iterations: {e.detail}")
            ms = machine()
            (k.contract if hasattr(k, "contract") else lambda *a: contract(k, *a))(ctx, ms, P, off)
            res.compared += state.compare_states(ctx, mc, ms, sorted(ws), k.name)
            return 1
        res.paths = len(ctx.explore(path))
        if res.paths == 0:
            raise Failed("vacuous", "no feasible path")
    except Failed as e:
        d = e.detail
        # sums are compared by a normal form: a difference is no refutation
        sums = e.name == "postcondition" and "sum(" in d
        res.status = "vacuous" if e.name == "vacuous" else "failed" if e.model is not None and not ctx.fpbranch and e.name not in ("divisor", "reference-defined") and not sums else "undecided"
        res.name = e.name
        res.detail = d
        res.model = e.model
    except (Unsupported, build.BuildError, fp.TooBig) as e:
        res.status = "unsupported"
        res.detail = f"{type(e).__name__}: {e}"
    res.wall = time.time() - t0
    return res
