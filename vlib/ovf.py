"""Machine integers.  Everywhere else integers are mathematical; here the 32-bit
sums, differences, products and truncations of the code under contract are shown
to stay in range, for array sizes and indices up to a limit, so that the
mathematical reading is the machine's."""
import time
import z3
from .ctx import GE, LE, Failed, Unsupported, _zvar, zpoly, zatom
from .poly import Poly, mk, padd, psub, pmul, pscale, pvars, pstr, pexactdiv, pdivmod_lt, var_name

VAR = 1 << 24     # indices, ghost widths, extents, steps
TOTAL = 1 << 27   # elements of an array
MAX = (1 << 31) - 1
TOP = 1 << 62


class Overflow:
    def __init__(self, ctx):
        self.ctx = ctx
        self.shapes = []      # extents, slowest first
        self.lows = {}
        self.rec = []
        self.done = {}
        self.names = {}

    def shape(self, ext, lows=None):
        """the product of ext is at most TOTAL, and so it is with an extent replaced
        by the lower index of its dimension"""
        norm = self.ctx.norm
        for e, l in zip(ext, lows or ()):
            e, l = norm(e), norm(l)
            if l not in self.lows.setdefault(e, []) and not isinstance(l, int):
                self.lows[e].append(l)
        ext = [e for e in (norm(e) for e in ext) if not (isinstance(e, int) and abs(e) == 1)]
        if ext not in self.shapes:
            self.shapes.append(ext)
            self.done = {}

    # -- bounds on magnitudes
    def var(self, v, depth):
        ctx = self.ctx
        r = self.names.get(v)
        if r is not None:
            return r
        nm = var_name(v)
        b = VAR
        if "!" in nm and depth < 8:
            self.names[v] = TOP     # guard against cycles
            b = TOP
            if v in ctx.ub:
                b = min(b, self.mag(ctx.norm(ctx.ub[v]), depth + 1))
            pv = Poly({(v,): 1})
            for (e, d), (q, r) in ctx.divs.items():
                if q == pv:
                    b = min(b, self.mag(ctx.norm(e), depth + 1) + 1)
                if r == pv:
                    b = min(b, self.mag(ctx.norm(d), depth + 1))
            for (_, ab), m in ctx.minmax.items():
                if m == pv:
                    b = min(b, max(self.mag(ctx.norm(x), depth + 1) for x in ab))
            if nm.startswith(("x!", "o!")) or b == TOP and nm.startswith(("k!", "c!")) is False and nm[0] not in "qm":
                b = VAR
            del self.names[v]
            if b == TOP:
                return b
        self.names[v] = b
        return b

    def mono(self, p, depth):
        """sum of the monomials' magnitudes"""
        t = 0
        for m, c in p.t.items():
            x = abs(c)
            for v in m:
                x *= self.var(v, depth)
                if x >= TOP:
                    break
            if x > MAX and len(m) > 1 and self.shapes:
                x = min(x, self.box(mk({m: 1})) * abs(c))
            t += x
        return min(t, TOP)

    def unit(self, e):
        """|e| >= 1"""
        if isinstance(e, int):
            return e != 0
        r = self.done.get(("unit", e))
        if r is None:
            r = self.done[("unit", e)] = self.ctx.prove(GE(e, 1)) or self.ctx.prove(LE(e, -1))
        return r

    def digits(self, p):
        """the bound that p's expansion over the weights of some shape gives"""
        ctx = self.ctx
        best = TOP
        for ext in self.parts():
            w = 1
            ws = []
            for e in reversed(ext):
                ws.append((e, w))
                w = pmul(w, e)
            rest = p
            tot = 0
            # the whole size first (one past the end), then every weight
            big = True      # the slower extents are no zeros
            for e, x in [(1, w)] + ws[::-1]:
                if isinstance(rest, int) and rest == 0:
                    break
                if not big:
                    tot = TOP
                    break
                if isinstance(x, int):
                    t = {(): rest} if isinstance(rest, int) else rest.t
                    d = mk({m: c // x for m, c in t.items() if c % x == 0})
                    rest = mk({m: c for m, c in t.items() if c % x})
                else:
                    lt = self.lead(x, ext)
                    r = pdivmod_lt(rest, x, lt)
                    if r is None:
                        tot = TOP
                        break
                    d, rest = r
                k = self.within(d, e)
                if k is None:
                    tot = TOP
                    break
                tot += k * TOTAL
                big = self.unit(e)
            else:
                if not (isinstance(rest, int) and rest == 0):
                    tot = TOP
            best = min(best, tot)
            if best <= MAX:
                break
        return best

    def lead(self, x, ext):
        """a leading monomial of the weight x: of a variable of each extent that
        occurs in the fewest others"""
        key = ("lead", x, tuple(ext))
        if key in self.names:
            return self.names[key]
        occ = {}
        for e in ext:
            for v in set() if isinstance(e, int) else pvars(e):
                occ[v] = occ.get(v, 0) + 1
        top = max(map(len, x.t))
        ms = [m for m in x.t if len(m) == top]
        r = min(ms, key=lambda m: (abs(x.t[m]), sum(occ.get(v, 0) for v in m), [var_name(v) for v in m]))
        self.names[key] = r
        return r

    def parts(self):
        """the shapes and their sub-shapes (no larger, as the other extents are
        at least one)"""
        for ext in self.shapes:
            yield ext
        for ext in self.shapes:
            n = len(ext)
            if n > 2 and all(self.unit(e) for e in ext):
                for k in range(n - 1, 0, -1):
                    for i in range(n - k + 1):
                        yield ext[i:i + k]

    def within(self, d, e):
        """a small k with |d| <= k*e"""
        d = self.ctx.norm(d)
        if isinstance(d, int):
            return abs(d) if self.unit(e) else 0 if d == 0 else None
        if d == e or d == pscale(e, -1):
            return 1
        for k in (1, 2, 3):
            if self.ctx.prove(GE(pscale(e, k), d)) and self.ctx.prove(GE(padd(d, pscale(e, k)))):
                return k
        for l in self.lows.get(e, ()):
            if d == l or d == pscale(l, -1):
                return 1
            x = psub(d, l)
            for k in (1, 2, 3):
                if self.ctx.prove(GE(pscale(e, k), x)) and self.ctx.prove(GE(padd(x, pscale(e, k)))):
                    return k + 1
        return None

    def box(self, p):
        """a product of extents, each at most an extent of one shape"""
        ctx = self.ctx
        if len(p.t) < 1:
            return TOP
        cand = []
        key = ("box", p)
        if key in self.done:
            return self.done[key]
        r = self.done[key] = self._box(p, cand)
        return r

    def _box(self, p, cand):
        ctx = self.ctx
        for e in ctx.extents + [e for x in self.shapes for e in x] + [d for _, d in ctx.divs] + list(ctx.ub.values()):
            e = ctx.norm(e)
            if not isinstance(e, int) and e not in cand:
                cand.append(e)
        cand.sort(key=lambda e: max(len(m) for m in e.t))
        fs = []
        rest = p
        go = True
        if len(p.t) == 1:
            (m, rest), = p.t.items()
            fs = [Poly({(v,): 1}) for v in m]
        while go and not isinstance(rest, int):
            go = False
            for e in cand:
                if max(len(m) for m in e.t) > 1:
                    continue
                q = pexactdiv(rest, e)
                if q is not None:
                    fs.append(e)
                    rest = q
                    go = True
                    break
        if not isinstance(rest, int):
            if max(len(m) for m in rest.t) > 1:
                return TOP
            fs.append(rest)
            rest = 1
        if abs(rest) > 4:
            return TOP
        for ext in self.shapes:
            free = list(ext)
            ok = True
            k = abs(rest)
            for f in fs:
                for e in list(free):
                    j = self.within(f, e)
                    if j is not None:
                        free.remove(e)
                        k *= j
                        break
                else:
                    ok = False
                    break
            if ok and all(self.unit(e) for e in free):
                return k * TOTAL
        return TOP

    def mag(self, p, depth=0):
        if isinstance(p, int):
            return abs(p)
        r = self.done.get(p)
        if r is not None:
            return r
        b = self.mono(p, depth)
        if b > MAX and self.shapes:
            b = min(b, self.digits(p))
        if b > MAX and self.shapes:
            b = min(b, self.box(p))
        if b > MAX and len(p.t) > 1 and depth < 4:
            # a constant apart
            c = p.t.get((), 0)
            if c:
                b = min(b, self.mag(psub(p, c), depth + 1) + abs(c))
        if depth == 0 or b <= MAX:
            self.done[p] = b
        return b

    # -- obligations
    def record(self, p, what):
        if isinstance(p, int):
            if not -MAX - 1 <= p <= MAX:
                raise Failed("overflow", f"{what}: {p} is no 32-bit integer", {})
            return
        self.rec.append((p, what))

    def enter(self):
        """a path begins: what is recorded on it is decided at its end, under all
        its conditions"""
        return len(self.rec), list(self.shapes), dict(self.done), dict(self.names), {e: list(l) for e, l in self.lows.items()}

    def leave(self, st):
        n, self.shapes, self.done, self.names, self.lows = st
        del self.rec[n:]

    def __bool__(self):
        return True

    def flush(self, start):
        ctx = self.ctx
        seen = set()
        todo, self.rec = self.rec[start:], self.rec[:start]
        for p, what in todo:
            if (p, what) in seen:
                continue
            seen.add((p, what))
            q = ctx.norm(p)
            ctx.stats.ob("overflow")
            if self.mag(q) <= MAX:
                ctx.stats.hit("magnitude")
                continue
            self.refute(q, what)

    def refute(self, p, what):
        ctx = self.ctx
        s = z3.Solver()
        s.set("timeout", 4000)
        t = time.time()
        for f in ctx.facts:
            s.add(zatom(f))
        vs = set(pvars(p))
        for f in ctx.facts:
            if not isinstance(f[1], tuple):
                vs |= pvars(f[1]) if not isinstance(f[1], int) else set()
        for v in vs:
            if "!" not in var_name(v):
                s.add(_zvar(v) <= VAR, _zvar(v) >= -VAR)
        for v, r in ctx.rules.items():
            s.add(_zvar(v) == zpoly(r))
        for ext in self.shapes:
            w = 1
            for e in ext:
                w = pmul(w, e)
            if not isinstance(w, int):
                s.add(zpoly(w) <= TOTAL, zpoly(w) >= -TOTAL)
            for i, e in enumerate(ext):
                for l in self.lows.get(e, ()):
                    w = l
                    for j, f in enumerate(ext):
                        if j != i:
                            w = pmul(w, f)
                    if not isinstance(w, int):
                        s.add(zpoly(w) <= TOTAL, zpoly(w) >= -TOTAL)
        z = zpoly(p)
        s.add(z3.Or(z > MAX, z < -MAX - 1))
        r = s.check()
        ctx.stats.queries += 1
        ctx.stats.solver_time += time.time() - t
        if r == z3.unsat:
            ctx.stats.hit("z3")
            return
        if r == z3.sat:
            m = s.model()
            out = {}
            for d in m.decls():
                try:
                    out[d.name()] = m[d].as_long()
                except Exception:
                    pass
            raise Failed("overflow", f"{what}: {pstr(p)} does not fit in 32 bits", out)
        raise Unsupported(f"overflow undecided: {what}: {pstr(p)[:300]}")
