"""Proof context: facts over integer polynomials, entailment queries with
several back ends, and exhaustive path exploration."""
import os
import time
from fractions import Fraction
from .poly import (V, Poly, mk, padd, psub, pscale, pmul, psubst, pvars, var_id, var_name,
                   pexactdiv, pdivmod_lt, pcoef, pstr)
import z3


class Unsupported(Exception):
    """the verifier cannot treat this construct: never a violation"""


class Undecided(Exception):
    """a query came back unknown"""


class Infeasible(Exception):
    pass


class Failed(Exception):
    """an obligation is refuted / not provable"""

    def __init__(self, name, detail="", model=None):
        super().__init__(f"{name}: {detail}")
        self.name = name
        self.detail = detail
        self.model = model
        self.reals = None


class Stats:
    def __init__(self):
        self.by = {}
        self.n = 0
        self.solver_time = 0.0
        self.kinds = {}
        self.queries = 0
        self.log = None

    def hit(self, backend):
        self.by[backend] = self.by.get(backend, 0) + 1

    def ob(self, kind):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self.n += 1

    def merge(self, o):
        for k, v in o.by.items():
            self.by[k] = self.by.get(k, 0) + v
        for k, v in o.kinds.items():
            self.kinds[k] = self.kinds.get(k, 0) + v
        self.n += o.n
        self.solver_time += o.solver_time
        self.queries += o.queries


# ---- atoms -------------------------------------------------------------------
# ('ge', p): p >= 0   ('eq', p)   ('ne', p)   ('or', (atoms...)) ('and', (...))


def neg(a):
    k, p = a
    if k == "ge":
        return ("ge", psub(pscale(p, -1), 1))
    if k == "eq":
        return ("ne", p)
    if k == "ne":
        return ("eq", p)
    if k == "or":
        return ("and", tuple(neg(x) for x in p))
    if k == "and":
        return ("or", tuple(neg(x) for x in p))
    raise AssertionError(a)


def GE(a, b=0):
    return ("ge", psub(a, b))


def LE(a, b):
    return ("ge", psub(b, a))


def LT(a, b):
    return ("ge", psub(psub(b, a), 1))


def GT(a, b):
    return LT(b, a)


def EQ(a, b=0):
    return ("eq", psub(a, b))


def NE(a, b=0):
    return ("ne", psub(a, b))


def avars(a):
    k, p = a
    if k in ("or", "and"):
        r = set()
        for x in p:
            r |= avars(x)
        return r
    return pvars(p)


def asubst(a, sub):
    k, p = a
    if k in ("or", "and"):
        return (k, tuple(asubst(x, sub) for x in p))
    return (k, psubst(p, sub))


def astr(a):
    k, p = a
    if k in ("or", "and"):
        return "(" + f" {k} ".join(astr(x) for x in p) + ")"
    return f"{pstr(p)} {dict(ge='>=', eq='==', ne='!=')[k]} 0"


_zv = {}


def _zvar(v):
    r = _zv.get(v)
    if r is None:
        r = _zv[v] = z3.Int(var_name(v))
    return r


_zc = {}


def zpoly(p):
    if isinstance(p, int):
        return z3.IntVal(p)
    r = _zc.get(p)
    if r is not None:
        return r
    ts = []
    for m, c in p.t.items():
        if not m:
            ts.append(z3.IntVal(c))
            continue
        e = _zvar(m[0])
        for v in m[1:]:
            e = e * _zvar(v)
        ts.append(e if c == 1 else z3.IntVal(c) * e)
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    _zc[p] = r
    return r


def zatom(a):
    k, p = a
    if k == "or":
        return z3.Or([zatom(x) for x in p])
    if k == "and":
        return z3.And([zatom(x) for x in p])
    e = zpoly(p)
    if k == "ge":
        return e >= 0
    if k == "eq":
        return e == 0
    return e != 0


def _cofactor(m, d):
    """m / d for monomials, or None"""
    r = list(m)
    for v in d:
        if v not in r:
            return None
        r.remove(v)
    return tuple(r)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


class Ctx:
    def __init__(self, stats=None, timeout_ms=4000):
        self.stats = stats or Stats()
        self.facts = []
        self.rules = {}
        self.solver = z3.Solver()
        self.timeout = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.counter = 0
        self.cache = {}
        self.scopes = []
        self.ub = {}          # var id -> exclusive upper bound Poly
        self.split = {}       # splittable iteration variables: id -> True
        self.phase_vars = {}  # leaf/ghost bookkeeping
        self.divs = {}        # memoised floor divisions
        self.minmax = {}
        self.extents = []     # declared array extents (factor candidates)
        self.dec = None
        self.fpbranch = False
        self.ovf = None       # 32-bit arithmetic to be kept in range (see ovf.py)
        self.fkeys = {}       # comparisons of floating-point values (see reals.py)
        self.pos = 0
        self.pending = None
        self.dual = os.environ.get("VERIF_DUAL") == "1"
        self.lo = {}          # var id -> constant lower bound (from facts)

    # -- scoping
    def push(self):
        self.scopes.append((len(self.facts), dict(self.rules), self.counter, dict(self.cache),
                            dict(self.ub), dict(self.split), dict(self.divs), dict(self.minmax),
                            dict(self.lo)))
        self.solver.push()

    def pop(self):
        # the counter stays: names of generic iterations are never used again
        n, self.rules, _, self.cache, self.ub, self.split, self.divs, self.minmax, self.lo = self.scopes.pop()
        del self.facts[n:]
        self.solver.pop()

    def fresh(self, prefix):
        self.counter += 1
        return V(f"{prefix}!{self.counter}")

    # -- normalisation
    def norm(self, p):
        if isinstance(p, int) or not self.rules:
            return p
        for _ in range(50):
            q = psubst(p, self.rules)
            if q is p or q == p:
                return q
            p = q
            if isinstance(p, int):
                return p
        raise Unsupported("rewrite loop")

    def norm_atom(self, a):
        k, p = a
        if k in ("or", "and"):
            return (k, tuple(self.norm_atom(x) for x in p))
        return (k, self.norm(p))

    def assume(self, a):
        a = self.norm_atom(a)
        if a[0] in ("ge", "eq", "ne"):
            a = (a[0], self._strip(a[1]))
        c = self.const_atom(a)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self._add(a)
        k, p = a
        if k == "eq":
            self._orient(p)
        elif k == "ge":
            # closing a pair of opposite inequalities gives an equality
            np = pscale(p, -1)
            for (k2, q) in self.facts[:-1]:
                if k2 == "ge":
                    s = padd(q, p)
                    if isinstance(s, int) and s == 0:
                        self._orient(p)
                        break
        elif k == "and":
            for x in p:
                self.assume(x)

    def _add(self, a):
        self.facts.append(a)
        self.solver.add(zatom(a))
        self.cache = {k: v for k, v in self.cache.items() if v is True}
        k, p = a
        if k == "ge" and len(p.t) <= 2:
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and p.t[ms[0]] == 1:
                v = ms[0][0]
                lb = -p.t.get((), 0)
                if v not in self.lo or self.lo[v] < lb:
                    self.lo[v] = lb

    PRIORITY = ("x!", "c!", "q!", "r!", "k!", "k_", "mm!")

    def _orient(self, p):
        """turn p == 0 into a rewrite rule when some variable occurs linearly
        with unit coefficient; prefer ghost/generic variables"""
        if isinstance(p, int):
            return
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and c in (1, -1):
                v = m[0]
                if sum(1 for mm in p.t if v in mm) > 1:
                    continue
                nm = var_name(v)
                rank = 10
                for i, pre in enumerate(self.PRIORITY):
                    if nm.startswith(pre):
                        rank = i
                        break
                if best is None or (rank, nm) < best[0]:
                    best = ((rank, nm), v, c)
        if best is None:
            return
        _, v, c = best
        # c*v + rest == 0  -> v = -rest/c
        rest = mk({m: k for m, k in p.t.items() if m != (v,)})
        self.rules = {k: psubst(r, {v: pscale(rest, -c)}) for k, r in self.rules.items()}
        self.rules[v] = pscale(rest, -c)
        # keep old facts usable by the syntactic certificates
        self.cache = {}
        new = []
        for a in self.facts:
            b = self.norm_atom(a)
            if b != a and b[0] == "ge" and not isinstance(b[1], int):
                new.append(b)
        for b in new:
            if b not in self.facts:
                self._add(b)

    # -- entailment
    def const_atom(self, a):
        k, p = a
        if k == "or":
            rs = [self.const_atom(x) for x in p]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if k == "and":
            rs = [self.const_atom(x) for x in p]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
            return None
        if isinstance(p, int):
            return {"ge": p >= 0, "eq": p == 0, "ne": p != 0}[k]
        return None

    def cert(self, p):
        """p >= 0 by rewriting variables as lower bound + slack"""
        sub = {}
        for v in pvars(p):
            lb = self.lo.get(v)
            if lb is None:
                continue
            if lb:
                sub[v] = padd(Poly({(v,): 1}), lb)
        q = psubst(p, sub) if sub else p
        if isinstance(q, int):
            return q >= 0
        for m, c in q.t.items():
            if c < 0:
                return False
            for v in m:
                if v not in self.lo and m.count(v) % 2:
                    return False
        return True

    def cert2(self, p, depth=2):
        """p >= 0 using one or two of the inequality facts plus `cert`"""
        if self.cert(p):
            return True
        if depth == 0:
            return False
        negm = [m for m, c in p.t.items() if c < 0 and m] if not isinstance(p, int) else []
        tried = 0
        for k, f in reversed(self.facts):
            if k != "ge" or isinstance(f, int):
                continue
            # use f (times variables known to be nonnegative) to cancel a negative monomial
            for m in negm:
                for m2, c2 in f.t.items():
                    if c2 >= 0 or not m2:
                        continue
                    co = _cofactor(m, m2)
                    if co is None or any(self.lo.get(v, -1) < 0 for v in co):
                        continue
                    k1 = p.t[m]
                    if k1 % c2 == 0:
                        mult = k1 // c2
                        g = pmul(f, Poly({co: 1})) if co else f
                        r = psub(p, pscale(g, mult))
                        tried += 1
                        if isinstance(r, int):
                            if r >= 0:
                                return True
                        elif len(r.t) <= len(p.t) + 3 and self.cert2(r, depth - 1):
                            return True
            if tried > 40:
                break
        return False

    def prove(self, a):
        """True iff the facts entail a; False if refuted or unknown.  Sets
        self.last to 'unknown' when no back end decided."""
        a = self.norm_atom(a)
        c = self.const_atom(a)
        self.last = None
        if c is not None:
            self.stats.hit("normalisation")
            return c
        r = self.cache.get(a)
        if r is not None:
            if r is not True:
                self.last = r
            return r is True
        r = self._prove(a)
        self.cache[a] = True if r else (self.last or "refuted")
        return r

    def _strip(self, p):
        """p without the positive variables common to all its monomials"""
        if isinstance(p, int) or not p.t:
            return p
        ms = list(p.t)
        common = [v for v in set(ms[0]) if all(v in m for m in ms)]
        for v in common:
            if self.lo.get(v, 0) >= 1 or self.cert2(psub(Poly({(v,): 1}), 1)):
                t = {}
                for m, c in p.t.items():
                    m = list(m)
                    m.remove(v)
                    t[tuple(m)] = c
                p = mk(t)
                if isinstance(p, int):
                    return p
        from math import gcd
        g = 0
        for c in p.t.values():
            g = gcd(g, c)
        if g > 1:
            p = mk({m: c // g for m, c in p.t.items()})
        return p

    def _prove(self, a):
        k, p = a
        if k in ("ge", "eq", "ne") and not isinstance(p, int):
            q = self._strip(p)
            if isinstance(q, int):
                self.stats.hit("normalisation")
                return self.const_atom((k, q))
            if q is not p:
                p = q
                a = (k, p)
        if k == "ge":
            if self.cert2(p):
                if not self.dual:
                    self.stats.hit("certificate")
                    return True
        elif k == "ne":
            if self.cert2(psub(p, 1)) or self.cert2(psub(pscale(p, -1), 1)):
                if not self.dual:
                    self.stats.hit("certificate")
                    return True
        t = time.time()
        self.solver.push()
        self.solver.add(zatom(neg(a)))
        r = self.solver.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t
        self.solver.pop()
        if r == z3.unsat:
            self.stats.hit("z3")
            if self.dual:
                self._cvc5(a)
            return True
        if r == z3.unknown:
            if self._cvc5(a):
                return True
            self.last = "unknown"
            return False
        return False

    def _cvc5(self, a):
        from .cvc import cvc_entails
        t = time.time()
        r = cvc_entails(self.facts, self.rules, neg(a), 8.0)
        self.stats.solver_time += time.time() - t
        self.stats.queries += 1
        if r is True:
            self.stats.hit("cvc5")
            return True
        return False

    def feasible(self):
        t = time.time()
        r = self.solver.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t
        return r != z3.unsat

    def model(self, extra=(), small=None, prefer=()):
        """integer model of the facts plus extra atoms, or None"""
        s = z3.Solver()
        s.set("timeout", 10000)
        for f in self.facts:
            s.add(zatom(f))
        for v, r in self.rules.items():
            s.add(_zvar(v) == zpoly(r))
        for e in extra:
            s.add(zatom(self.norm_atom(e)))
        allv = set()
        for f in list(self.facts) + list(extra):
            stack = [f]
            while stack:
                k, p = stack.pop()
                if k in ("or", "and"):
                    stack.extend(p)
                else:
                    allv |= pvars(p)
        for bound in (4, 6, 9, 14, 30, None):
            s.push()
            if bound is not None:
                for v in allv:
                    s.add(_zvar(v) <= bound, _zvar(v) >= -bound)
            r = s.check()
            if r == z3.sat:
                m = s.model()
                out = {}
                for d in m.decls():
                    val = m[d]
                    try:
                        out[d.name()] = val.as_long()
                    except Exception:
                        pass
                s.pop()
                return out
            s.pop()
        return None

    # -- branching
    def decide(self, a):
        """truth value of atom a on the current path, forking if both are
        possible"""
        a = self.norm_atom(a)
        c = self.const_atom(a)
        if c is not None:
            return c
        if self.dec is None:
            raise Unsupported("branch outside exploration: " + astr(a))
        if self.pos < len(self.dec):
            val, forced = self.dec[self.pos]
            self.pos += 1
            if not forced:
                self.assume(a if val else neg(a))
            return val
        if self.prove(a):
            r = (True, True)
        else:
            u1 = self.last
            if self.prove(neg(a)):
                r = (False, True)
            else:
                self.pending.append(self.dec[:] + [(False, False)])
                r = (True, False)
        self.dec.append(r)
        self.pos += 1
        if not r[1]:
            self.assume(a if r[0] else neg(a))
        return r[0]

    def explore(self, fn, limit=4000):
        """run fn on every feasible path; returns list of results"""
        save = (self.dec, self.pos, self.pending)
        work = [[]]
        out = []
        n = 0
        try:
            while work:
                self.dec = work.pop()
                self.pos = 0
                self.pending = work
                self.push()
                om = self.ovf and self.ovf.enter()
                try:
                    x = fn()
                    if om:
                        self.ovf.flush(om[0])
                    out.append(x)
                except Infeasible:
                    pass
                except Failed as e:
                    if self.fkeys and e.name != "vacuous":
                        from . import reals
                        w = reals.witness(self)
                        if w is None:
                            continue
                        if e.reals is None:
                            e.reals = w
                    # a failure counts on a feasible path only; without a model
                    # of the path it is undecided (see run_case / run_lemma)
                    if e.model is None and e.name != "vacuous":
                        if self.feasible():
                            e.model = self.model()
                            raise
                    else:
                        raise
                finally:
                    if om:
                        self.ovf.leave(om)
                    self.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
        finally:
            self.dec, self.pos, self.pending = save
        return out

    # -- Euclidean division ---------------------------------------------------
    def _ok_rem(self, r, d):
        if isinstance(r, int) and isinstance(d, int):
            return 0 <= r < d
        return self.prove(GE(r)) and self.prove(LT(r, d))

    def divmod_floor(self, e, d, why="div"):
        """floor quotient and remainder of e by d (d > 0 must be provable)"""
        e = self.norm(e)
        d = self.norm(d)
        if isinstance(d, int):
            if d <= 0:
                raise Unsupported(f"division by non-positive {d}")
            if isinstance(e, int):
                return e // d, e % d
            if d == 1:
                return e, 0
        elif not self.prove(GT(d, 0)):
            if self.last == "unknown":
                raise Unsupported(f"division by {pstr(d)}: sign undecided")
            raise Failed("division-by-positive", f"{pstr(d)} > 0 not provable ({why})", self.model([LE(d, 0)]))
        key = (e, d)
        if key in self.divs:
            return self.divs[key]
        # 0 <= e < d ?
        cands = []
        if isinstance(d, int):
            q = mk({m: c // d for m, c in e.t.items() if c // d})
            cands.append(q)
            q2 = mk({m: (c + d // 2) // d for m, c in e.t.items() if (c + d // 2) // d})
            cands.append(q2)
        else:
            if not isinstance(e, int):
                for lt in sorted(d.t, key=lambda m: (-len(m), m)):
                    if not lt:
                        continue
                    r = pdivmod_lt(e, d, lt)
                    if r is not None:
                        cands.append(r[0])
            cands.append(0)
        seen = set()
        for delta in (0, -1, 1, -2, 2):
            for q in cands:
                qq = padd(q, delta)
                if qq in seen:
                    continue
                seen.add(qq)
                r = self.norm(psub(e, pmul(qq, d)))
                if self._ok_rem(r, d):
                    self.stats.hit("euclid")
                    self.divs[key] = (qq, r)
                    return qq, r
        # split a ghost iteration variable
        if not isinstance(e, int):
            for v in sorted(pvars(e)):
                if v in self.split and e.t.get((v,)) == 1 and sum(1 for m in e.t if v in m) == 1:
                    rest = psub(e, Poly({(v,): 1}))
                    if isinstance(rest, int) and rest == 0:
                        return self._split(v, e, d)
        # nested division: e = f*a + b with 0 <= b < f and d = f*g  =>  e div d = a div g
        if not isinstance(d, int) and not isinstance(e, int):
            for f in self._factors(d):
                g = pexactdiv(d, f)
                if g is None or isinstance(g, int):
                    continue
                if not (self.prove(GT(f, 0)) and self.prove(GT(g, 0))):
                    continue
                ab = self._try_div(e, f)
                if ab is None:
                    continue
                a, b = ab
                if isinstance(a, int) and a == 0:
                    continue
                q, r = self.divmod_floor(a, g, why)
                e2 = self.norm(e)
                d2 = self.norm(d)
                rr = self.norm(psub(e2, pmul(q, d2)))
                self.divs[key] = (q, rr)
                self.stats.hit("euclid")
                if (e2, d2) != key:
                    self.divs[(e2, d2)] = (q, rr)
                return q, rr
        # same quotient up to a multiple of the divisor
        for (e2, d2), (q2, r2) in list(self.divs.items()):
            if d2 != d:
                continue
            diff = self.norm(psub(e, e2))
            m = pexactdiv(diff, d)
            if m is not None:
                q = padd(q2, m)
                self.divs[key] = (q, r2)
                self.stats.hit("euclid")
                return q, r2
        # uninterpreted Euclidean quotient
        q = self.fresh("q")
        r = psub(e, pmul(q, d))
        self.assume(GE(r))
        self.assume(LT(r, d))
        if self.prove(GE(e)):
            self.assume(GE(q))
        # floor division by the same divisor is monotone
        for (e2, d2), (q2, r2) in list(self.divs.items()):
            if d2 == d:
                diff = psub(e2, e)
                if self.prove(GE(diff)):
                    self.assume(GE(q2, q))
                elif self.prove(LE(diff, 0)):
                    self.assume(LE(q2, q))
        self.divs[key] = (q, r)
        return q, r

    def _factors(self, d):
        """candidate factors of the divisor d: its monomial content, earlier
        divisors and declared extents"""
        out = []
        common = None
        for m in d.t:
            common = set(m) if common is None else common & set(m)
        for v in sorted(common or ()):
            x = Poly({(v,): 1})
            out.append(x)
            q = pexactdiv(d, x)
            if q is not None:
                out.append(q)
        for (_, f) in list(self.divs) + [(None, f) for f in self.extents]:
            if not isinstance(f, int) and f != d and f not in out:
                f = self.norm(f)
                if isinstance(f, int):
                    continue
                q = pexactdiv(d, f)
                if q is not None:
                    out.append(f)
                    if not isinstance(q, int):
                        out.append(q)
        res = []
        for f in out:
            if f not in res:
                res.append(f)
        return res

    def _try_div(self, e, d):
        """quotient/remainder without introducing new symbols, or None"""
        if isinstance(d, int) or isinstance(e, int):
            return None
        if (e, d) in self.divs:
            return self.divs[(e, d)]
        for lt in sorted(d.t, key=lambda m: (-len(m), m)):
            if not lt or d.t[lt] not in (1, -1):
                continue
            r = pdivmod_lt(e, d, lt)
            if r is None:
                continue
            for delta in (0, -1, 1):
                q = padd(r[0], delta)
                rem = self.norm(psub(e, pmul(q, d)))
                if self._ok_rem(rem, d):
                    return q, rem
        return None

    def _split(self, v, e, d):
        """v |-> q*d + r with fresh ghost q, r"""
        U = self.ub.get(v)
        q = self.fresh("c")
        r = self.fresh("c")
        qi = next(iter(pvars(q)))
        ri = next(iter(pvars(r)))
        self.assume(GE(q))
        self.assume(GE(r))
        self.assume(LT(r, d))
        if U is not None:
            E = pexactdiv(self.norm(U), d)
            if E is not None:
                self.assume(LT(q, E))
                self.ub[qi] = E
            else:
                self.assume(LT(padd(pmul(q, d), r), U))
        self.ub[ri] = d
        self.split[qi] = True
        self.split[ri] = True
        del self.split[v]
        nv = padd(pmul(q, d), r)
        self.rules = {k: psubst(x, {v: nv}) for k, x in self.rules.items()}
        self.rules[v] = nv
        self.solver.add(_zvar(v) == zpoly(nv))
        self.cache = {}
        self.divs[(e, d)] = (q, r)
        return q, r

    def sdiv(self, e, d):
        """C truncating division and remainder"""
        e = self.norm(e)
        d = self.norm(d)
        if isinstance(e, int) and isinstance(d, int):
            if d == 0:
                raise Failed("division-by-zero", "")
            q = tdiv(e, d)
            return q, e - q * d
        if isinstance(d, int) and d < 0:
            q, r = self.sdiv(e, -d)
            return pscale(q, -1), r
        if isinstance(d, int) and d == 0:
            raise Failed("division-by-zero", "")
        if not isinstance(d, int) and not self.prove(GT(d, 0)):
            if not self.prove(NE(d, 0)):
                raise Failed("division-by-zero", f"divisor {pstr(d)} may be zero",
                             self.model([EQ(d, 0)]))
            if self.decide(GT(d, 0)):
                pass
            else:
                q, r = self.sdiv(e, pscale(d, -1))
                return pscale(q, -1), r
        if self.decide(GE(e)):
            return self.divmod_floor(e, d)
        q, r = self.divmod_floor(pscale(e, -1), d)
        return pscale(q, -1), pscale(r, -1)

    # -- min/max --------------------------------------------------------------
    def maxmin(self, kind, a, b):
        a = self.norm(a)
        b = self.norm(b)
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b) if kind == "max" else min(a, b)
        d = psub(a, b)
        if kind == "min":
            d = pscale(d, -1)
        # d >= 0 -> a
        if self.prove(("ge", d)):
            return a
        if self.prove(("ge", pscale(d, -1))):
            return b
        key = (kind, frozenset((a, b)))
        r = self.minmax.get(key)
        if r is not None:
            return r
        m = self.fresh("mm")
        if kind == "max":
            self.assume(GE(m, a))
            self.assume(GE(m, b))
        else:
            self.assume(LE(m, a))
            self.assume(LE(m, b))
        self._add(("or", (EQ(m, a), EQ(m, b))))
        self.minmax[key] = m
        return m
