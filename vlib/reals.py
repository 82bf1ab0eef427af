"""Branches of the code under contract on floating-point values.  A comparison
that is not between constants forks the path; the fork is recorded as an integer
key (>= 0: the comparison holds).  Here the comparisons of a path are read back
as conditions over the reals: to discharge values that are equal under them
only, to discard paths that no input takes, and to give an input that takes a
path that fails."""
import time
import z3
from . import fp
from .ctx import asubst, avars, Unsupported
from .poly import V, Poly, pvars, psubst

_OPS = {"eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}


def key(ctx, op, a, b, machine):
    """integer key of the comparison (a Poly), or its truth value"""
    if a.k == "c" and b.k == "c":
        return _OPS[op](a.a[0], b.a[0])
    v = V(f"fcmp[{op} {a.id} {b.id}]")
    ctx.fkeys[next(iter(pvars(v)))] = (op, a, b, machine)
    return v


def instantiate(ctx, g, sub, resolve):
    """guard g of a generic iteration, for the iteration given by sub"""
    ks = [v for v in avars(g) if v in ctx.fkeys]
    g = asubst(g, sub)
    if not ks:
        return g
    m = {}
    for v in ks:
        op, a, b, mach = ctx.fkeys[v]
        k = key(ctx, op, resolve(a), resolve(b), mach)
        if k is True or k is False:
            k = 0 if k else -1
        m[v] = k
    return asubst(g, m)


def path(ctx):
    """the comparisons that hold on the current path: [(op, truth, a, b)]"""
    out = []
    if not ctx.fkeys:
        return out
    from . import state
    for k, p in ctx.facts:
        if k != "ge" or isinstance(p, int):
            continue
        vs = pvars(p)
        if len(vs) != 1:
            continue
        v = next(iter(vs))
        if v not in ctx.fkeys:
            continue
        op, a, b, mach = ctx.fkeys[v]
        c = p.t.get((v,))
        if c == 1 and p.t.get((), 0) == 0:
            truth = True
        elif c == -1 and p.t.get((), 0) == -1:
            truth = False
        else:
            continue
        if mach is not None:
            ev = state.Evaluator(mach)
            try:
                a, b = (fp.subst_node(x, ctx.norm, lambda n, cs, s: ev.value(n, cs, s)) for x in (a, b))
            except Unsupported:
                continue    # one condition less
        out.append((op, truth, a, b))
    return out


class _Z:
    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.div = []
        self.names = {}

    def atom(self, name, shown=None):
        x = z3.Real(name)
        if shown:
            self.names[name] = shown
        return x

    def z(self, r):
        x = self.memo.get(r.id)
        if x is not None:
            return x
        k = r.k
        if k == "c":
            x = z3.RealVal(str(r.a[0]))
        elif k == "v":
            x = self.atom("p:" + r.a[0], r.a[0])
        elif k == "i":
            p = self.ctx.norm(r.a[0])
            x = z3.RealVal(p) if isinstance(p, int) else z3.Sum([
                z3.Product([z3.RealVal(c)] + [z3.Real(f"i:{v}") for v in m]) for m, c in p.t.items()])
        elif k in ("cell", "rd"):
            cs = tuple(fp._ckey(self.ctx.norm(c)) for c in r.a[1])
            x = self.atom(f"z:{r.a[0]}{cs}{r.a[2] if k == 'rd' else ''}")
        elif k == "f":
            x = self.atom(f"f:{r.id}")
        else:
            a, b = self.z(r.a[0]), self.z(r.a[1])
            if k == "/":
                self.div.append(b)
            x = a + b if k == "+" else a - b if k == "-" else a * b if k == "*" else a / b
        self.memo[r.id] = x
        return x


def _conds(Z, conds):
    out = []
    for op, truth, a, b in conds:
        x, y = Z.z(a), Z.z(b)
        c = x == y if op == "eq" else x < y if op == "lt" else x <= y
        out.append(c if truth else z3.Not(c))
    return out


def _check(ctx, Z, cs, ms=3000):
    s = z3.Solver()
    s.set("timeout", ms)
    for c in cs:
        s.add(c)
    for d in Z.div:
        s.add(d != 0)
    t = time.time()
    r = s.check()
    ctx.stats.queries += 1
    ctx.stats.solver_time += time.time() - t
    return r, s


def _leaves(r, out, seen):
    if r.id not in seen:
        seen.add(r.id)
        if r.k in ("v", "cell"):
            ((k,),) = fp.normal(r, {}, lambda p: p)[0]
            out[k] = r
        for x in r.a:
            if isinstance(x, fp.R):
                _leaves(x, out, seen)


def _eliminate(ctx, a, b, conds):
    """use each equality that has a scalar or cell x as a term c*x, c constant, and
    nowhere else, to replace x"""
    conds = list(conds)
    i = 0
    while i < len(conds):
        op, truth, x, y = conds[i]
        i += 1
        if op != "eq" or not truth:
            continue
        try:
            n, _ = fp.normal(fp.sub(x, y), {}, ctx.norm)
        except fp.TooBig:
            continue
        leaf = {}
        _leaves(x, leaf, set())
        _leaves(y, leaf, set())
        atoms = [k for m in n for k in m]
        if any(k not in leaf for k in atoms):
            continue
        pick = [k for k in atoms if atoms.count(k) == 1 and (k,) in n]
        if not pick:
            continue
        k = pick[0]
        v = fp.ZERO
        for m, c in n.items():
            if m != (k,):
                t = fp.const(-c / n[(k,)])
                for q in m:
                    t = fp.mul(t, leaf[q])
                v = fp.add(v, t)
        memo = {leaf[k].id: v}
        a, b = (fp.subst_node(q, ctx.norm, None, memo) for q in (a, b))
        conds = [(o, w, fp.subst_node(p, ctx.norm, None, memo), fp.subst_node(q, ctx.norm, None, memo))
                 for j, (o, w, p, q) in enumerate(conds) if j != i - 1]
        i = 0
    return a, b, conds


def entails_equal(ctx, a, b):
    conds = path(ctx)
    if not conds:
        return False
    from . import state
    nodes = state.merge_cells(ctx, [a, b] + [x for c in conds for x in c[2:]])
    a, b = nodes[:2]
    conds = [(c[0], c[1], nodes[2 + 2 * i], nodes[3 + 2 * i]) for i, c in enumerate(conds)]
    a, b, conds = _eliminate(ctx, a, b, conds)
    if fp.equal_real(a, b, ctx.norm):
        ctx.stats.hit("rational-normal-form")
        return True
    Z = _Z(ctx)
    cs = _conds(Z, conds)
    x, y = Z.z(a), Z.z(b)
    r, s = _check(ctx, Z, cs + [x != y])
    if r == z3.unsat:
        ctx.stats.hit("z3-reals")
        return True
    return False


def witness(ctx):
    """None: no input takes this path; otherwise values of the scalar arguments
    on it ({} when the solver has none)"""
    dec, ctx.dec = ctx.dec, None    # no further forks
    try:
        conds = path(ctx)
    finally:
        ctx.dec = dec
    if not conds:
        return {}
    Z = _Z(ctx)
    cs = _conds(Z, conds)
    r, s = _check(ctx, Z, cs)
    if r == z3.unsat:
        return None
    out = {}
    if r == z3.sat:
        m = s.model()
        for n, shown in Z.names.items():
            v = m[z3.Real(n)]
            try:
                out[shown] = float(v.as_fraction())
            except Exception:
                pass
    return out
