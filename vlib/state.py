"""Comparison of the final array states of two executions (code and contract):
weakest-precondition style backward evaluation of a generic cell."""
from .poly import Poly, mk, V, padd, psub, pscale, pmul, pvars, psubst, pstr, var_name
from .ctx import (Ctx, Unsupported, Failed, Infeasible, GE, LE, LT, GT, EQ, NE, neg, astr, avars, asubst)
from . import fp, reals


class Evaluator:
    def __init__(self, machine):
        self.m = machine
        self.ctx = machine.ctx
        self.memo = {}

    def solve(self, fam, coords, xs):
        """substitution for the iteration variables making coords == xs, plus
        residual equations; None if trivially impossible"""
        ctx = self.ctx
        sub = {}
        eqs = []
        todo = list(zip(coords, xs))
        defvars = {d[0] for d in fam.defs}
        progress = True
        vars_ = set(fam.vars)
        while todo and progress:
            progress = False
            for c, x in list(todo):
                d = psub(psubst(c, sub), x)
                if isinstance(d, int):
                    if d != 0:
                        return None
                    todo.remove((c, x))
                    progress = True
                    continue
                cand = None
                free = [v for v in pvars(d) if v in vars_ and v not in sub]
                for v in sorted(free):
                    k = d.t.get((v,))
                    if k in (1, -1) and sum(1 for m in d.t if v in m) == 1:
                        cand = (v, k)
                        break
                if cand is None:
                    continue
                v, k = cand
                rest = psub(d, pscale(Poly({(v,): 1}), k))
                val = pscale(rest, -k)
                if pvars(val) & defvars:
                    continue
                sub = {a: psubst(b, {v: val}) for a, b in sub.items()}
                sub[v] = val
                todo.remove((c, x))
                progress = True
        for c, x in todo:
            eqs.append(("eq", psub(c, x)))
        left = [v for v in fam.vars if v not in sub]
        return sub, eqs, left

    def pin(self, fam, left, sub, eqs=()):
        """iteration variables not fixed by the coordinates: acceptable only
        when the guards force a unique value"""
        ctx = self.ctx
        for v in left:
            done = False
            lbs = []
            ubs = []
            for k, p in fam.guards:
                if k not in ("ge", "eq") or isinstance(p, int):
                    continue
                p = psubst(p, sub)
                if isinstance(p, int):
                    continue
                c = p.t.get((v,))
                if c in (1, -1) and sum(1 for m in p.t if v in m) == 1:
                    rest = psub(p, pscale(Poly({(v,): 1}), c))
                    if pvars(rest) & set(left):
                        continue
                    if k == "eq":
                        lbs.append(pscale(rest, -c))
                        ubs.append(pscale(rest, -c))
                    elif c == 1:
                        lbs.append(pscale(rest, -1))
                    else:
                        ubs.append(rest)
            for l in lbs:
                for u in ubs:
                    if ctx.prove(EQ(l, u)):
                        sub = {a: psubst(b, {v: l}) for a, b in sub.items()}
                        sub[v] = l
                        done = True
                        break
                if done:
                    break
            if not done:
                # 0 <= A - d*v < d  pins v to A div d
                gs = [psubst(p, sub) for k, p in fam.guards if k == "ge" and not isinstance(p, int)]
                gs = [p for p in gs if not isinstance(p, int) and v in pvars(p)]
                for p1 in gs:
                    for p2 in gs:
                        d = padd(padd(p1, p2), 1)
                        if isinstance(d, int) and d <= 0 or v in pvars(d):
                            continue
                        A = padd(p1, pmul(d, Poly({(v,): 1})))
                        if v in pvars(A) or pvars(A) & set(left):
                            continue
                        if not ctx.prove(GT(d, 0)):
                            continue
                        l = ctx.divmod_floor(A, d)[0]
                        sub = {a: psubst(b, {v: l}) for a, b in sub.items()}
                        sub[v] = l
                        done = True
                        break
                    if done:
                        break
            if not done:
                # d*v == A with d > 0 pins v to A div d (the equation stays a condition)
                for k, p in eqs:
                    p = psubst(p, sub)
                    if isinstance(p, int) or v not in pvars(p):
                        continue
                    if any(m.count(v) > 1 for m in p.t):
                        continue
                    d = mk({tuple(x for x in m if x != v): c for m, c in p.t.items() if v in m})
                    A = mk({m: -c for m, c in p.t.items() if v not in m})
                    if not ctx.prove(GT(d, 0)):
                        if not ctx.prove(LT(d, 0)):
                            continue
                        d, A = pscale(d, -1), pscale(A, -1)
                    if pvars(A) & set(left) or pvars(d) & set(left):
                        continue
                    l = ctx.divmod_floor(A, d)[0]
                    sub = {a: psubst(b, {v: l}) for a, b in sub.items()}
                    sub[v] = l
                    done = True
                    break
            if not done:
                raise Unsupported(f"iteration variable {var_name(v)} not determined by the written cell")
        return sub

    def member(self, fam, coords, xs, seq):
        """does some iteration of fam write cell xs?  (decides, forking)
        returns the substitution or None"""
        ctx = self.ctx
        for c, x in zip(coords, xs):
            d = psub(c, x)
            if isinstance(d, int) and d != 0:
                return None
        r = self.solve(fam, coords, xs)
        if r is None:
            return None
        sub, eqs, left = r
        sub = dict(sub)
        defs = list(fam.defs)
        if left:
            # definitions over what is known already help to find the rest
            open_ = set(left)
            for d in list(defs):
                var, kind, a, b = d
                a, b = psubst(a, sub), psubst(b, sub)
                if (pvars(a) | pvars(b)) & open_:
                    open_.add(var)
                    continue
                val = self.guarded_div(fam, a, b, sub) if kind == "q" else ctx.maxmin(kind, a, b)
                sub = {x: psubst(y, {var: val}) for x, y in sub.items()}
                sub[var] = val
                eqs = [(g, psubst(p, {var: val})) for g, p in eqs]
                defs.remove(d)
            sub = dict(self.pin(fam, left, sub, eqs))
        for var, kind, a, b in defs:
            a = psubst(a, sub)
            b = psubst(b, sub)
            if kind == "q":
                sub[var] = self.guarded_div(fam, a, b, sub)
            else:
                sub[var] = ctx.maxmin(kind, a, b)
        for g in eqs + [asubst(g, {}) for g in fam.guards]:
            g = ctx.norm_atom(reals.instantiate(ctx, g, sub, lambda n: self.resolve(n, sub, seq)))
            if not ctx.decide(g):
                return None
        return sub

    def guarded_div(self, fam, a, b, sub):
        return self.ctx.divmod_floor(a, b)[0]

    def value(self, arr, xs, seq):
        ctx = self.ctx
        xs = tuple(ctx.norm(x) for x in xs)
        for ph in reversed(self.m.phases):
            if ph.seq > seq:
                continue
            for fam in ph.families:
                for a, cs, node in reversed(fam.writes):
                    if a != arr:
                        continue
                    if fp.SUMVARS and any(pvars(x) & fp.SUMVARS for x in xs if not isinstance(x, int)):
                        raise Unsupported("sum over elements written before")
                    sub = self.member(fam, cs, xs, ph.seq - 1)
                    if sub is not None:
                        return self.resolve(node, sub, ph.seq - 1)
        return fp.cell(arr, tuple(ctx.norm(x) for x in xs))

    def resolve(self, node, sub, seq):
        ctx = self.ctx
        np = lambda p: ctx.norm(psubst(p, sub))
        return fp.subst_node(node, np, lambda a, cs, s: self.value(a, cs, min(seq, s)))


def norm_node(ctx, node):
    return fp.subst_node(node, ctx.norm, None)


def merge_cells(ctx, nodes):
    """rewrite cells with provably equal coordinates to one representative"""
    cells = {}
    for n in nodes:
        for c in fp.reads(n):
            cells.setdefault(c.a[0], [])
            if c not in cells[c.a[0]]:
                cells[c.a[0]].append(c)
    rep = {}
    for arr, lst in cells.items():
        reps = []
        for c in lst:
            for r in reps:
                same = True
                for x, y in zip(c.a[1], r.a[1]):
                    d = ctx.norm(psub(x, y))
                    if isinstance(d, int):
                        if d:
                            same = False
                            break
                    elif not ctx.prove(("eq", d)):
                        same = False
                        break
                if same:
                    rep[c.id] = r
                    break
            else:
                reps.append(c)
    memo = dict(rep)
    out = []
    for n in nodes:
        out.append(fp.subst_node(n, ctx.norm, None, memo))
    return out


def divisor_check(ctx, a, b, label):
    """no quotient of a (the code) is undefined where b (its contract) is defined;
    mesh widths are positive"""
    a = norm_node(ctx, a)
    b = norm_node(ctx, b)
    if not fp.divisors(a):
        return
    ctx.stats.ob("divisor")

    def nonzero(x):
        return x[0] == "v" and x[1][0] == "h" or x[0] == "z" and x[1] == "dx"

    def positive(n):
        if any(y[0] != "I" for m in n for y in m) or any(c.denominator != 1 for c in n.values()):
            return False
        p = mk({tuple(y[1] for y in m): int(c) for m, c in n.items()})
        return p > 0 if isinstance(p, int) else ctx.prove(NE(p, 0))
    d = fp.undefined_more_often(a, b, ctx.norm, nonzero, positive)
    if d is not None:
        a, b = merge_cells(ctx, [a, b])
        d = fp.undefined_more_often(a, b, ctx.norm, nonzero, positive)
    if d is not None:
        raise Failed("divisor", f"{label}: {fp.rstr(d)[:300]} may be zero where the contract's {fp.rstr(b)[:300]} is defined")
    ctx.stats.hit("rational-normal-form")


def nodes_equal(ctx, a, b):
    a = norm_node(ctx, a)
    b = norm_node(ctx, b)
    if fp.equal_real(a, b, ctx.norm):
        return True
    a, b = merge_cells(ctx, [a, b])
    if fp.equal_real(a, b, ctx.norm):
        return True
    return bool(ctx.fkeys) and reals.entails_equal(ctx, a, b)


def compare_states(ctx, mcode, mspec, arrays, label, frame_only=False):
    """for a generic cell of every array: final code value == contract value"""
    npaths = 0
    for arr in arrays:
        decl = mcode.arrays[arr]

        def path():
            xs = []
            for d, (lo, ext) in enumerate(decl.dims):
                if isinstance(ext, int) and isinstance(lo, int) and ext <= 8 and d == 0 and len(decl.dims) > 1:
                    # small constant leading dimension (stencil entry): enumerate
                    xs.append(None)
                    continue
                x = ctx.fresh("x")
                ctx.assume(GE(x, lo))
                ctx.assume(LT(x, padd(lo, ext)))
                xs.append(x)
            outs = []
            if xs and xs[0] is None:
                lo, ext = decl.dims[0]
                sel = ctx.fresh("xw")
                ctx.assume(GE(sel, lo))
                ctx.assume(LT(sel, lo + ext))
                for w in range(lo, lo + ext):
                    if ctx.decide(EQ(sel, w)):
                        xs[0] = w
                        break
            ec = Evaluator(mcode)
            es = Evaluator(mspec)
            vs = es.value(arr, tuple(xs), 10**9)
            same = vs is fp.cell(arr, tuple(ctx.norm(x) for x in xs))
            if frame_only and not same:
                return 0
            vc = ec.value(arr, tuple(xs), 10**9)
            ctx.stats.ob("frame" if same else "postcondition")
            if not nodes_equal(ctx, vc, vs):
                if not ctx.feasible():
                    raise Infeasible()
                xs2 = [ctx.norm(x) for x in xs]
                raise Failed("frame" if same else "postcondition", f"{label}: {arr}({','.join(map(pstr, xs2))}) == {fp.rstr(norm_node(ctx, vc))[:600]} "
                             f"but contract says {fp.rstr(norm_node(ctx, vs))[:600]}", ctx.model())
            ctx.stats.hit("rational-normal-form")
            divisor_check(ctx, vc, vs, label)
            return 1
        npaths += sum(ctx.explore(path))
    return npaths


def race_check(ctx, machine, label):
    """distinct iterations of one parallel phase touch disjoint cells"""
    for ph in machine.phases:
        if ph.label == "serial":
            continue
        fams = ph.families
        for i, f1 in enumerate(fams):
            for f2 in fams:
                pair_race(ctx, machine, ph, f1, f2, label)


def rename(fam, tag):
    vs = list(fam.vars) + [d[0] for d in fam.defs]
    return {v: V(f"{var_name(v).replace('!', tag)}") for v in vs}


def pair_race(ctx, machine, ph, f1, f2, label):
    sub = rename(f2, "_b")
    acc2 = [(a, cs, True) for a, cs, _ in f2.writes] + [(a, cs, False) for a, cs in f2.reads]
    done = set()
    for a, cs, _ in f1.writes:
        for b, ds, isw in acc2:
            if a != b:
                continue
            ds2 = tuple(psubst(d, sub) for d in ds)
            key = (cs, ds2, isw)
            if key in done:
                continue
            done.add(key)
            # constant difference in some coordinate not involving vars
            ctx.stats.ob("race-freedom")
            eqs = []
            imposs = False
            for c, d in zip(cs, ds2):
                e = psub(c, d)
                if isinstance(e, int):
                    if e != 0:
                        imposs = True
                        break
                else:
                    eqs.append(("eq", e))
            if imposs:
                ctx.stats.hit("normalisation")
                continue
            ctx.push()
            try:
                # identical iterations are not a race: require a difference
                diffs = []
                for p, q in zip(f1.iter, f2.iter):
                    e = psub(p, psubst(q, sub))
                    if not (isinstance(e, int) and e == 0):
                        diffs.append(("ne", e))
                if not diffs:
                    continue
                try:
                    for e in eqs:
                        ctx.assume(e)
                    # quick syntactic: equalities force equal iterations
                    nd = [ctx.norm_atom(d) for d in diffs]
                    nd = [d for d in nd if ctx.const_atom(d) is not False]
                    if not nd:
                        ctx.stats.hit("normalisation")
                        continue
                    for g in f1.guards:
                        ctx.assume(g)
                    for g in f2.guards:
                        ctx.assume(reals.instantiate(ctx, g, sub, lambda n: fp.subst_node(
                            n, lambda p: psubst(p, sub), lambda a, cs, s: fp.rd(a, cs, s))))
                    goal = ("and", tuple(neg(d) for d in nd))
                    if ctx.prove(goal):
                        continue
                    if not ctx.feasible():
                        ctx.stats.hit("z3")     # no two iterations share the cell
                        continue
                    if ctx.last == "unknown":
                        raise Unsupported("race query unknown")
                    raise Failed("race-freedom", f"{label}: two iterations touch {a}({','.join(map(pstr, cs))})"
                                 f" ({'write/write' if isw else 'write/read'})", ctx.model([neg(goal)]))
                except Infeasible:
                    ctx.stats.hit("normalisation")
            finally:
                ctx.pop()
