"""Verification of one kernel case: execute the extracted code symbolically,
execute the contract(s), discharge the obligations."""
import itertools
import time
from . import ovf, build, fortran, state, fp
from .ir import Module
from .ctx import (Ctx, Stats, Unsupported, Failed, Infeasible, GE, LE, LT, GT, EQ, NE, astr)
from .execir import Machine, Exec, ArrayDecl, Obj, Ptr
from .poly import V, Poly, padd, psub, pstr
from .kernels import KERNELS, BY_NAME

_mods = {}
_frs = {}


def module(path):
    m = _mods.get(path)
    if m is None:
        m = _mods[path] = Module(path)
    return m


def routines(stem):
    r = _frs.get(stem)
    if r is None:
        r = _frs[stem] = fortran.parse_file(build.fortran(stem))
    return r


def params(ctx, k, case):
    """bind the kernel's parameters for one split case"""
    P = {}
    atoms = []
    for n, kind in k.params:
        if kind == "i":
            v = V(n)
            c = case.get(n)
            if isinstance(c, int):
                v = c
            elif isinstance(c, tuple):      # 'other': outside the listed values
                atoms += [NE(v, x) for x in c]
            if len(n) > 1 and n[-1] == "1" and n[:-1] + "0" in P and not isinstance(c, int):
                # box bounds: n1 = n0 + (extent) - 1, with the extent as the free variable
                v = padd(P[n[:-1] + "0"], padd(V("N" + n[:-1]), -1))
            P[n] = v
        elif kind == "r":
            P[n] = fp.param(n)
        elif kind == "ia":
            P[n] = [V(f"{n}{i}") for i in range(k.iarr[n])]
            for i in range(k.iarr[n]):
                P[f"{n}{i}"] = P[n][i]
        else:
            P[n] = n
    return P, atoms


def split_cases(k):
    splits = k.splits
    if splits == "bc":
        from .bcpre import bc_splits
        return bc_splits(k)
    out = [{}]
    for n, vals in splits:
        new = []
        for c in out:
            for v in vals:
                d = dict(c)
                d[n] = v if v is not None else tuple(x for x in vals if x is not None)
                new.append(d)
        out = new
    return out


def array_names(k):
    return [n for n, kd in k.params if kd == "a"]


def declare(ctx, m, k, P, esize):
    for n in array_names(k):
        for _, e in k.arrays[n](P):
            if not isinstance(e, int) and e not in ctx.extents:
                ctx.extents.append(e)
        m.decl(ArrayDecl(n, [(l, e) for l, e in k.arrays[n](P)], esize, n in k.writes))


def code_args(ctx, k, P, m, esize):
    out = []
    for n, kind in k.params:
        if kind == "a":
            out.append(Ptr(Obj("array", n, info=m.arrays[n]), 0))
        elif kind == "ia":
            o = Obj("mem", n, info="const", size=4 * len(P[n]))
            for i, v in enumerate(P[n]):
                o.cells[4 * i] = (4, v)
            out.append(Ptr(o, 0))
        elif kind == "i":
            o = Obj("mem", n, info="const", size=4)
            o.cells[0] = (4, P[n])
            out.append(Ptr(o, 0))
        else:
            o = Obj("mem", n, info="const", size=esize)
            o.cells[0] = (esize, P[n])
            out.append(Ptr(o, 0))
    return out


def find_symbol(mod, k, t):
    pre = k.symbol(t)
    c = [n for n in mod.funcs if n.startswith(pre)]
    if len(c) != 1:
        raise Unsupported(f"entry point {pre} not found (or ambiguous) in the extracted IR: {c[:3]}")
    return c[0]


class CaseResult:
    def __init__(self):
        self.status = "ok"
        self.name = ""
        self.detail = ""
        self.model = None
        self.reals = None
        self.paths = 0
        self.compared = 0
        self.called = set()
        self.stats = None
        self.wall = 0.0
        self.phases = 0
        self.steps = 0


def run_case(kname, case, T="d", mode=("ref",), timeout_ms=4000):
    """mode: subset of {'ref' (final state equals the reference), 'frame' (the same, at
    cells the reference leaves unchanged), 'race'}; in-bounds obligations are
    always generated"""
    k = BY_NAME[kname]
    res = CaseResult()
    t0 = time.time()
    stats = Stats()
    ctx = Ctx(stats, timeout_ms)
    res.stats = stats
    esize = 8 if T == "d" else 4
    if "overflow" in mode:
        ctx.ovf = ovf.Overflow(ctx)
    try:
        mod = module(build.kernel_ir(k.cpp))
        sym = find_symbol(mod, k, T)

        def path():
            P, atoms = params(ctx, k, case)
            for a in k.pre(P) + atoms:
                ctx.assume(a)
            if k.splits == "bc":
                from .bcpre import bc_pre
                for a in bc_pre(k, P):
                    ctx.assume(a)
            stats.ob("precondition-satisfiable")
            if ctx.dec is not None and not ctx.dec and not ctx.feasible():
                raise Failed("vacuous", "precondition unsatisfiable")
            mc = Machine(ctx, 64 if T == "d" else 32)
            declare(ctx, mc, k, P, esize)
            if ctx.ovf is not None:
                # the cells of an index box can be counted, as those of the arrays can
                box = {}
                for n, _ in k.params:
                    if len(n) > 1 and n[-1] == "1" and n[-2] in "ijk" and isinstance(P[n], Poly) and n[:-1] + "0" in P:
                        box.setdefault(n[:-2], {})[n[-2]] = P[n[:-1] + "0"], padd(psub(P[n], P[n[:-1] + "0"]), 1)
                for b in box.values():
                    b = [b[x] for x in "kji" if x in b]
                    ctx.ovf.shape([e for _, e in b], [l for l, _ in b])
            ex = Exec(mod, ctx, mc, T=64 if T == "d" else 32)
            ex.call(sym, code_args(ctx, k, P, mc, esize))
            res.called |= ex.called
            res.steps += ex.steps
            res.phases += len(mc.phases)
            if "race" in mode:
                state.race_check(ctx, mc, k.name)
            names = [n for n in array_names(k) if n in k.writes]
            if "ref" in mode or "frame" in mode:
                r = routines(k.ffile).get(k.frout)
                if r is None:
                    raise Unsupported(f"reference routine {k.frout} not found")
                mf = Machine(ctx, 64)
                declare(ctx, mf, k, P, esize)
                if len(r.params) != len(k.params):
                    raise Unsupported("reference arity")
                args = []
                for n, kd in k.params:
                    args.append(P[n])
                fe = fortran.FExec(r, mf, args)
                for p, (n, kd) in zip(r.params, k.params):
                    ty, dims = r.types.get(p, (None, None))
                    if kd == "a":
                        check_shape(ctx, k, n, fe.shape(p), mf.arrays[n])
                fe.run()
                try:
                    state.race_check(ctx, mf, k.name + " (reference)")
                except Failed as e:
                    # the reference runs in order: its loops are only outside the generic-iteration rule
                    raise Unsupported(f"reference loop with dependent iterations: {e.detail}")
                res.compared += state.compare_states(ctx, mc, mf, names, k.name + " vs reference", "ref" not in mode)
            return 1
        res.paths = len(ctx.explore(path))
        if res.paths == 0:
            raise Failed("vacuous", "no feasible path")
    except Failed as e:
        # a refutation needs a model of the path that fails
        res.status = "vacuous" if e.name == "vacuous" else "failed" if e.model is not None and not ctx.fpbranch and e.name != "divisor" else "undecided"
        res.name = e.name
        res.detail = e.detail
        res.model = e.model
        res.reals = e.reals
    except (Unsupported, build.BuildError, fp.TooBig) as e:
        res.status = "unsupported"
        res.detail = f"{type(e).__name__}: {e}"
    res.wall = time.time() - t0
    return res


def check_shape(ctx, k, n, fdims, decl):
    if len(fdims) != len(decl.dims):
        raise Unsupported(f"{k.name}: rank of {n} differs from the reference declaration")
    for i, ((l, e), (L, E)) in enumerate(zip(fdims, decl.dims)):
        ctx.stats.ob("shape")
        if e is None:
            continue
        for a, b in ((l, L), (e, E)):
            d = ctx.norm(psub(a, b))
            if not (isinstance(d, int) and d == 0) and not ctx.prove(EQ(a, b)):
                raise Failed("shape", f"{k.name}: extent {i} of {n}: reference ({pstr(l)}:+{pstr(e)}) vs interface ({pstr(L)}:+{pstr(E)})",
                             ctx.model([NE(a, b)]))
