"""Execution of the contracts written in /verif/contracts/*.cpp: each contract
function introduces universally quantified arguments, calls the real code of
/repo and states its postconditions (see contracts/vf.hpp)."""
import os
import re
import time
from . import ovf, build, state, fp
from .ctx import Ctx, Stats, Unsupported, Failed, Infeasible, GE, LE, LT, EQ, NE, neg, astr
from .execir import Machine, Exec, ArrayDecl, Obj, Ptr, Packed, ZF
from .poly import V, Poly, padd, psub, pscale, pmul, pvars, pstr
from .runner import CaseResult, module

CDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")


class IArr:
    """read-only integer data with unknown contents"""

    def __init__(self, name, n):
        self.name = name
        self.n = n
        self.tab = []
        self.lo = None
        self.cols = 1
        self.bounds = {}

    def get(self, ex, e):
        ctx = ex.ctx
        e = ctx.norm(e)
        ctx.stats.ob("in-bounds")
        for at in (GE(e), LT(e, self.n)):
            if not ctx.prove(at):
                if ctx.last == "unknown":
                    raise Unsupported("iarray bounds unknown")
                raise Failed("in-bounds", f"read of {self.name}[{pstr(e)}]: {astr(at)}", ctx.model([neg(at)]))
        for x, v in self.tab:
            d = ctx.norm(psub(x, e))
            if isinstance(d, int):
                if d == 0:
                    return self.known(ctx, e, v)
                continue
            if ctx.decide(EQ(x, e)):
                return self.known(ctx, e, v)
        v = V(f"{self.name}[{pstr(e)}]")
        self.tab.append((e, v))
        return self.known(ctx, e, v)

    def known(self, ctx, e, v):
        """v with the declared bounds of its column (facts may have been
        dropped with the scope that introduced v)"""
        c, col = ctx.divmod_floor(e, self.cols)
        if isinstance(col, int) and col in self.bounds:
            lo, hi = self.bounds[col]
            for a in (GE(v, lo), LE(v, hi)):
                if a not in ctx.facts:
                    ctx.assume(a)
        return v


class LExec(Exec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.checks = 0
        self.ini = None
        self.params = []
        self.iarrs = {}
        self.names = {}
        self.only = None
        self.divisors = True

    def cstr(self, p):
        b = []
        o = p.obj
        off = p.off
        while True:
            c = o.cells.get(off)
            if c is None:
                for co, (cs, cv) in o.cells.items():
                    if co <= off < co + cs:
                        if cv is ZF:
                            c = (1, 0)
                            break
                        raise Unsupported("string")
            if c is None or c[1] is ZF or c[1] == 0:
                break
            b.append(c[1] & 255)
            off += 1
        return bytes(b).decode()

    def ev(self):
        return state.Evaluator(self.m)

    def fail(self, label, text, at=None):
        ctx = self.ctx
        raise Failed(label, text, ctx.model([neg(at)] if at is not None else []))

    def skip(self, label):
        """postconditions outside the selected property"""
        return self.only is not None and not any(o in label for o in self.only)

    def reach_label(self, label):
        self.checks += 1
        if not self.sat.get(label):
            # vacuity guard: the obligation must be reachable
            self.sat[label] = self.ctx.model() is not None

    def final(self, r):
        """resolve direct reads of the data arrays to their current values"""
        ev = self.ev()
        return fp.subst_node(r, self.ctx.norm, lambda a, cs, s: ev.value(a, cs, s))

    def undef(self, v):
        from .ir import UNDEF
        return v is UNDEF

    def intrinsic(self, name, args):
        if not name.startswith("vf_"):
            return super().intrinsic(name, args)
        ctx = self.ctx
        if name == "vf_int":
            n = self.cstr(args[0])
            if n in self.names:
                raise Unsupported("contract quantifies twice over " + n)
            self.names[n] = 1
            return (V(n),)
        if name == "vf_real":
            return (fp.param(self.cstr(args[0])),)
        if name == "vf_arr":
            n = self.cstr(args[0])
            w, nd = args[1], args[2]
            dims = []
            for k in range(nd):
                dims.append((ctx.norm(self.ival(args[3 + 2 * k])), ctx.norm(self.ival(args[4 + 2 * k]))))
            dims.reverse()
            for _, e in dims:
                if not isinstance(e, int) and e not in ctx.extents:
                    ctx.extents.append(e)
            a = ArrayDecl(n, dims, self.T // 8, bool(w))
            self.m.decl(a)
            return (Ptr(Obj("array", n, info=a), 0),)
        if name == "vf_iarr":
            n = self.cstr(args[0])
            cols = args[3] if args[1] == 2 else 1
            ia = IArr(n, pmul(self.ival(args[2]), cols))
            ia.cols = cols
            self.iarrs[n] = ia
            return (Ptr(Obj("iarray", n, info=ia), 0),)
        if name == "vf_iarr_bound":
            self.iarrs[self.cstr(args[0])].bounds[args[1]] = (args[2], args[3])
            return (None,)
        if name == "vf_ge":
            ctx.assume(GE(self.ival(args[0]), self.ival(args[1])))
            return (None,)
        if name == "vf_fits":
            if ctx.ovf is not None:
                ctx.ovf.shape([self.ival(a) for a in args])
            return (None,)
        if name == "vf_ensures":
            return (self.ensures(args),)
        if name in ("vf_fin", "vf_ini"):
            n = self.cstr(args[0])
            a = self.m.arrays[n]
            nd = args[1]
            cs = [ctx.norm(self.ival(x)) for x in args[2:2 + nd]]
            cs.reverse()
            for c, (lo, ext) in zip(cs, a.dims):
                for at in (GE(c, lo), LT(c, padd(lo, ext))):
                    if not ctx.prove(at):
                        raise Unsupported(f"contract term {n}({','.join(map(pstr, cs))}) not provably defined: {astr(at)} "
                                          f"({ctx.model([neg(at)])})")
            if name == "vf_ini":
                return (fp.cell(n, tuple(cs)),)
            return (self.ev().value(n, tuple(cs), 10**9),)
        if name == "vf_check_real":
            label = self.cstr(args[2])
            if self.skip(label):
                return (None,)
            self.reach_label(label)
            ctx.stats.ob("postcondition")
            a, b = args[0], args[1]
            if self.undef(a):
                self.fail(label, "uninitialised value")
            a, b = self.final(self.fval(a)), self.final(self.fval(b))
            if not state.nodes_equal(ctx, a, b):
                if not ctx.feasible():
                    raise Infeasible()
                self.fail(label, f"got {fp.rstr(state.norm_node(ctx, a))[:500]} but the contract says "
                          f"{fp.rstr(state.norm_node(ctx, b))[:500]}")
            ctx.stats.hit("rational-normal-form")
            if self.divisors:
                state.divisor_check(ctx, a, b, label)
            return (None,)
        if name in ("vf_check_int", "vf_check_ge"):
            label = self.cstr(args[2])
            if self.skip(label):
                return (None,)
            self.reach_label(label)
            ctx.stats.ob("postcondition")
            if self.undef(args[0]) or self.undef(args[1]):
                self.fail(label, "uninitialised value")
            a, b = self.ival(args[0]), self.ival(args[1])
            at = EQ(a, b) if name.endswith("int") else GE(a, b)
            if not ctx.prove(at):
                if not ctx.feasible():
                    raise Infeasible()
                if ctx.last == "unknown":
                    raise Unsupported(f"{label}: {astr(at)} undecided")
                self.fail(label, f"{pstr(ctx.norm(a))} vs {pstr(ctx.norm(b))}", at)
            return (None,)
        if name == "vf_check_ptr":
            label = self.cstr(args[2])
            if self.skip(label):
                return (None,)
            self.reach_label(label)
            ctx.stats.ob("postcondition")
            a, b = args[0], args[1]
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported("pointer check")
            if a.obj is not b.obj:
                self.fail(label, f"{a} vs {b}: different objects")
            at = EQ(a.off, b.off)
            if not ctx.prove(at):
                if not ctx.feasible():
                    raise Infeasible()
                if ctx.last == "unknown":
                    raise Unsupported(f"{label}: {astr(at)} undecided")
                self.fail(label, f"byte offset {pstr(ctx.norm(a.off))} vs {pstr(ctx.norm(b.off))}", at)
            return (None,)
        if name == "vf_check_state":
            label = self.cstr(args[3])
            if self.skip(label):
                return (None,)
            self.reach_label(label)
            ctx.stats.ob("representation")
            n = args[2]
            ca = self.flat(args[0], n)
            cb = self.flat(args[1], n)
            for off in sorted(set(ca) | set(cb)):
                x, y = ca.get(off), cb.get(off)
                if x is None or y is None or x[0] != y[0]:
                    self.fail(label, f"byte {off} differs in initialisation")
                self.same_rep(x[1], y[1], f"{label}: representation byte {off}", label)
            return (None,)
        raise Unsupported("contract vocabulary " + name)

    def flat(self, p, n):
        out = {}
        base = self.ctx.norm(p.off)
        for co, (cs, cv) in p.obj.cells.items():
            if co >= base and co + cs <= base + n:
                if isinstance(cv, Packed):
                    for po, ps, pv in cv.parts:
                        out[co - base + po] = (ps, pv)
                else:
                    out[co - base] = (cs, cv)
        return {k: v for k, v in out.items() if not self.undef(v[1])}

    def same_rep(self, a, b, text, label):
        ctx = self.ctx
        if a is b:
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is not b.obj:
                self.fail(label, text)
            a, b = a.off, b.off
        if isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
            if not ctx.prove(EQ(a, b)):
                if not ctx.feasible():
                    raise Infeasible()
                if ctx.last == "unknown":
                    raise Unsupported(f"{text}: undecided {pstr(ctx.norm(a))} == {pstr(ctx.norm(b))} under {[astr(f) for f in ctx.facts]}")
                self.fail(label, f"{text}: {pstr(ctx.norm(a))} vs {pstr(ctx.norm(b))}", EQ(a, b))
            return
        if a is ZF or b is ZF:
            if a is ZF and b is ZF or (a == 0 or b == 0):
                return
        if isinstance(a, fp.R) and isinstance(b, fp.R) and state.nodes_equal(ctx, a, b):
            return
        self.fail(label, text)

    def ensures(self, args):
        ctx = self.ctx
        if self.only is not None and not self.only:
            return None
        f, c = args

        def path():
            snap = self.snapshot([c])
            nm = dict(self.names)
            tabs = [(t, list(t.tab)) for t in self.iarrs.values()]
            try:
                self.call(f.obj.name, [c])
            finally:
                for o, cells in snap:
                    o.cells = cells
                self.names = nm
                for t, tab in tabs:
                    t.tab = tab
            return 1
        n = len(ctx.explore(path))
        self.npaths = getattr(self, "npaths", 0) + n
        return None


def contracts(path, text):
    """names of the contracts of a file, macros expanded"""
    names = re.findall(r"^CONTRACT\((\w+)\)", text, re.M)
    for mac, params, body in re.findall(r"^#define (\w+)\(([^)]*)\)((?:.*\\\n)*.*)$", text, re.M):
        params = [p.strip() for p in params.split(",")]
        pats = re.findall(r"CONTRACT\(([\w#]+)\)", body)
        for call in re.findall(r"^" + mac + r"\(([^)]*)\)", text, re.M):
            a = [x.strip() for x in call.split(",")]
            for pt in pats:
                n = "##" + pt + "##"
                for p, v in zip(params, a):
                    n = n.replace("##" + p + "##", "##" + v + "##")
                names.append(n.replace("##", ""))
    return names


def sources():
    """{file stem: [contract names]}, from the contract texts"""
    out = {}
    for f in sorted(os.listdir(CDIR)):
        if f.endswith(".cpp") and f != "vf_rt.cpp":
            with open(os.path.join(CDIR, f)) as h:
                t = h.read()
            out[f[:-4]] = contracts(os.path.join(CDIR, f), t)
    return out


def chunks(text):
    """(first line, last line, removable) of the top-level parts of a contract
    file; removable: contracts and uses of the macros that define them"""
    macs = set(re.findall(r"^#define (\w+)\(", text, re.M))
    out = []
    depth = 0
    start = None
    for n, l in enumerate(text.split("\n"), 1):
        if start is None:
            if not l.strip() or l.lstrip().startswith("//"):
                continue
            start, head = n, l
            m = re.match(r"(\w+)\(", head)
            use = bool(m) and m.group(1) in macs
        if head.startswith("#"):
            done = not l.endswith("\\")
        else:
            code = re.sub(r"//.*|\"[^\"]*\"", "", l).rstrip()
            depth += sum(map(code.count, "({")) - sum(map(code.count, ")}"))
            done = depth == 0 and (use or code.endswith(("}", ";")))
        if done:
            out.append((start, n, use or head.startswith("CONTRACT("), head))
            start = None
    return out


def reduced(stem, T):
    """the contract file without the contracts that this tree no longer lets us
    state (names that a change of the internals removed).  Raises BuildError if
    the errors are not confined to contracts."""
    src = os.path.join(CDIR, stem + ".cpp")
    with open(src) as h:
        text = h.read()
    d = build.scratch() + "/contracts_" + T
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{stem}.cpp"
    lines = text.split("\n")
    for _ in range(8):
        with open(path + ".tmp", "w") as h:
            h.write("\n".join(lines))
        os.rename(path + ".tmp", path)
        err = build.errors(path, ("-I" + CDIR, "-DREAL=" + ("double" if T == "d" else "float")))
        if err is None:
            return path
        parts = chunks("\n".join(lines))
        gone = set()
        for grp in re.split(r"^(?=\S+:\d+:\d+: (?:fatal )?error:|In file included)", err, flags=re.M):
            if "error:" not in grp:
                continue
            at = [int(x) for x in re.findall(r"/" + stem + r"\.cpp:(\d+):\d+:", grp)]
            hit = [c for c in parts if any(c[0] <= a <= c[1] for a in at)]
            use = [c for c in hit if c[2]] or [c for c in hit if not c[3].startswith(("#", "using"))]
            if not use:
                raise build.BuildError(f"{stem}: " + grp[:1500])
            gone |= set(use)
        if not gone:
            raise build.BuildError(f"{stem}: " + err[-1500:])
        for a, b, _, _ in gone:
            for n in range(a, b + 1):
                lines[n - 1] = ""
    raise build.BuildError(f"{stem}: " + err[-1500:])


def contract_src(stem, T="d"):
    p = f"{build.scratch()}/contracts_{T}/{stem}.cpp"
    return p if os.path.exists(p) else os.path.join(CDIR, stem + ".cpp")


def contract_ir(stem, T="d"):
    fl = ("-I" + CDIR, "-DREAL=" + ("double" if T == "d" else "float"))
    try:
        return build.ir(contract_src(stem, T), fl)
    except build.BuildError:
        return build.ir(reduced(stem, T), fl)


NOT_STATED = "the contract cannot be stated on this tree: it names internals that are not there"


def run_lemma(stem, cname, T="d", timeout_ms=4000, race=True, only=None, overflow=False):
    """only: label fragments of the postconditions to decide (None: all; (): none,
    i.e. memory safety and, with race, race-freedom of the execution)"""
    res = CaseResult()
    t0 = time.time()
    stats = Stats()
    ctx = Ctx(stats, timeout_ms)
    res.stats = stats
    if overflow:
        ctx.ovf = ovf.Overflow(ctx)
    bits = 64 if T == "d" else 32
    try:
        mod = module(contract_ir(stem, T))
        sym = "C_" + cname
        if sym not in mod.funcs:
            raise Unsupported(NOT_STATED if contract_src(stem, T) != os.path.join(CDIR, stem + ".cpp") else f"contract {cname} not found in the extracted IR")
        tot = [0]
        sat = {}

        def path():
            mc = Machine(ctx, bits)
            ex = LExec(mod, ctx, mc, T=bits)
            ex.sat = sat
            ex.only = only
            # relations between kernels are stated where their quotients exist
            ex.divisors = not stem.startswith("operators")
            ex.call(sym, [])
            res.called |= ex.called
            res.steps += ex.steps
            res.phases += len(mc.phases)
            tot[0] += ex.checks
            if race:
                state.race_check(ctx, mc, cname)
            return 1
        res.paths = len(ctx.explore(path))
        res.compared = tot[0]
        if res.paths == 0 or tot[0] == 0 and only is None:
            raise Failed("vacuous", f"{res.paths} paths, {tot[0]} postconditions reached")
        bad = [l for l, ok in sat.items() if not ok]
        if bad:
            raise Failed("vacuous", f"no model reaches {bad}")
        res.labels = sorted(sat)
    except Failed as e:
        # a refutation needs a model of the path that fails
        res.status = "vacuous" if e.name == "vacuous" else "failed" if e.model is not None and not ctx.fpbranch and e.name != "divisor" else "undecided"
        res.name = e.name
        res.detail = e.detail
        res.model = e.model
        res.reals = e.reals
    except (Unsupported, build.BuildError, fp.TooBig) as e:
        res.status = "unsupported"
        res.detail = f"{type(e).__name__}: {e}"
    res.wall = time.time() - t0
    return res
