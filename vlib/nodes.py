"""Contracts on the node-centred operators (Fortran only): fluxes, operator
application and stencil assembly.  Every contract is one program over reads and
writes of array elements; it is evaluated symbolically for the verifier and
with numbers for the concrete runs."""
import itertools
from . import fp
from .ctx import GE, LE
from .kernels import face_order
from .poly import padd, psub
from .sweep import Sweep


class Ex:
    """a symbolic real"""

    def __init__(self, r):
        self.r = r

    def _bin(f):
        return lambda a, b: Ex(f(a.r, b.r if isinstance(b, Ex) else fp.const(b)))
    __add__ = _bin(fp.add)
    __sub__ = _bin(fp.sub)
    __mul__ = _bin(fp.mul)
    __truediv__ = _bin(fp.div)

    def __neg__(self):
        return Ex(fp.sub(fp.ZERO, self.r))


class Node(Sweep):
    def __init__(self, name, ffile, nd, kind, var):
        super().__init__(name, ffile, nd, kind)
        self.var = var      # d: with a coefficient on the faces (flux, offdiag); v1 v2 p

    def params(self):
        D = range(self.nd)
        lolo = lambda p: [(f"{p}lo{d}", "i") for d in D] + [(f"{p}hi{d}", "i") for d in D]
        q = [(f"q{d}", "a") for d in D]
        b = [(f"b{d}", "a") for d in D] if self.var == "d" else []
        v1 = self.var == "v1"
        if self.kind == "nflux":
            return lolo("") + [("dx", "a")] + b + [("ugcw", "i"), ("u", "a")] + q
        if self.kind == "napply":
            box = [(f"{e}{d}", "i") for d in D for e in ("lo", "hi")]
            return (box + ([("alpha", "r")] if self.var != "p" else []) + [("beta", "r"), ("dx", "a")]
                    + ([("cgcw", "i"), ("c", "a")] if v1 else []) + ([("ugcw", "i"), ("u", "a")] if self.var != "p" else [])
                    + [("fgcw", "i"), ("f", "a")] + q + [("a", "r"), ("b", "r"), ("rgcw", "i"), ("r", "a")])
        if self.kind == "noff":
            return lolo("") + (lolo("b") if b else []) + [("dx", "a"), ("beta", "r")] + b + [("st", "a")]
        return lolo("") + (lolo("c") if v1 else []) + ([("alpha", "r")] if self.var != "p" else []) + ([("c", "a")] if v1 else []) + [("st", "a")]

    def writes(self):
        return {"nflux": {f"q{d}" for d in range(self.nd)}, "napply": {"r"}}.get(self.kind, {"st"})

    def ints(self):
        out = []
        ns = [n for n, k in self.params() if k == "i"]
        for d in range(self.nd):
            out += [(f"lo{d}", None), (f"N{d}", 1)]
        for n in ns:
            if n.endswith("gcw"):
                out.append((n, 1 if self.kind == "nflux" else 0))
        for p in "bc":
            if f"{p}lo0" in ns:
                for d in range(self.nd):
                    out += [(f"{p}l{d}", 0), (f"{p}h{d}", 0)]
        return out

    def bind(self, X):
        P = dict(X)
        for d in range(self.nd):
            P[f"hi{d}"] = padd(X[f"lo{d}"], padd(X[f"N{d}"], -1))
            for p in "bc":
                if f"{p}l{d}" in X:
                    P[f"{p}lo{d}"] = psub(X[f"lo{d}"], X[f"{p}l{d}"])
                    P[f"{p}hi{d}"] = padd(P[f"hi{d}"], X[f"{p}h{d}"])
        return P

    def relations(self, X):
        return []

    def offsets(self, P):
        return [], []

    def entries(self, P):
        return 2 * self.nd + 1

    def dims(self, n, P):
        D = range(self.nd)
        if n == "dx":
            return [(0, self.nd)]
        p = n[0] if f"{n[0]}lo0" in P and n != "r" else ""
        lo = [P[f"{p}lo{d}"] for d in D]
        hi = [P[f"{p}hi{d}"] for d in D]
        if f"{n}gcw" in P:
            lo = [psub(l, P[f"{n}gcw"]) for l in lo]
            hi = [padd(h, P[f"{n}gcw"]) for h in hi]
        out = [(l, padd(psub(h, l), 1)) for l, h in zip(lo, hi)]
        if n[0] in "bq" and n[1:].isdigit():
            o = face_order(self.nd, int(n[1:]))
            return [(out[k][0], padd(out[k][1], 1 if i == 0 else 0)) for i, k in enumerate(o)]
        return [(0, self.entries(P))] + out if n == "st" else out

    # -- the contract
    def program(self, P):
        """[(box as [(lo, hi)] per dimension, body(x, E))]; E gives rd, wr and
        the real parameters"""
        nd = self.nd
        D = range(nd)
        box = [(P[f"lo{d}"], P[f"hi{d}"]) for d in D]

        def face(n, d, x, up=0):
            return (f"{n}{d}",) + tuple(padd(x[k], up if k == d else 0) for k in face_order(nd, d))

        if self.kind == "nflux":
            def flux(d):
                def body(x, E):
                    v = E.rd("u", *x) - E.rd("u", *[padd(y, -1 if k == d else 0) for k, y in enumerate(x)])
                    if self.var == "d":
                        v = E.rd(*face("b", d, x)) * v
                    E.wr(*face("q", d, x), v / E.rd("dx", d))
                return ([(l, padd(h, 1 if k == d else 0)) for k, (l, h) in enumerate(box)], body)
            return [flux(d) for d in D]

        def body(x, E):
            st = lambda i: ("st", i) + tuple(x)
            if self.kind == "napply":
                div = None
                for d in D:
                    t = (E.rd(*face("q", d, x, 1)) - E.rd(*face("q", d, x))) / E.rd("dx", d)
                    div = t if div is None else div + t
                lu = -(E.real("beta") * div)
                if self.var != "p":
                    t = E.rd("u", *x)
                    if self.var == "v1":
                        t = E.rd("c", *x) * t
                    lu = lu + E.real("alpha") * t
                E.wr("r", *x, E.real("b") * E.rd("f", *x) + E.real("a") * lu)
            elif self.kind == "noff":
                for d in D:
                    h = E.rd("dx", d)
                    c = -(E.real("beta") / (h * h))
                    for up in (0, 1):
                        E.wr(*st(2 * d + 1 + up), c * E.rd(*face("b", d, x, up)) if self.var == "d" else c)
            else:
                v = None
                for i in range(1, 2 * nd + 1):
                    v = E.rd(*st(i)) if v is None else v + E.rd(*st(i))
                v = -v
                if self.var != "p":
                    v = v + (E.real("alpha") * E.rd("c", *x) if self.var == "v1" else E.real("alpha"))
                E.wr(*st(0), v)
        return [(box, body)]

    def contract(self, ctx, ms, P, off):
        class E:
            @staticmethod
            def rd(n, *cs):
                return Ex(ms.read(ms.arrays[n], tuple(ctx.norm(c) for c in cs)))

            @staticmethod
            def wr(n, *a):
                ms.write(ms.arrays[n], tuple(ctx.norm(c) for c in a[:-1]), a[-1].r)

            @staticmethod
            def real(n):
                return Ex(fp.param(n))
        for box, body in self.program(P):
            def run(box=box, body=body):
                x = tuple(reversed([ms.itervar(l, padd(h, 1)) for l, h in reversed(box)]))
                body(x, E)
            ms.region(run, "contract")

    def evaluate(self, P, off, rd, wr, real):
        class E:
            pass
        E.rd = staticmethod(rd)
        E.wr = staticmethod(lambda n, *a: wr(n, a[:-1], a[-1]))
        E.real = staticmethod(lambda n: real[n])
        for box, body in self.program(P):
            for x in itertools.product(*[range(l, h + 1) for l, h in box]):
                body(x, E)


def table():
    out = []
    for d in (1, 2, 3):
        D = f"{d}d"
        for k, ff, rs in (("nflux", "flux", [("nodediffusionflux", "d"), ("nodepoissonflux", "")]),
                          ("napply", "apply", [("nodediffusionv1apply", "v1"), ("nodediffusionv2apply", "v2"), ("nodepoissonapply", "p")]),
                          ("noff", "stencilcoeffs", [("nodediffusionoffdiag", "d"), ("nodepoissonoffdiag", "")]),
                          ("ndiag", "stencilcoeffs", [("nodediffusionv1diag", "v1"), ("nodediffusionv2diag", "v2"), ("nodepoissondiag", "p")])):
            out += [Node(r + D, f"nodediffusion{ff}{D}", d, k, v) for r, v in rs]
    return out
