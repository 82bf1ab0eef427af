"""Contracts on the routines that move given ghost values of a coarse-fine face
into the right-hand side, for a stencil of any length with compact offsets."""
import itertools
from . import fp
from .ctx import GE, LE, EQ
from .poly import padd, psub, pscale
from .sweep import S, Sweep


class Fold(Sweep):
    """one direction (None: a code that is no dimension) and side of the face"""

    def __init__(self, nd, dr, side, bad=0):
        super().__init__(f"adjcellcrsfinebdryrhs{nd}d[{'x' if dr is None else dr}{side}{'-+'[bad > 0] if bad else ''}]",
                         f"celladjustrhs{nd}d", nd, "fold")
        self.routine = f"adjcellcrsfinebdryrhs{nd}d"
        self.dr = dr
        self.side = side
        self.bad = bad

    def params(self):
        D = range(self.nd)
        lolo = lambda p: [(f"{p}lo{d}", "i") for d in D] + [(f"{p}hi{d}", "i") for d in D]
        return (lolo("") + lolo("p") + ([("dir", "i")] if self.nd > 1 else []) + [("side", "i"), ("n", "i"), ("off", "o"), ("st", "a"),
                                                                                ("ugcw", "i"), ("u", "a"), ("f", "a")])

    def writes(self):
        return {"f"}

    def ints(self):
        out = []
        for d in range(self.nd):
            out += [(f"lo{d}", None), (f"N{d}", 1)]
        out += [("n", 0), ("ugcw", 1)]
        for d in range(self.nd):
            if d == self.dr:
                out += [(f"x{d}", 0), (f"plo{d}", None), (f"phi{d}", None)]
            else:
                out += [(f"x{d}", 0), (f"y{d}", 0)]
        if self.dr is None:
            out.append(("dirx", 0))
        return out

    def relations(self, X):
        out = []
        for d in range(self.nd):
            if d == self.dr:
                # the face's cell inside the patch
                out += [LE(padd(X[f"x{d}"], 1), X[f"N{d}"]),
                        EQ(X[f"plo{d}"], padd(padd(X[f"lo{d}"], X[f"x{d}"]), 2 * self.side - 1))]
            else:
                out += [LE(padd(padd(X[f"x{d}"], X[f"y{d}"]), 1), X[f"N{d}"])]
        return out

    def bind(self, X):
        P = dict(X)
        for d in range(self.nd):
            P[f"hi{d}"] = padd(X[f"lo{d}"], padd(X[f"N{d}"], -1))
            if d != self.dr:
                P[f"plo{d}"] = padd(X[f"lo{d}"], X[f"x{d}"])
                P[f"phi{d}"] = psub(P[f"hi{d}"], X[f"y{d}"])
        P["side"] = self.side
        if self.nd > 1:
            P["dir"] = self.dr if self.dr is not None else padd(X["dirx"], self.nd) if self.bad > 0 else psub(-1, X["dirx"])
        return P

    def repair(self, X):
        """numbers that satisfy the relations, from drawn ones"""
        for d in range(self.nd):
            X[f"x{d}"] %= X[f"N{d}"]
            if d == self.dr:
                X[f"plo{d}"] = X[f"lo{d}"] + X[f"x{d}"] + 2 * self.side - 1
            else:
                X[f"y{d}"] %= X[f"N{d}"] - X[f"x{d}"]

    def offsets(self, P):
        return [-1] * self.nd, [1] * self.nd

    def entries(self, P):
        return P["n"]

    def dims(self, n, P):
        g = P["ugcw"] if n == "u" else 0
        out = [(psub(P[f"lo{d}"], g), padd(psub(P[f"hi{d}"], P[f"lo{d}"]), padd(1, pscale(g, 2)))) for d in range(self.nd)]
        return [(0, P["n"])] + out if n == "st" else out

    def box(self, P):
        if self.dr is None:
            return None
        out = [(P[f"plo{d}"], P[f"phi{d}"]) for d in range(self.nd)]
        c = padd(P[f"plo{self.dr}"], 1 - 2 * self.side)
        out[self.dr] = (c, c)
        return out

    def contract(self, ctx, ms, P, off):
        box = self.box(P)
        if box is None:
            return

        def rd(a, cs):
            return ms.read(ms.arrays[a], tuple(ctx.norm(x) for x in cs))

        def run():
            x = tuple(ctx.norm(y) for y in reversed([l if l == h else ms.itervar(l, padd(h, 1)) for l, h in reversed(box)]))
            v = rd("f", x)
            if ctx.decide(GE(P["n"], 1)):
                # the field, restricted to the ghost layer next to the cell
                vals = []
                for o in itertools.product((-1, 0, 1), repeat=self.nd):
                    o = o[::-1]
                    vals.append(rd("u", tuple(padd(y, z) for y, z in zip(x, o))) if o[self.dr] == 2 * self.side - 1 else fp.ZERO)
                pick = fp.uf("pick", *[fp.intval(padd(off.var(d, S), 1)) for d in range(self.nd)], *vals)
                v = fp.sub(v, fp.total(P["n"], fp.mul(fp.rd("st", (S,) + x, ms.seq), pick)))
            ms.write(ms.arrays["f"], x, v)
        ms.region(run, "contract")

    def evaluate(self, P, off, rd, wr, real):
        box = self.box(P)
        if box is None:
            return
        for x in itertools.product(*[range(l, h + 1) for l, h in box]):
            v = rd("f", *x)
            for s, o in enumerate(off):
                if o[self.dr] == 2 * self.side - 1:
                    v -= rd("st", s, *x) * rd("u", *[y + z for y, z in zip(x, o)])
            wr("f", x, v)


def table():
    out = []
    for d in (1, 2, 3):
        out += [Fold(d, k, s) for k in range(d) for s in (0, 1)]
        if d > 1:
            out += [Fold(d, None, 0, -1), Fold(d, None, 1, 1)]
    return out
