"""Preconditions of the boundary-condition kernels: where a boundary segment
[bLo,bHi] may lie for each face/type."""
from .ctx import GE, LE, LT, GT, EQ, NE
from .poly import padd, psub
from .kernels import box, AX


def bc_splits(k):
    d = k.dim
    out = []
    if k.meth == "set_homogenous_bc" or k.meth == "set_corner_bc":
        for f in list(range(4)) + [(0, 1, 2, 3)]:
            if k.meth == "set_homogenous_bc":
                for e in (1, 2, 3, 4):
                    out.append(dict(face=f, exOrder=e))
            else:
                out.append(dict(face=f))
        return out
    if d == 1:
        for f in (0, 1, (0, 1)):
            out.append(dict(face=f))
        return out
    nf = {1: 2 * d, 2: 4 if d == 2 else 12, 3: 8}
    for t in ([1, 2] if d == 2 else [1, 2, 3]):
        for f in range(nf[t]):
            out.append(dict(type=t, face=f))
        out.append(dict(type=t, face=tuple(range(nf[t]))))
    out.append(dict(type=(1, 2) if d == 2 else (1, 2, 3)))
    return out


def bc_pre(k, P, clamp=False):
    """Boundary segments whose update reads and writes only cells of the array.

    A face segment (type 1) is one layer normal to the face, anywhere in the
    array with the two inward neighbours (and the face coefficient) also in
    the array; tangentially it must be non-empty and inside the patch (clamp: where
    the reference clamps, it only has to meet the patch).  Edge and corner segments (types 2, 3)
    need their +-1 neighbours in the array."""
    d = k.dim
    # these references restrict the segment to the patch themselves
    clamp = clamp or k.meth == "set_homogenous_bc" or k.meth == "set_bc" and d == 3 and P.get("type", 1) == 1
    g = P.get("ugcw", P.get("gcw", 1))
    dg = P.get("dgcw")
    bx = box("", d)
    f = P["face"]
    t = P.get("type", 1)
    if k.meth == "set_corner_bc":
        t = 2
    lo = [P[l] for l, h in bx]
    hi = [P[h] for l, h in bx]
    bL, bH = P["bLo"], P["bHi"]
    out = [LE(bL[n], bH[n]) for n in range(d)]

    def tang(n):
        if clamp:
            return [LE(bL[n], hi[n]), GE(bH[n], lo[n])]
        return [GE(bL[n], lo[n]), LE(bH[n], hi[n])]
    if k.meth == "set_homogenous_bc":
        ex = P["exOrder"]
        ax = f // 2 if isinstance(f, int) else None
        for n in range(d):
            if n == ax:
                out.append(GE(psub(hi[n], lo[n]), padd(ex, -2)))
            elif clamp or ax is None:
                out += [LE(bL[n], hi[n]), GE(bH[n], lo[n])]
            else:
                out += tang(n)
        return out
    if t == 1 and isinstance(f, int):
        ax = f // 2
        for n in range(d):
            if n == ax:
                x = bL[n] if f % 2 == 0 else bH[n]
                s = 2 if f % 2 == 0 else -2
                out += [GE(padd(x, min(s, 0)), psub(lo[n], g)), LE(padd(x, max(s, 0)), padd(hi[n], g))]
                if dg is not None:
                    y = padd(x, 1) if f % 2 == 0 else x
                    out += [GE(y, psub(lo[n], dg)), LE(y, padd(hi[n], padd(dg, 1)))]
            else:
                out += tang(n)
    elif isinstance(t, int) and t in (2, 3):
        # dimensions the segment is normal to
        if d == 2 or t == 3:
            normal = list(range(d))
        else:
            normal = [[0, 1], [0, 2], [1, 2]][f // 4] if isinstance(f, int) else list(range(d))
        for n in range(d):
            if n in normal:
                for x in (bL[n], bH[n]):
                    out += [GE(padd(x, -1), psub(lo[n], g)), LE(padd(x, 1), padd(hi[n], g))]
            else:
                out += tang(n)
    return out


def bc_reach(k, P):
    return bc_pre(k, P)
