"""Table of the CUDA-interface kernels: parameters, declared array shapes,
preconditions, case splits.  The table is the `requires` part of every kernel
contract; it is written from the interface (headers + README), and the shapes
are re-checked against the reference kernels' declarations on every run."""
from .poly import V, padd, psub, pscale
from .ctx import GE, LE, LT, GT, EQ, NE

AX = "ijk"


class Kernel:
    def __init__(self, fam, name, dim, cls, meth, cpp, ffile, frout, params, writes, arrays, pre, splits, iarr=None):
        self.fam = fam
        self.name = name
        self.dim = dim
        self.cls = cls
        self.meth = meth
        self.cpp = cpp
        self.ffile = ffile
        self.frout = frout
        self.params = params      # [(name, kind)]  kind: i r a ia
        self.writes = writes      # set of writable arrays
        self.arrays = arrays      # name -> function(P) -> dims [(lo, ext)]
        self.pre = pre            # function(P) -> [atoms]
        self.splits = splits      # [(param, [values..., None])]
        self.iarr = iarr or {}    # int array -> length

    def symbol(self, t):
        return f"_ZN{len(self.cls)}{self.cls}I{t}E{len(self.meth)}{self.meth}E"

    def __repr__(self):
        return self.name


def box(p, d):
    """integer parameter names of a box: [(lo, hi)]"""
    return [(f"{p}{AX[k]}0", f"{p}{AX[k]}1") for k in range(d)]


def dims_cell(P, bx, g=0):
    return [(psub(P[l], g), padd(psub(P[h], P[l]), padd(1, pscale(g, 2)))) for l, h in bx]


def face_order(d, ax):
    """storage order (fastest first) of face data normal to ax"""
    return [(ax + k) % d for k in range(d)]


def dims_face(P, bx, ax, g=0):
    o = face_order(len(bx), ax)
    out = []
    for n, k in enumerate(o):
        l, h = bx[k]
        e = padd(psub(P[h], P[l]), padd(1 + (1 if n == 0 else 0), pscale(g, 2)))
        out.append((psub(P[l], g), e))
    return out


def dims_st(P, bx, g):
    return [(0, 2 * len(bx) + 1)] + dims_cell(P, bx, g)


def nonempty(P, bx):
    return [LE(P[l], P[h]) for l, h in bx]


def inside(P, a, b, g=0):
    """box a inside box b grown by g"""
    r = []
    for (l, h), (L, H) in zip(a, b):
        r.append(GE(P[l], psub(P[L], g)))
        r.append(LE(P[h], padd(P[H], g)))
    return r


def lolo(p, d):
    return [(l, "i") for l, h in box(p, d)] + [(h, "i") for l, h in box(p, d)]


def lohi(p, d):
    r = []
    for l, h in box(p, d):
        r += [(l, "i"), (h, "i")]
    return r


def arrs(n, d):
    return [(f"{n}{k}", "a") for k in range(d)]


KERNELS = []


def add(*a, **k):
    KERNELS.append(Kernel(*a, **k))


def build():
    for d in (1, 2, 3):
        bx = box("", d)
        D = f"{d}d"
        shp_dx = lambda P, d=d: [(0, d)]

        def cell(g, bx=bx):
            return lambda P: dims_cell(P, bx, P[g] if isinstance(g, str) else g)

        def face(ax, g=0, bx=bx):
            return lambda P: dims_face(P, bx, ax, P[g] if isinstance(g, str) else g)

        def st(bx=bx):
            return lambda P: dims_st(P, bx, P["sgcw"])

        def faces(n, d=d, g=0, b=bx):
            return {f"{n}{k}": face(k, g, b) for k in range(d)}

        # ---- fluxes
        A = dict(dx=shp_dx, u=cell("gcw"), **faces("b"), **faces("f"))
        fl = {f"f{k}" for k in range(d)}
        pre = lambda P, bx=bx: nonempty(P, bx) + [GE(P["gcw"], 1)]
        add("flux", f"flux{D}", d, f"cdf_{D}_cuda", "flux", f"cdf_{D}_cuda", f"celldiffusionflux{D}",
            f"celldiffusionflux{D}", lolo("", d) + [("dx", "a")] + arrs("b", d) + [("gcw", "i"), ("u", "a")] + arrs("f", d),
            fl, A, pre, [])
        add("flux", f"poisson_flux{D}", d, f"cdf_{D}_cuda", "poisson_flux", f"cdf_{D}_cuda", f"celldiffusionflux{D}",
            f"cellpoissonflux{D}", lolo("", d) + [("dx", "a"), ("gcw", "i"), ("u", "a")] + arrs("f", d),
            fl, A, pre, [])
        # ---- apply / residual
        A = dict(dx=shp_dx, a=cell("agcw"), u=cell("ugcw"), f=cell("fgcw"), res=cell("rgcw"), **faces("f"))
        ab = [("alpha", "r"), ("beta", "r"), ("dx", "a")]
        b_ = [("beta", "r"), ("dx", "a")]
        a_ = [("agcw", "i"), ("a", "a")]
        u_ = [("ugcw", "i"), ("u", "a")]
        f_ = [("fgcw", "i"), ("f", "a")]
        r_ = [("rgcw", "i"), ("res", "a")]
        fl = arrs("f", d)

        def preg(P, bx=bx):
            return nonempty(P, bx) + [GE(P[g], 0) for g in ("agcw", "ugcw", "fgcw", "rgcw") if g in P]
        for meth, fr, ps in (
                ("diffusion_v1_res", "celldiffusionv1res", ab + a_ + u_ + f_ + fl + r_),
                ("diffusion_v2_res", "celldiffusionv2res", ab + u_ + f_ + fl + r_),
                ("poisson_v1_res", "cellpoissonv1res", b_ + f_ + fl + r_),
                ("diffusion_v1_apply", "celldiffusionv1apply", ab + a_ + u_ + fl + r_),
                ("diffusion_v2_apply", "celldiffusionv2apply", ab + u_ + fl + r_),
                ("poisson_v2_apply", "cellpoissonv2apply", b_ + fl + r_)):
            add("apply", meth + D, d, f"cd_apply_{D}_cuda", meth, f"cd_apply_{D}_cuda", f"celldiffusionapply{D}",
                fr + D, lohi("", d) + ps, {"res"}, A, preg, [])
        # ---- boundary conditions
        A = dict(dx=shp_dx, u=cell("ugcw"), **faces("d", d, "dgcw"))
        seg = [("bLo", "ia"), ("bHi", "ia"), ("exOrder", "i"), ("face", "i")] + \
            ([("type", "i")] if d > 1 else []) + [("btype", "i")]
        fs = [("face", list(range(2 * d)) + [None])]
        if d > 1:
            fs = [("type", [1, 2, 3, None] if d == 3 else [1, 2, None]), ("face", None)]

        def prebc(P, bx=bx, d=d):
            r = nonempty(P, bx) + [GE(P["ugcw"], 1)]
            if "dgcw" in P:
                r.append(GE(P["dgcw"], 0))
            return r
        ia = dict(bLo=d, bHi=d)
        for meth, fr, ps in (
                ("set_bc", "cellsetcorrectionbc", [("dx", "a"), ("dgcw", "i")] + arrs("d", d) + u_ + seg + ab[:2]),
                ("set_poisson_bc", "cellsetpoissoncorrectionbc", [("dx", "a")] + u_ + seg + ab[:2])):
            add("bc", meth + D, d, f"cd_correct_bc_{D}_cuda", meth, f"cd_correct_bc_{D}_cuda", f"cellsetcorrectionbc{D}",
                fr + D, lohi("", d) + ps, {"u"}, A, prebc, "bc", iarr=ia)
        if d == 2:
            A2 = dict(A, **faces("d", d, 0))
            A2["u"] = cell("gcw")

            def prec(P, bx=bx):
                return nonempty(P, bx) + [GE(P["gcw"], 1)]
            add("bc", "set_corner_bc2d", d, "cd_correct_bc_2d_cuda", "set_corner_bc", "cd_correct_bc_2d_cuda",
                "cellsetcorrectionbc2d", "cellsetinteriorcornerbc2d",
                lohi("", d) + [("gcw", "i"), ("dx", "a")] + arrs("d", d) + [("u", "a")] + seg, {"u"}, A2, prec, "bc", iarr=ia)
            add("bc", "set_homogenous_bc2d", d, "cd_correct_bc_2d_cuda", "set_homogenous_bc", "cd_correct_bc_2d_cuda",
                "cellsetcorrectionbc2d", "cellsethomogenousbc2d",
                lolo("", d) + [("face", "i"), ("bLo", "ia"), ("bHi", "ia"), ("exOrder", "i"), ("u", "a")],
                {"u"}, dict(u=lambda P, bx=bx: dims_cell(P, bx, 1)), lambda P, bx=bx: nonempty(P, bx), "bc", iarr=ia)
        # ---- stencils
        cls = f"cd_stencil_{D}_cuda"
        sf = f"celldiffusionstencilcoeffs{D}"
        b3 = box("b", d)
        a3 = box("a", d)
        S = [("sgcw", "i"), ("st", "a")]
        db = [("dx", "a"), ("beta", "r")]
        A = dict(dx=shp_dx, st=st())
        pres = lambda P, bx=bx: nonempty(P, bx) + [GE(P["sgcw"], 0)]
        Ab = dict(A, **{f"b{k}": face(k, 0, b3) for k in range(d)})
        add("stencil", f"offdiag{D}", d, cls, "offdiag", cls, sf, f"celldiffusionoffdiag{D}",
            lolo("", d) + lolo("b", d) + db + arrs("b", d) + S, {"st"}, Ab,
            lambda P, bx=bx, b3=b3: pres_(P, bx) + inside(P, bx, b3), [])
        add("stencil", f"poisson_offdiag{D}", d, cls, "poisson_offdiag", cls, sf, f"cellpoissonoffdiag{D}",
            lolo("", d) + db + S, {"st"}, A, pres, [])
        Aa = dict(A, a=cell(0, a3))
        add("stencil", f"v1diag{D}", d, cls, "v1diag", cls, sf, f"celldiffusionv1diag{D}",
            lolo("", d) + lolo("a", d) + [("alpha", "r"), ("a", "a")] + S, {"st"}, Aa,
            lambda P, bx=bx, a3=a3: pres_(P, bx) + inside(P, bx, a3), [])
        add("stencil", f"v2diag{D}", d, cls, "v2diag", cls, sf, f"celldiffusionv2diag{D}",
            lolo("", d) + [("alpha", "r")] + S, {"st"}, A, pres, [])
        add("stencil", f"poisson_diag{D}", d, cls, "poisson_diag", cls, sf, f"cellpoissondiag{D}",
            lolo("", d) + S, {"st"}, A, pres, [])
        # ---- stencil adjustments at boundaries
        Ap = dict(A, u=cell("gcw"), rhs=cell(0), **faces("b"))
        ds = ([("dir", "i")] if d > 1 else []) + [("side", "i")]
        be = [("btype", "i"), ("exOrder", "i")]
        sp = ([("dir", list(range(d)))] if d > 1 else []) + [("side", [0, 1])]
        bb = arrs("b", d)
        dn = [("dir_factor", "r"), ("neu_factor", "r"), ("beta", "r")]
        P2 = lolo("", d) + lolo("p", d)
        C2 = lolo("", d) + lolo("c", d)
        for meth, fr, ps, w in (
                ("adj_diag", "adjcelldiffusiondiag", P2 + ds + be + db + bb + S, "st"),
                ("adj_poisson_diag", "adjcellpoissondiag", P2 + ds + be + db + S, "st"),
                ("adj_cf_diag", "adjcelldiffusioncfdiag", P2 + [("r", "i")] + ds + [("intOrder", "i")] + db + bb + S, "st"),
                ("adj_poisson_cf_diag", "adjcellpoissoncfdiag", P2 + [("r", "i")] + ds + [("intOrder", "i")] + db + S, "st"),
                ("adj_offdiag", "adjcelldiffusionoffdiag", P2 + ds + be + [("dx", "a")] + dn + bb + S, "st"),
                ("adj_poisson_offdiag", "adjcellpoissonoffdiag", P2 + ds + be + [("dx", "a")] + dn + S, "st"),
                ("adj_cf_offdiag", "adjcelldiffusioncfoffdiag", C2 + [("r", "i")] + ds + [("intOrder", "i")] + S, "st"),
                ("readj_offdiag", "readjcelldiffusionoffdiag", P2 + ds + S, "st"),
                ("adj_cf_bdryrhs", "adjcelldiffusioncfbdryrhs", P2 + ds + S + [("gcw", "i"), ("u", "a"), ("rhs", "a")], "rhs")):
            q = "c" if meth == "adj_cf_offdiag" else "p"
            q = "c" if meth == "adj_cf_offdiag" else "p"
            # the 2D reference updates the diagonal of the ghost cell on side 1
            # (Dirichlet): the stencil array then needs a ghost layer
            gmin = 1 if meth + D == "adj_diag2d" else 0
            add("adjust", meth + D, d, cls, meth, cls, sf, fr + D, ps, {w}, Ap, pre_adj(d, q, gmin), sp)
    # ---- coarse to fine copies
    bx3 = [box(p, 3) for p in ("c", "f", "cb", "fb")]
    C = []
    for p in ("c", "f"):
        C += lohi(p, 3)
    B = []
    for p in ("cb", "fb"):
        B += lohi(p, 3)
    Ac = dict(cdata=lambda P: dims_cell(P, box("cb", 3), P["gcw"]), fdata=lambda P: dims_cell(P, box("fb", 3), P["gcw"]))
    cd = [("cdata", "a"), ("fdata", "a")]
    add("c2f", "copy", 3, "coarse_to_fine", "copy", "coarse_to_fine_cuda", "copycoarsetofine", "copycoarsetofine3d",
        C + [("axis", "i")] + B + [("gcw", "i"), ("ratio", "ia")] + cd, {"fdata"}, Ac, pre_copy, [("axis", [0, 1, 2, None])],
        iarr=dict(ratio=3))
    add("c2f", "copy_corner", 3, "coarse_to_fine", "copy_corner", "coarse_to_fine_cuda", "copycoarsetofine",
        "copycoarsetofinecorner3d", C + B + [("gcw", "i")] + cd, {"fdata"}, Ac, pre_corner, [])


def pres_(P, bx):
    return nonempty(P, bx) + [GE(P["sgcw"], 0)]


def pre_adj(d, q, gmin=0):
    """segment q: the boundary-normal index localises to a patch cell (side 0:
    q0+1, side 1: q0-1), tangentially the segment is a non-empty part of the
    patch"""
    def f(P):
        bx = box("", d)
        r = pres_(P, bx) + [GE(P["sgcw"], gmin)]
        qb = box(q, d)
        dr = P.get("dir", 0) if d > 1 else 0
        s = P["side"]
        for k in range(d):
            lo, hi = P[bx[k][0]], P[bx[k][1]]
            l, h = P[qb[k][0]], P[qb[k][1]]
            if k == dr:
                c = padd(l, 1 - 2 * s)
                r += [GE(c, lo), LE(c, hi)]
            else:
                r += [LE(l, h), GE(l, lo), LE(h, hi)]
        if "gcw" in P:
            r.append(GE(P["gcw"], 1))
        return r
    return f


def pre_copy(P):
    r = nonempty(P, box("cb", 3)) + nonempty(P, box("fb", 3)) + [GE(P["gcw"], 0)]
    r += [GE(P[f"ratio{k}"], 1) for k in range(3)]
    r += nonempty(P, box("f", 3))
    g = P["gcw"]
    r += inside(P, box("f", 3), box("fb", 3), g)
    for l, h in box("c", 3):
        r += [GE(P[l], psub(P["cb" + l[1:]], g)), LE(P[l], padd(P["cb" + h[1:]], g))]
    # the coarse image of the fine range lies in the coarse data
    for k in range(3):
        a = AX[k]
        R = P[f"ratio{k}"]
        r.append(GE(P[f"f{a}0"], R * psub(P[f"cb{a}0"], g)))
        r.append(LT(P[f"f{a}1"], R * padd(P[f"cb{a}1"], padd(g, 1))))
    return r


def pre_corner(P):
    g = P["gcw"]
    r = nonempty(P, box("cb", 3)) + nonempty(P, box("fb", 3)) + [GE(g, 0)]
    for p in "cf":
        for l, h in box(p, 3):
            r += [GE(P[l], psub(P[p + "b" + l[1:]], g)), LE(P[l], padd(P[p + "b" + h[1:]], g))]
    return r


build()
BY_NAME = {k.name: k for k in KERNELS}
