// The kernels of one dimension called one after the other: the operator
// alpha a u - beta div(b grad u) by way of fluxes, and as an assembled stencil.
// VF_DIM is the number of dimensions.
#pragma once
#include "spanbox.hpp"
#if VF_DIM == 1
#include "cuda/cdf_1d_cuda.cpp"
#include "cuda/cd_apply_1d_cuda.cpp"
#include "cuda/cd_stencil_1d_cuda.cpp"
#include "cuda/cd_correct_bc_1d_cuda.cpp"
#define KERNEL(n) n##_1d_cuda<real>
#define CORNERS i0, i1
#define PAIRS i0, i1
#define SEGMENT s0[0], s1[0]
#define FACES(f) f##0 .p
#define DIR
#define TYPE
#define CELL I
#define FACE0 I
#elif VF_DIM == 2
#include "cuda/cdf_2d_cuda.cpp"
#include "cuda/cd_apply_2d_cuda.cpp"
#include "cuda/cd_stencil_2d_cuda.cpp"
#include "cuda/cd_correct_bc_2d_cuda.cpp"
#define KERNEL(n) n##_2d_cuda<real>
#define CORNERS i0, j0, i1, j1
#define PAIRS i0, i1, j0, j1
#define SEGMENT s0[0], s0[1], s1[0], s1[1]
#define FACES(f) f##0 .p, f##1 .p
#define DIR dir,
#define TYPE type,
#define CELL J, I
#define FACE0 J, I
#define FACE1 I, J
#else
#include "cuda/cdf_3d_cuda.cpp"
#include "cuda/cd_apply_3d_cuda.cpp"
#include "cuda/cd_stencil_3d_cuda.cpp"
#include "cuda/cd_correct_bc_3d_cuda.cpp"
#define KERNEL(n) n##_3d_cuda<real>
#define CORNERS i0, j0, k0, i1, j1, k1
#define PAIRS i0, i1, j0, j1, k0, k1
#define SEGMENT s0[0], s0[1], s0[2], s1[0], s1[1], s1[2]
#define FACES(f) f##0 .p, f##1 .p, f##2 .p
#define DIR dir,
#define TYPE type,
#define CELL K, J, I
#define FACE0 K, J, I
#define FACE1 I, K, J
#define FACE2 J, I, K
#endif
using namespace vf;
using flux_k = KERNEL(cdf);
using apply_k = KERNEL(cd_apply);
using stencil_k = KERNEL(cd_stencil);
using bc_k = KERNEL(cd_correct_bc);
enum kind { v1, v2, poisson };
inline space grown(space b, int d)
{
    b.n[d] = b.n[d] + 1;
    return b;
}
inline space entries(space b)
{
    b.lo[W] = 0;
    b.n[W] = 2 * VF_DIM + 1;
    return b;
}
inline int ghosts(const char* s, int least)
{
    int g = vf_int(s);
    vf_ge(g, least);
    return g;
}
inline const char* rname(int i)
{
    static const char* const t[] = {"h0", "h1", "h2"};
    return t[i];
}
struct problem {
    space b;
    int i0, i1, j0, j1, k0, k1, ug, ag, fg, rg, sg;
    real h[3], alpha, beta;
    data<CELL> u, a, f, r;
    data<CELL, W> st;
    data<FACE0> b0, f0;
#if VF_DIM > 1
    data<FACE1> b1, f1;
#endif
#if VF_DIM > 2
    data<FACE2> b2, f2;
#endif
    problem(int writable_u = 0)
        : b(anyspace(order<CELL>{})), i0(b.lo[I]), i1(b.hi(I)), j0(b.lo[J]), j1(b.hi(J)), k0(b.lo[K]), k1(b.hi(K)),
          ug(ghosts("ug", 1)), ag(ghosts("ag", 0)), fg(ghosts("fg", 0)), rg(ghosts("rg", 0)), sg(ghosts("sg", 0)),
          alpha(vf_real("alpha")), beta(vf_real("beta")), u("u", writable_u, b, ug), a("a", 0, b, 0), f("f", 0, b, fg),
          r("r", 1, b, rg), st("st", 1, entries(b), sg), b0("b0", 0, grown(b, I)), f0("f0", 1, grown(b, I))
#if VF_DIM > 1
          ,
          b1("b1", 0, grown(b, J)), f1("f1", 1, grown(b, J))
#endif
#if VF_DIM > 2
          ,
          b2("b2", 0, grown(b, K)), f2("f2", 1, grown(b, K))
#endif
    {
        for (int d = 0; d < VF_DIM; d++) h[d] = vf_real(rname(d));
    }
    void flux(kind k)
    {
        if (k == poisson)
            flux_k::poisson_flux(CORNERS, h, ug, u.p, FACES(f));
        else
            flux_k::flux(CORNERS, h, FACES(b), ug, u.p, FACES(f));
    }
    void apply(kind k)
    {
        const int z = 0;
        if (k == v1)
            apply_k::diffusion_v1_apply(PAIRS, alpha, beta, h, z, a.p, ug, u.p, FACES(f), rg, r.p);
        else if (k == v2)
            apply_k::diffusion_v2_apply(PAIRS, alpha, beta, h, ug, u.p, FACES(f), rg, r.p);
        else
            apply_k::poisson_v2_apply(PAIRS, beta, h, FACES(f), rg, r.p);
    }
    void residual(kind k)
    {
        const int z = 0;
        if (k == v1)
            apply_k::diffusion_v1_res(PAIRS, alpha, beta, h, z, a.p, ug, u.p, fg, f.p, FACES(f), rg, r.p);
        else if (k == v2)
            apply_k::diffusion_v2_res(PAIRS, alpha, beta, h, ug, u.p, fg, f.p, FACES(f), rg, r.p);
        else
            apply_k::poisson_v1_res(PAIRS, beta, h, fg, f.p, FACES(f), rg, r.p);
    }
    void offdiag(kind k, real* s)
    {
        if (k == poisson)
            stencil_k::poisson_offdiag(CORNERS, h, beta, sg, s);
        else
            stencil_k::offdiag(CORNERS, CORNERS, h, beta, FACES(b), sg, s);
    }
    void diag(kind k, real* s)
    {
        if (k == v1)
            stencil_k::v1diag(CORNERS, CORNERS, alpha, a.p, sg, s);
        else if (k == v2)
            stencil_k::v2diag(CORNERS, alpha, sg, s);
        else
            stencil_k::poisson_diag(CORNERS, sg, s);
    }
    // coefficient of face d (the lower one: side 0) of cell x
    real b_at(int d, int side, const int (&x)[4]) const
    {
        int y[4] = {x[0], x[1], x[2], 0};
        y[d] = y[d] + side;
#if VF_DIM > 2
        if (d == K) return b2.ini(y);
#endif
#if VF_DIM > 1
        if (d == J) return b1.ini(y);
#endif
        return b0.ini(y);
    }
    real f_at(int d, int side, const int (&x)[4]) const
    {
        int y[4] = {x[0], x[1], x[2], 0};
        y[d] = y[d] + side;
#if VF_DIM > 2
        if (d == K) return f2.fin(y);
#endif
#if VF_DIM > 1
        if (d == J) return f1.fin(y);
#endif
        return f0.fin(y);
    }
    bool inside(const int (&x)[4]) const
    {
        for (int d : {CELL}) {
            if (x[d] < b.lo[d]) return false;
            if (b.hi(d) < x[d]) return false;
        }
        return true;
    }
    void any_cell(int (&x)[4]) const { cells_t<CELL>{b}.any(x); }
};
inline int dimension(int n) { return n == 0 ? I : n == 1 ? J : K; }
template <typename D>
real value(const D& a, const int (&x)[4], int d, int s, bool initially = true)
{
    int y[4] = {x[0], x[1], x[2], 0};
    y[d] = y[d] + s;
    return initially ? a.ini(y) : a.fin(y);
}
template <typename D>
real entry(const D& st, const int (&x)[4], int m)
{
    int y[4] = {x[0], x[1], x[2], m};
    return st.fin(y);
}
// row of the stencil at x applied to u
template <typename D, typename U>
real row(const D& st, const U& u, const int (&x)[4], bool initially = true)
{
    real s = entry(st, x, 0) * value(u, x, I, 0, initially);
    for (int n = 0; n < VF_DIM; n++)
        for (int side = 0; side < 2; side++)
            s = s + entry(st, x, 2 * n + 1 + side) * value(u, x, dimension(n), 2 * side - 1, initially);
    return s;
}
// (L u)(x), written out
inline real apply_spec(const problem& p, kind k, const int (&x)[4])
{
    real s{};
    for (int n = 0; n < VF_DIM; n++) {
        int d = dimension(n);
        real up = (value(p.u, x, d, 1) - p.u.ini(x)) / p.h[n], dn = (p.u.ini(x) - value(p.u, x, d, -1)) / p.h[n];
        if (k != poisson) {
            up = p.b_at(d, 1, x) * up;
            dn = p.b_at(d, 0, x) * dn;
        }
        s = s + (up - dn) / p.h[n];
    }
    s = -p.beta * s;
    if (k == v1) s = s + p.alpha * p.a.ini(x) * p.u.ini(x);
    if (k == v2) s = s + p.alpha * p.u.ini(x);
    return s;
}
template <kind k>
void matrix_free()
{
    problem p;
    p.flux(k);
    p.apply(k);
    ensures([&] {
        int x[4];
        p.r.any(x);
        if (p.inside(x))
            vf_check_real(p.r.fin(x), apply_spec(p, k, x), "operator by fluxes");
        else
            vf_check_real(p.r.fin(x), p.r.ini(x), "unchanged outside the patch");
    });
}
template <kind k>
void residual()
{
    problem p;
    p.flux(k);
    p.residual(k);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        vf_check_real(p.r.fin(x), p.f.ini(x) - apply_spec(p, k, x), "residual by fluxes");
    });
}
template <kind k>
void assembled()
{
    problem p;
    p.offdiag(k, p.st.p);
    p.diag(k, p.st.p);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        vf_check_real(row(p.st, p.u, x), apply_spec(p, k, x), "assembled operator");
        real sum = entry(p.st, x, 0);
        for (int m = 1; m < 2 * VF_DIM + 1; m++) sum = sum + entry(p.st, x, m);
        if (k == v1) vf_check_real(sum, p.alpha * p.a.ini(x), "row sum");
        if (k == v2) vf_check_real(sum, p.alpha, "row sum");
        if (k == poisson) vf_check_real(sum, 0, "row sum");
        for (int n = 0; n < VF_DIM; n++) {
            int y[4] = {x[0], x[1], x[2], 0};
            y[dimension(n)] = y[dimension(n)] + 1;
            if (p.inside(y)) vf_check_real(entry(p.st, x, 2 * n + 2), entry(p.st, y, 2 * n + 1), "symmetry");
        }
    });
}
// both, executed together
template <kind k>
void agreement()
{
    problem p;
    p.offdiag(k, p.st.p);
    p.flux(k);
    p.diag(k, p.st.p);
    p.apply(k);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        vf_check_real(row(p.st, p.u, x), p.r.fin(x), "stencil against fluxes");
    });
}

// Boundary conditions on a segment of one face (direction n, side s): the rows of
// the adjusted stencil, which do not refer to the ghost cell any more, are the
// rows of the plain stencil with the ghost cells filled in.
template <kind k, int n, int s, int bt, int ex>
void boundary()
{
    problem p(1);
    data<CELL, W> plain("plain", 1, entries(p.b), p.sg);
    p.offdiag(k, plain.p);
    p.diag(k, plain.p);
    p.offdiag(k, p.st.p);
    int s0[3], s1[3], i0 = p.i0, i1 = p.i1, j0 = p.j0, j1 = p.j1, k0 = p.k0, k1 = p.k1;
    static const char *const lo[] = {"p0", "p1", "p2"}, *const hi[] = {"q0", "q1", "q2"};
    for (int m = 0; m < VF_DIM; m++) {
        int d = dimension(m);
        if (m == n) {
            s0[m] = s1[m] = s == 0 ? p.b.lo[d] - 1 : p.b.hi(d) + 1;
        } else {
            s0[m] = vf_int(lo[m]);
            s1[m] = vf_int(hi[m]);
            vf_ge(s0[m], p.b.lo[d]);
            vf_ge(s1[m], s0[m]);
            vf_ge(p.b.hi(d), s1[m]);
        }
    }
    const int side = s, btype = bt, order = ex, face = 2 * n + s, none = 0;
    [[maybe_unused]] const int dir = n, type = 1;
    const real twice = 2, one = 1;
    if (k == poisson)
        stencil_k::adj_poisson_offdiag(CORNERS, SEGMENT, DIR side, btype, order, p.h, twice, one, p.beta, p.sg, p.st.p);
    else
        stencil_k::adj_offdiag(CORNERS, SEGMENT, DIR side, btype, order, p.h, twice, one, p.beta, FACES(p.b), p.sg, p.st.p);
    p.diag(k, p.st.p);
    stencil_k::readj_offdiag(CORNERS, SEGMENT, DIR side, p.sg, p.st.p);
    if (k == poisson)
        bc_k::set_poisson_bc(PAIRS, p.h, p.ug, p.u.p, s0, s1, order, face, TYPE btype, twice, one);
    else
        bc_k::set_bc(PAIRS, p.h, none, FACES(p.b), p.ug, p.u.p, s0, s1, order, face, TYPE btype, twice, one);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        bool at = x[dimension(n)] == (s == 0 ? p.b.lo[dimension(n)] : p.b.hi(dimension(n)));
        for (int m = 0; m < VF_DIM; m++) {
            if (m == n) continue;
            if (x[dimension(m)] < s0[m]) at = false;
            if (s1[m] < x[dimension(m)]) at = false;
        }
        if (at) {
            vf_check_real(entry(p.st, x, 2 * n + 1 + s), 0, "ghost cell eliminated");
            vf_check_real(row(p.st, p.u, x), row(plain, p.u, x, false), "row with the boundary condition");
        } else {
            vf_check_real(row(p.st, p.u, x), row(plain, p.u, x), "row elsewhere");
        }
    });
}
// Values given in the ghost cells moved to the right-hand side: the residual of
// the eliminated rows is the residual of the plain rows.
template <kind k, int n, int s>
void moved()
{
    problem p;
    data<CELL> rhs("rhs", 1, p.b);
    data<CELL, W> plain("plain", 1, entries(p.b), p.sg);
    p.offdiag(k, plain.p);
    p.diag(k, plain.p);
    p.offdiag(k, p.st.p);
    p.diag(k, p.st.p);
    int s0[3], s1[3], i0 = p.i0, i1 = p.i1, j0 = p.j0, j1 = p.j1, k0 = p.k0, k1 = p.k1;
    static const char *const lo[] = {"p0", "p1", "p2"}, *const hi[] = {"q0", "q1", "q2"};
    for (int m = 0; m < VF_DIM; m++) {
        int d = dimension(m);
        if (m == n) {
            s0[m] = s1[m] = s == 0 ? p.b.lo[d] - 1 : p.b.hi(d) + 1;
        } else {
            s0[m] = vf_int(lo[m]);
            s1[m] = vf_int(hi[m]);
            vf_ge(s0[m], p.b.lo[d]);
            vf_ge(s1[m], s0[m]);
            vf_ge(p.b.hi(d), s1[m]);
        }
    }
    const int side = s;
    [[maybe_unused]] const int dir = n;
    stencil_k::adj_cf_bdryrhs(CORNERS, SEGMENT, DIR side, p.sg, p.st.p, p.ug, p.u.p, rhs.p);
    stencil_k::readj_offdiag(CORNERS, SEGMENT, DIR side, p.sg, p.st.p);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        vf_check_real(rhs.fin(x) - row(p.st, p.u, x), rhs.ini(x) - row(plain, p.u, x), "residual");
    });
}

// Coarse-fine boundaries, for every refinement ratio: interpolation weights moved
// into the assembled rows give the rows assembled from the interpolated entries,
// and the weights of an interpolation add up to one.
template <kind k, int n, int s, int ord>
void coarse_fine()
{
    problem p;
    data<CELL, W> later("later", 1, entries(p.b), p.sg);
    int r = vf_int("ratio");
    vf_ge(r, 1);
    int s0[3], s1[3], i0 = p.i0, i1 = p.i1, j0 = p.j0, j1 = p.j1, k0 = p.k0, k1 = p.k1;
    static const char *const lo[] = {"p0", "p1", "p2"}, *const hi[] = {"q0", "q1", "q2"};
    for (int m = 0; m < VF_DIM; m++) {
        int d = dimension(m);
        if (m == n) {
            s0[m] = s1[m] = s == 0 ? p.b.lo[d] - 1 : p.b.hi(d) + 1;
        } else {
            s0[m] = vf_int(lo[m]);
            s1[m] = vf_int(hi[m]);
            vf_ge(s0[m], p.b.lo[d]);
            vf_ge(s1[m], s0[m]);
            vf_ge(p.b.hi(d), s1[m]);
        }
    }
    const int side = s, order = ord;
    [[maybe_unused]] const int dir = n;
    p.offdiag(k, p.st.p);
    p.diag(k, p.st.p);
    stencil_k::adj_cf_offdiag(CORNERS, SEGMENT, r, DIR side, order, p.sg, p.st.p);
    if (k == poisson)
        stencil_k::adj_poisson_cf_diag(CORNERS, SEGMENT, r, DIR side, order, p.h, p.beta, p.sg, p.st.p);
    else
        stencil_k::adj_cf_diag(CORNERS, SEGMENT, r, DIR side, order, p.h, p.beta, FACES(p.b), p.sg, p.st.p);
    p.offdiag(k, later.p);
    stencil_k::adj_cf_offdiag(CORNERS, SEGMENT, r, DIR side, order, p.sg, later.p);
    p.diag(k, later.p);
    ensures([&] {
        int x[4];
        p.any_cell(x);
        for (int m = 0; m < 2 * VF_DIM + 1; m++) vf_check_real(entry(p.st, x, m), entry(later, x, m), "adjusted entry");
        real sum = entry(p.st, x, 0);
        for (int m = 1; m < 2 * VF_DIM + 1; m++) sum = sum + entry(p.st, x, m);
        if (k == v1) vf_check_real(sum, p.alpha * p.a.ini(x), "adjusted row sum");
        if (k == v2) vf_check_real(sum, p.alpha, "adjusted row sum");
        if (k == poisson) vf_check_real(sum, 0, "adjusted row sum");
    });
}

// Ghost cells next to face s of direction n: what the boundary kernels store makes
// the discrete boundary condition hold at the face,
//   u_b = 0 (type 0), u' = 0 (type 1), alpha d u' = beta u_b (type 4),
// with u_b the linear (order 1) or quadratic (order 2) interpolant at the face and
// u' the centred difference.  Segments may reach beyond the patch: they are clamped.
template <kind k, int n, int s, int bt, int ex>
void ghost()
{
    problem p(1);
    int s0[3], s1[3], i0 = p.i0, i1 = p.i1, j0 = p.j0, j1 = p.j1, k0 = p.k0, k1 = p.k1;
    static const char *const lo[] = {"p0", "p1", "p2"}, *const hi[] = {"q0", "q1", "q2"};
    for (int m = 0; m < VF_DIM; m++) {
        int d = dimension(m);
        if (m == n) {
            s0[m] = s1[m] = s == 0 ? p.b.lo[d] - 1 : p.b.hi(d) + 1;
        } else {
            s0[m] = vf_int(lo[m]);
            s1[m] = vf_int(hi[m]);
            vf_ge(s1[m], s0[m]);
            vf_ge(s1[m], p.b.lo[d]);
            vf_ge(p.b.hi(d), s0[m]);
        }
    }
    const int btype = bt, order = ex, face = 2 * n + s, none = 0;
    [[maybe_unused]] const int type = 1;
    const real ca = vf_real("ca"), cb = ex == 2 ? 1 : vf_real("cb");
    if (k == poisson)
        bc_k::set_poisson_bc(PAIRS, p.h, p.ug, p.u.p, s0, s1, order, face, TYPE btype, ca, cb);
    else
        bc_k::set_bc(PAIRS, p.h, none, FACES(p.b), p.ug, p.u.p, s0, s1, order, face, TYPE btype, ca, cb);
    ensures([&] {
        int x[4], d = dimension(n);
        p.u.any(x);
        bool at = x[d] == s0[n];
        for (int m = 0; m < VF_DIM; m++) {
            if (m == n) continue;
            if (x[dimension(m)] < s0[m]) at = false;
            if (s1[m] < x[dimension(m)]) at = false;
            if (x[dimension(m)] < p.b.lo[dimension(m)]) at = false;
            if (p.b.hi(dimension(m)) < x[dimension(m)]) at = false;
        }
        if (!at) {
            vf_check_real(p.u.fin(x), p.u.ini(x), "unchanged elsewhere");
            return;
        }
        const int in = 1 - 2 * s;
        real g = p.u.fin(x), u1 = value(p.u, x, d, in);
        real ub = ex == 1 ? (g + u1) / 2 : (3 * g + 6 * u1 - value(p.u, x, d, 2 * in)) / 8;
        if (bt == 0) vf_check_real(ub, 0, "value at the face");
        if (bt == 1) vf_check_real(g, u1, "difference at the face");
        if (bt == 4) {
            real c = ca;
            int y[4] = {x[0], x[1], x[2], 0};
            y[d] = y[d] + in;
            if (k != poisson) c = ca * p.b_at(d, s, y);
            vf_check_real(c * (u1 - g) / p.h[n], cb * ub, "flux through the face");
        }
    });
}
#if VF_DIM == 2
// homogeneous values at the face, interpolated with ex ghost and interior cells
template <int n, int s, int ex>
void homogeneous()
{
    space b = anyspace(order<CELL>{}, ex > 3 ? ex - 1 : 1);
    data<CELL> u("u", 1, b, 1);
    if (ex > 2) vf_ge(b.n[dimension(n)], ex - 1);
    int i0 = b.lo[I], i1 = b.hi(I), j0 = b.lo[J], j1 = b.hi(J);
    int s0[2], s1[2];
    static const char *const lo[] = {"p0", "p1"}, *const hi[] = {"q0", "q1"};
    for (int m = 0; m < 2; m++) {
        s0[m] = vf_int(lo[m]);
        s1[m] = vf_int(hi[m]);
        vf_ge(s0[m], b.lo[dimension(m)]);
        vf_ge(s1[m], s0[m]);
        vf_ge(b.hi(dimension(m)), s1[m]);
    }
    const int face = 2 * n + s, order = ex;
    const int l = s == 0 ? b.lo[dimension(n)] - 1 : b.hi(dimension(n)) + 1;
    bc_k::set_homogenous_bc(CORNERS, face, s0, s1, order, u.p);
    ensures([&] {
        int x[4], d = dimension(n), e = dimension(1 - n);
        u.any(x);
        if (x[d] != l) {
            vf_check_real(u.fin(x), u.ini(x), "unchanged elsewhere");
            return;
        }
        if (x[e] < s0[1 - n]) return;
        if (s1[1 - n] < x[e]) return;
        const int in = 1 - 2 * s;
        real g = u.fin(x), u1 = value(u, x, d, in);
        if (ex == 1) {
            vf_check_real(g + u1, 0, "value at the face");
        } else {
            real u2 = value(u, x, d, 2 * in);
            if (ex == 2) {
                vf_check_real(3 * g + 6 * u1 - u2, 0, "value at the face");
            } else {
                real u3 = value(u, x, d, 3 * in);
                if (ex == 3)
                    vf_check_real(5 * g + 15 * u1 - 5 * u2 + u3, 0, "value at the face");
                else
                    vf_check_real(35 * g + 140 * u1 - 70 * u2 + 28 * u3 - 5 * value(u, x, d, 4 * in), 0, "value at the face");
            }
        }
    });
}
#endif
