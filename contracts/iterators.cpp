// forward_stencil_iterator, coarse_to_fine_iterator, offset_iterator
#include "index.hpp"
#include "cuda/submatrix_iterator.hpp"
#include "cuda/forward_stencil_iterator.hpp"
#include "cuda/coarse_to_fine_iterator.hpp"
#include "cuda/offset_iterator.hpp"

using namespace vf;

// ---- forward stencil ----------------------------------------------------------
// a sequence of D pairs (e, e+s), in runs of L consecutive e's followed by a
// gap of s elements; the position after the last one is one past the last e
struct fs {
    int s, L, R, D; // R full runs
    real* p;
    fs()
    {
        s = vf_int("s");
        L = vf_int("L");
        R = vf_int("R");
        vf_ge(s, 1);
        vf_ge(L, 1);
        vf_ge(R, 1);
        vf_fits(L, R, 1, 1, 1);
        vf_fits(R, s, 1, 1, 1);
        D = R * L;
        p = array("a", 0, {0, 1});
    }
    auto begin() { return make_forward_stencil(p, s, L, D); }
    // position: run q, place r; address
    void position(const char* qn, const char* rn, int& q, int& r)
    {
        q = vf_int(qn);
        r = vf_int(rn);
        requires_in(q, 0, R - 1);
        requires_in(r, 0, L - 1);
    }
    long at(int q, int r) { return static_cast<long>(q) * (L + s) + r; }
};
CONTRACT(stencil_deref)
{
    fs g;
    int q, r, q2, r2;
    g.position("q", "r", q, r);
    g.position("q2", "r2", q2, r2);
    int k = q * g.L + r;
    auto it = g.begin() + k;
    auto e = *it;
    vf_check_ptr(&e.a, g.p + g.at(q, r), "first element of the pair");
    vf_check_ptr(&e.b, g.p + g.at(q, r) + g.s, "second element of the pair");
    auto f = it[q2 * g.L + r2 - k];
    vf_check_ptr(&f.a, g.p + g.at(q2, r2), "relative subscript");
    vf_check_int(g.begin().size(), g.D, "number of pairs");
    vf_check_int(it - g.begin(), k, "distance from begin");
}
CONTRACT(stencil_step)
{
    fs g;
    int q, r;
    g.position("q", "r", q, r);
    int k = q * g.L + r;
    // ghost case split: last of the run, last of all
    int q1 = q, r1 = r + 1;
    bool end = false;
    if (r == g.L - 1) {
        if (q == g.R - 1) {
            end = true;
        } else {
            q1 = q + 1;
            r1 = 0;
        }
    }
    auto x = g.begin() + k;
    auto y = g.begin() + (end ? g.D : q1 * g.L + r1);
    auto x1 = x;
    ++x1;
    vf_check_state(&x1, &y, sizeof(x), "++ moves to the next pair");
    auto y1 = y;
    --y1;
    vf_check_state(&y1, &x, sizeof(x), "-- moves to the previous pair");
    vf_check_int(x1 == y, 1, "++ reaches the iterator one further");
    vf_check_int(x == y, 0, "distinct positions differ");
}
CONTRACT(stencil_move)
{
    fs g;
    int q, r, q2, r2;
    g.position("q", "r", q, r);
    g.position("q2", "r2", q2, r2);
    int a = q * g.L + r, b = q2 * g.L + r2;
    auto x = g.begin() + a, y = g.begin() + b;
    vf_check_int(y - x, b - a, "difference of positions");
    auto z = x + (b - a);
    vf_check_state(&z, &y, sizeof(x), "+ moves by that many pairs");
    z = x;
    z -= a - b;
    vf_check_state(&z, &y, sizeof(x), "-= moves back by that many pairs");
}
CONTRACT(stencil_move_end)
{
    fs g;
    int q, r;
    g.position("q", "r", q, r);
    int a = q * g.L + r;
    auto x = g.begin() + a, y = g.begin() + g.D;
    vf_check_int(y - x, g.D - a, "difference of positions");
    auto z = x + (g.D - a);
    vf_check_state(&z, &y, sizeof(x), "+ moves to the end");
    vf_check_int(z == y, 1, "the end is reached");
    z = y - (g.D - a);
    vf_check_state(&z, &x, sizeof(x), "- moves back from the end");
    z = y + 0;
    vf_check_state(&z, &y, sizeof(x), "+0 stays at the end");
}
// pairs of neighbours along dimension I of a traversal
template <int N, int I>
void nd_stencil()
{
    int n[N], m[N], c[N], s[N], z[N], d[N];
    extents(n);
    vf_ge(n[I], 2);
    anyints(s, 3);
    for (int i = 0; i < N; i++) {
        z[i] = 0;
        vf_fits(n[i], s[i], 1, 1, 1);
        m[i] = i == I ? n[i] - 1 : n[i];
    }
    real* p = array("a", 0, {0, 1});
    matrix_traversal_iterator<real*, N> t{p, s, z, n};
    position(c, m);
    for (int i = 0; i < N; i++) d[i] = i == I ? c[i] + 1 : c[i];
    int k = rank(m, c);
    auto st = t.template stencil<I>();
    vf_check_int(st.size(), count(m), "number of pairs");
    // ghost: the run and the place in it
    auto it = st + k;
    auto e = *it;
    vf_check_ptr(&e.a, p + dot(s, c), "first of the pair");
    vf_check_ptr(&e.b, p + dot(s, d), "neighbour of the pair");
    auto su = t.stencil(I);
    vf_check_int(su.size(), count(m), "number of pairs (run-time dimension)");
    auto e2 = su[k];
    vf_check_ptr(&e2.a, p + dot(s, c), "first of the pair (run-time dimension)");
    vf_check_ptr(&e2.b, p + dot(s, d), "neighbour of the pair (run-time dimension)");
}
CONTRACT(nd_stencil_1_0) { nd_stencil<1, 0>(); }
CONTRACT(nd_stencil_2_0) { nd_stencil<2, 0>(); }
CONTRACT(nd_stencil_2_1) { nd_stencil<2, 1>(); }
CONTRACT(nd_stencil_3_0) { nd_stencil<3, 0>(); }
CONTRACT(nd_stencil_3_1) { nd_stencil<3, 1>(); }
CONTRACT(nd_stencil_3_2) { nd_stencil<3, 2>(); }

// ---- coarse to fine -----------------------------------------------------------
CONTRACT(coarse_index)
{
    int r = vf_int("r"), fi = vf_int("fi");
    vf_ge(r, 1);
    int ci = detail::coarse_index(r, fi);
    vf_check_ge(fi, r * ci, "fine index not before its coarse cell");
    vf_check_ge(r * ci + r - 1, fi, "fine index not after its coarse cell");
}
struct cf {
    int r, s, fi, ci, f0;
    real* p;
    cf()
    {
        r = vf_int("r");
        s = vf_int("s");
        // the fine index is the f0-th of coarse cell ci
        ci = vf_int("ci");
        f0 = vf_int("f0");
        vf_ge(r, 1);
        requires_in(f0, 0, r - 1);
        vf_fits(r, ci, 1, 1, 1);
        vf_fits(s, ci, 1, 1, 1);
        fi = r * ci + f0;
        p = array("a", 0, {0, 1});
    }
    coarse_to_fine_iterator<real*> begin() { return {p, r, s, fi}; }
};
CONTRACT(c2f_deref)
{
    cf g;
    // element k is fine index fi+k, the e-th of coarse cell c
    int c = vf_int("c"), e = vf_int("e");
    requires_in(e, 0, g.r - 1);
    vf_fits(g.r, c, 1, 1, 1);
    vf_fits(g.s, c, 1, 1, 1);
    int k = c * g.r + e - g.fi;
    auto b = g.begin();
    auto it = b + k;
    vf_check_ptr(&*it, g.p + static_cast<long>(c - g.ci) * g.s, "coarse element under a fine index");
    vf_check_ptr(&b[k], g.p + static_cast<long>(c - g.ci) * g.s, "subscript");
    auto x = it;
    ++x;
    auto y = b + (k + 1);
    vf_check_state(&x, &y, sizeof(x), "++ is +1");
    --x;
    vf_check_state(&x, &it, sizeof(x), "-- inverts ++");
    int m = vf_int("m");
    auto z = it + m;
    auto w = b + (k + m);
    vf_check_state(&z, &w, sizeof(x), "advances add up");
    vf_check_int(z - it, m, "difference");
    vf_check_int(it - b, k, "distance");
    vf_check_int(z == it, m == 0, "equality");
}
template <int N, int I>
void make_c2f()
{
    int n[N], ci[N], r = vf_int("r"), c = vf_int("c"), e = vf_int("e"), f0 = vf_int("f0");
    extents(n);
    anyints(ci, 1);
    vf_ge(r, 1);
    requires_in(e, 0, r - 1);
    requires_in(f0, 0, r - 1);
    real* p = array("a", 0, {0, 1});
    int b = vf_int("b"); // coarse cell of the first fine index
    for (int i = 0; i < N; i++) fits_with(n, i, ci[i]);
    fits_with(n, I, b);
    fits_with(n, I, c);
    vf_fits(r, b, 1, 1, 1);
    vf_fits(r, c, 1, 1, 1);
    auto it = make_coarse_to_fine<I>(p, n, ci, b * r + f0, r);
    long off = rank(n, ci) + static_cast<long>(c - b) * weight(n, I);
    vf_check_ptr(&it[c * r + e - (b * r + f0)], p + off, "coarse element along a dimension");
}
CONTRACT(make_c2f_1_0) { make_c2f<1, 0>(); }
CONTRACT(make_c2f_2_0) { make_c2f<2, 0>(); }
CONTRACT(make_c2f_2_1) { make_c2f<2, 1>(); }
CONTRACT(make_c2f_3_0) { make_c2f<3, 0>(); }
CONTRACT(make_c2f_3_1) { make_c2f<3, 1>(); }
CONTRACT(make_c2f_3_2) { make_c2f<3, 2>(); }

// ---- offsets -------------------------------------------------------------------
template <int N>
void offset()
{
    int s[N];
    anyints(s, 3);
    int n = vf_int("n"), k = vf_int("k"), m = vf_int("m");
    vf_ge(n, 1);
    requires_in(k, 0, n - 1);
    requires_in(m, 0, n - 1);
    real* p = array("a", 0, {0, 1});
    int* o = vf_iarr("o", 2, n, N);
    auto b = make_offset_iterator(p, s, thrust::device_ptr<int>(o));
    for (int j = 0; j < N; j++) {
        vf_fits(s[j], o[k * N + j], 1, 1, 1);
        vf_fits(s[j], o[m * N + j], 1, 1, 1);
    }
    long off = 0, off2 = 0;
    for (int j = 0; j < N; j++) off = off + static_cast<long>(s[j]) * o[k * N + j];
    auto it = b + k;
    vf_check_ptr(&*it, p + off, "element at an offset");
    for (int j = 0; j < N; j++) off2 = off2 + static_cast<long>(s[j]) * o[m * N + j];
    vf_check_ptr(&b[m], p + off2, "subscript");
    vf_check_ptr(&it[m - k], p + off2, "relative subscript");
    auto x = it, y = b + (k + 1);
    ++x;
    vf_check_state(&x, &y, sizeof(x), "++ is +1");
    --x;
    vf_check_state(&x, &it, sizeof(x), "-- inverts ++");
    auto z = it + (m - k), w = b + m;
    vf_check_state(&z, &w, sizeof(x), "advances add up");
    vf_check_int(w - it, m - k, "difference");
    vf_check_int(w == it, m == k, "equality");
}
CONTRACT(offset_1) { offset<1>(); }
CONTRACT(offset_2) { offset<2>(); }
CONTRACT(offset_3) { offset<3>(); }
CONTRACT(offset_4) { offset<4>(); }
