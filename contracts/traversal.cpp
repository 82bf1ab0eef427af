// matrix_traversal_iterator, make_submatrix, make_transpose, ravel/unravel
#include "index.hpp"
#include "cuda/submatrix_iterator.hpp"
#include "cuda/transpose_iterator.hpp"

using namespace vf;

// ---- index maps -------------------------------------------------------------
template <int N>
void ravel_unravel()
{
    int n[N], c[N];
    extents(n);
    position(c, n);
    int k = ravel<N>(n, c);
    vf_check_int(k, rank(n, c), "ravel is the row-major rank");
    vf_check_ge(k, 0, "rank non-negative");
    vf_check_ge(count(n) - 1, k, "rank below element count");
    int d[N];
    unravel<N>(n, k, d);
    for (int i = 0; i < N; i++) vf_check_int(d[i], c[i], "unravel inverts ravel");
}
template <int N>
void unravel_ravel()
{
    int n[N], d[N];
    extents(n);
    int k = vf_int("k");
    requires_in(k, 0, count(n) - 1);
    unravel<N>(n, k, d);
    for (int i = 0; i < N; i++) {
        vf_check_ge(d[i], 0, "digit non-negative");
        vf_check_ge(n[i] - 1, d[i], "digit below extent");
    }
    vf_check_int(ravel<N>(n, d), k, "ravel inverts unravel");
}
template <int N>
void unravel_end()
{
    int n[N], d[N];
    extents(n);
    unravel<N>(n, count(n), d);
    vf_check_int(ravel<N>(n, d), count(n), "one-past-the-end round trip");
}
template <int N>
void strides()
{
    int n[N], s[N], m[N];
    extents(n);
    anyints(m, 5);
    for (int i = 0; i < N; i++) fits(n, m[i]);
    stride_from_size(n, s);
    for (int i = 0; i < N; i++) {
        vf_check_int(s[i], weight(n, i), "stride_from_size is the row-major weight");
        vf_check_int(stride_dim<N>(n, i), weight(n, i), "stride_dim is the row-major weight");
    }
    vf_check_int(stride_dim<-1, N>(n), count(n), "stride_dim<-1> is the element count");
    vf_check_int(stride_dim<N>(n, -1), count(n), "stride_dim(-1) is the element count");
    vf_check_int(stride_dim<0, N>(n), weight(n, 0), "stride_dim<0>");
    vf_check_int(stride_dim<N - 1, N>(n), 1, "stride_dim<N-1>");
    vf_check_int(stride_dim<0, N>(n, m), weight(n, 0) * m[0], "stride_dim<0> scaled by step");
    vf_check_int(stride_dim<N - 1, N>(n, m), m[N - 1], "stride_dim<N-1> scaled by step");
}
CONTRACT(ravel_unravel_1) { ravel_unravel<1>(); }
CONTRACT(ravel_unravel_2) { ravel_unravel<2>(); }
CONTRACT(ravel_unravel_3) { ravel_unravel<3>(); }
CONTRACT(ravel_unravel_4) { ravel_unravel<4>(); }
CONTRACT(ravel_unravel_5) { ravel_unravel<5>(); }
CONTRACT(unravel_ravel_1) { unravel_ravel<1>(); }
CONTRACT(unravel_ravel_2) { unravel_ravel<2>(); }
CONTRACT(unravel_ravel_3) { unravel_ravel<3>(); }
CONTRACT(unravel_ravel_4) { unravel_ravel<4>(); }
CONTRACT(unravel_end_2) { unravel_end<2>(); }
CONTRACT(unravel_end_3) { unravel_end<3>(); }
CONTRACT(unravel_end_4) { unravel_end<4>(); }
CONTRACT(strides_2) { strides<2>(); }
CONTRACT(strides_3) { strides<3>(); }
CONTRACT(strides_4) { strides<4>(); }

// ---- traversal iterator -----------------------------------------------------
template <int N>
struct gen {
    int n[N], s[N], z[N];
    real* p;
    using it_t = matrix_traversal_iterator<real*, N>;
    gen()
    {
        extents(n);
        anyints(s, 3);
        for (int i = 0; i < N; i++) {
            z[i] = 0;
            vf_fits(n[i], s[i], 1, 1, 1);
        }
        p = array("a", 0, {0, 1});
    }
    it_t begin() { return it_t{p, s, z, n}; }
};
template <int N>
void t_deref()
{
    gen<N> g;
    int c[N], d[N];
    position(c, g.n);
    auto it = g.begin() + rank(g.n, c);
    vf_check_ptr(&*it, g.p + dot(g.s, c), "element at a position");
    typename gen<N>::it_t at{g.p, g.s, c, g.n};
    vf_check_ptr(&*at, g.p + dot(g.s, c), "element at a start position");
    vf_check_state(&at, &it, sizeof(it), "starting at a position is advancing to it");
    vf_check_int(it.size(), count(g.n), "size");
    for (int i = 0; i < N; i++) vf_check_int(it.stride_dim(i), g.s[i], "stride_dim");
    position(d, g.n, 2);
    auto b = g.begin();
    vf_check_ptr(&b[rank(g.n, d)], g.p + dot(g.s, d), "subscript");
    vf_check_ptr(&it[rank(g.n, d) - rank(g.n, c)], g.p + dot(g.s, d), "relative subscript");
}
template <int N>
void t_incdec()
{
    gen<N> g;
    int c[N], d[N];
    position(c, g.n);
    int k = rank(g.n, c);
    int k1 = successor(g.n, c, d) ? rank(g.n, d) : count(g.n);
    vf_check_int(k1, k + 1, "successor has the next rank");
    auto x = g.begin() + k, y = g.begin() + k1;
    auto x1 = x;
    ++x1;
    vf_check_state(&x1, &y, sizeof(x), "++ moves to the next position");
    auto y1 = y;
    --y1;
    vf_check_state(&y1, &x, sizeof(x), "-- moves to the previous position");
    auto x2 = x;
    auto o = x2++;
    vf_check_state(&x2, &y, sizeof(x), "postfix ++ moves to the next position");
    vf_check_ptr(&*o, g.p + dot(g.s, c), "postfix ++ returns the old position");
}
template <int N>
void t_advance(bool aend, bool bend)
{
    gen<N> g;
    int c[N], d[N];
    int a = count(g.n), b = a;
    if (!aend) {
        position(c, g.n, 1);
        a = rank(g.n, c);
    }
    if (!bend) {
        position(d, g.n, 2);
        b = rank(g.n, d);
    }
    auto x = g.begin() + a, y = g.begin() + b;
    vf_check_int(y - x, b - a, "difference of positions");
    vf_check_int(x - g.begin(), a, "distance from begin");
    auto z = x + (b - a);
    vf_check_state(&z, &y, sizeof(x), "+ moves by that many positions");
    auto w = x;
    w -= a - b;
    vf_check_state(&w, &y, sizeof(x), "-= moves back by that many positions");
    vf_check_int(x == y, a == b, "equal exactly at equal positions");
    vf_check_int(x < y, a < b, "ordered by position");
}
CONTRACT(trav_deref_1) { t_deref<1>(); }
CONTRACT(trav_deref_2) { t_deref<2>(); }
CONTRACT(trav_deref_3) { t_deref<3>(); }
CONTRACT(trav_deref_4) { t_deref<4>(); }
CONTRACT(trav_step_1) { t_incdec<1>(); }
CONTRACT(trav_step_2) { t_incdec<2>(); }
CONTRACT(trav_step_3) { t_incdec<3>(); }
CONTRACT(trav_step_4) { t_incdec<4>(); }
CONTRACT(trav_move_1) { t_advance<1>(false, false); }
CONTRACT(trav_move_2) { t_advance<2>(false, false); }
CONTRACT(trav_move_3) { t_advance<3>(false, false); }
CONTRACT(trav_move_4) { t_advance<4>(false, false); }
CONTRACT(trav_toend_1) { t_advance<1>(false, true); }
CONTRACT(trav_toend_2) { t_advance<2>(false, true); }
CONTRACT(trav_toend_3) { t_advance<3>(false, true); }
CONTRACT(trav_fromend_1) { t_advance<1>(true, false); }
CONTRACT(trav_fromend_2) { t_advance<2>(true, false); }
CONTRACT(trav_fromend_3) { t_advance<3>(true, false); }
CONTRACT(trav_endend_2) { t_advance<2>(true, true); }
CONTRACT(trav_endend_3) { t_advance<3>(true, true); }

// ---- sub-box and transposed traversals ---------------------------------------
template <int N>
void submatrix()
{
    int n[N], lb[N], ub[N], m[N], w[N], c[N];
    extents(n);
    for (int i = 0; i < N; i++) {
        lb[i] = vf_int(nm(4, i));
        m[i] = vf_int(nm(5, i));
        ub[i] = vf_int(nm(6, i));
        vf_ge(m[i], 1);
        fits(n, m[i]);
        requires_in(lb[i], 0, n[i] - 1);
        requires_in(ub[i], lb[i], n[i] - 1);
    }
    real* p = array("a", 0, {0, 1});
    auto it = make_submatrix(p, n, lb, ub, m);
    // number of steps of each dimension: lb, lb+m, ... not beyond ub
    int total = 1;
    for (int i = 0; i < N; i++) {
        w[i] = (ub[i] - lb[i]) / m[i] + 1;
        total = total * w[i];
    }
    vf_check_int(it.size(), total, "number of elements of the sub-box");
    position(c, w);
    long off = 0;
    for (int i = 0; i < N; i++) {
        vf_check_ge(ub[i], lb[i] + c[i] * m[i], "selected index not beyond the upper bound");
        off = off + static_cast<long>(lb[i] + c[i] * m[i]) * weight(n, i);
    }
    vf_check_ptr(&*(it + rank(w, c)), p + off, "element of the sub-box");
}
CONTRACT(submatrix_1) { submatrix<1>(); }
CONTRACT(submatrix_2) { submatrix<2>(); }
CONTRACT(submatrix_3) { submatrix<3>(); }
CONTRACT(submatrix_4) { submatrix<4>(); }

template <int... I>
void transpose()
{
    constexpr int N = sizeof...(I);
    int n[N], c[N];
    extents(n);
    int perm[] = {I...};
    int w[] = {n[I]...};
    real* p = array("a", 0, {0, 1});
    auto it = make_transpose<I...>(p, n);
    vf_check_int(it.size(), count(n), "number of elements of the transpose");
    position(c, w);
    long off = 0;
    for (int i = 0; i < N; i++) off = off + static_cast<long>(c[i]) * weight(n, perm[i]);
    vf_check_ptr(&*(it + rank(w, c)), p + off, "element of the transpose");
}
CONTRACT(transpose_0) { transpose<0>(); }
CONTRACT(transpose_01) { transpose<0, 1>(); }
CONTRACT(transpose_10) { transpose<1, 0>(); }
CONTRACT(transpose_012) { transpose<0, 1, 2>(); }
CONTRACT(transpose_021) { transpose<0, 2, 1>(); }
CONTRACT(transpose_102) { transpose<1, 0, 2>(); }
CONTRACT(transpose_120) { transpose<1, 2, 0>(); }
CONTRACT(transpose_201) { transpose<2, 0, 1>(); }
CONTRACT(transpose_210) { transpose<2, 1, 0>(); }
CONTRACT(transpose_3210) { transpose<3, 2, 1, 0>(); }
CONTRACT(transpose_1302) { transpose<1, 3, 0, 2>(); }

