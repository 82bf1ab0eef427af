// md_device_span: sub-box / transposed / strided / window views, at(), bounds
#include "spanbox.hpp"
using namespace vf;

// ---- bounds arithmetic -----------------------------------------------------------
template <int D>
void bounds_ops()
{
    int f = vf_int("f"), l = vf_int("l"), m = vf_int("m"), x = vf_int("x");
    vf_ge(l, f);
    vf_ge(m, 1);
    vf_ge(x, 0);
    lazy::dir_bounds<D> b{f, l, m};
    vf_check_int(b.lb(), f, "lower bound");
    vf_check_int(b.ub(), l, "upper bound");
    auto p = b + x;
    vf_check_int(p.lb(), f, "+x keeps the lower bound");
    vf_check_int(p.ub(), l + x, "+x extends the upper bound");
    auto q = b - x;
    vf_check_int(q.lb(), f - x, "-x lowers the lower bound");
    vf_check_int(q.ub(), l, "-x keeps the upper bound");
    int y = vf_int("y");
    vf_ge(-1, y);
    auto s = b + y;
    vf_check_int(s.lb(), f + y, "+ of a negative number lowers the lower bound");
    vf_check_int(s.ub(), l, "+ of a negative number keeps the upper bound");
    int z = vf_int("z");
    auto t = b.shift(z);
    vf_check_int(t.lb(), f + z, "shift moves the lower bound");
    vf_check_int(t.ub(), l + z, "shift moves the upper bound");
    auto e = b.expand(x);
    vf_check_int(e.lb(), f - x, "expand lowers the lower bound");
    vf_check_int(e.ub(), l + x, "expand raises the upper bound");
    auto u = b.unit_stride();
    vf_check_int(u.lb(), f, "unit stride keeps the lower bound");
    vf_check_int(u.ub(), l, "unit stride keeps the upper bound");
    vf_check_int(u.stride, 1, "unit stride");
    vf_check_int(u.size(), l - f + 1, "number of indices");
    for (auto& r : {p, q, s, t, e}) vf_check_int(r.stride, m, "step kept");
    lazy::dir_bounds<D> h{f, l, m, false};
    vf_check_int(h.ub(), l - 1, "exclusive upper bound");
}
CONTRACT(bounds_K) { bounds_ops<K>(); }
CONTRACT(bounds_J) { bounds_ops<J>(); }
CONTRACT(bounds_I) { bounds_ops<I>(); }
CONTRACT(bounds_W) { bounds_ops<W>(); }
// ranges that are not tied to a dimension
CONTRACT(bounds_plain)
{
    int f = vf_int("f"), l = vf_int("l"), m = vf_int("m"), x = vf_int("x");
    vf_ge(l, f);
    vf_ge(m, 1);
    vf_ge(x, 0);
    bounds b{f, l, m};
    vf_check_int(b.lb(), f, "lower bound");
    vf_check_int(b.ub(), l, "upper bound");
    bounds u{f, l};
    vf_check_int(u.lb(), f, "lower bound of a unit range");
    vf_check_int(u.ub(), l, "upper bound of a unit range");
    vf_check_int(u.stride, 1, "step of a unit range");
    vf_check_int(u.size(), l - f + 1, "size of a unit range");
    bounds h{f, l, m, false};
    vf_check_int(h.ub(), l - 1, "exclusive upper bound");
    auto p = b + x, q = b - x, e = b.expand(x);
    vf_check_int(p.lb(), f, "+x keeps the lower bound");
    vf_check_int(p.ub(), l + x, "+x extends the upper bound");
    vf_check_int(q.lb(), f - x, "-x lowers the lower bound");
    vf_check_int(q.ub(), l, "-x keeps the upper bound");
    vf_check_int(e.lb(), f - x, "expand lowers the lower bound");
    vf_check_int(e.ub(), l + x, "expand raises the upper bound");
    for (auto& r : {p, q, e}) vf_check_int(r.stride, m, "step kept");
    Ib d = u;
    vf_check_int(d.lb(), f, "lower bound in a dimension");
    vf_check_int(d.ub(), l, "upper bound in a dimension");
}
CONTRACT(bounds_cells)
{
    int f = vf_int("f"), l = vf_int("l"), g = vf_int("g"), k = vf_int("k");
    vf_ge(l, f);
    vf_ge(k, g);
    vf_fits(l - f + 1, l - f + 1, k - g + 1, 1, 1);
    vf_check_int(detail::bounds_sz(Ib{f, l}), l - f + 1, "cells of a line");
    vf_check_int(detail::bounds_sz(Jb{g, k}, Ib{f, l}), (l - f + 1) * (k - g + 1), "cells of a rectangle");
    vf_check_int(detail::bounds_sz(Kb{g, k}, Jb{f, l}, Ib{f, l}), (l - f + 1) * (l - f + 1) * (k - g + 1), "cells of a box");
}
CONTRACT(bounds_size)
{
    int f = vf_int("f"), l = vf_int("l"), m = vf_int("m"), k = vf_int("k");
    vf_ge(l, f);
    vf_ge(m, 1);
    Ib b{f, l, m};
    // the indices are f, f+m, ... up to l
    int n = b.size();
    vf_check_ge(l, f + (n - 1) * m, "last index of a strided range");
    vf_check_ge(f + n * m, l + 1, "no further index of a strided range");
}
template <int D>
void expand_ghost()
{
    int f = vf_int("f"), l = vf_int("l"), g = vf_int("g");
    vf_ge(l, f);
    vf_ge(g, 0);
    auto e = detail::expand_bounds(g, lazy::dir_bounds<D>{f, l});
    vf_check_int(e.lb(), D == W ? f : f - g, "ghost layers below");
    vf_check_int(e.ub(), D == W ? l : l + g, "ghost layers above");
}
CONTRACT(ghost_K) { expand_ghost<K>(); }
CONTRACT(ghost_J) { expand_ghost<J>(); }
CONTRACT(ghost_I) { expand_ghost<I>(); }
CONTRACT(ghost_W) { expand_ghost<W>(); }

// ---- views -------------------------------------------------------------------------
template <int... S, int... O>
void view(order<S...> so, order<O...> oo, bool strided)
{
    space b = anyspace(so);
    data<S...> a("a", 0, b);
    dom r = anydom(oo, strided);
    requires_inside(oo, r, b);
    auto v = a.span();
    auto it = v(db<O>(r)...);
    int total = 1;
    int w[] = {r.w[O]...}, c[sizeof...(O)], x[4] = {0, 0, 0, 0};
    for (int e : w) total = total * e;
    vf_check_int(it.size(), total, "number of selected elements");
    position(c, w);
    int dd[] = {O...};
    for (int i = 0; i < int(sizeof...(O)); i++) x[dd[i]] = r.f[dd[i]] + c[i] * r.m[dd[i]];
    vf_check_ptr(addr(it[rank(w, c)]), a.at(x), "selected element");
    auto cv = a.cspan();
    auto cit = cv(db<O>(r)...);
    vf_check_ptr(addr(cit[rank(w, c)]), a.at(x), "selected element (const data)");
}
#define VIEW1(n, d)                                                                      \
    CONTRACT(view_##n) { view(order<d>{}, order<d>{}, true); }
VIEW1(k, K)
VIEW1(j, J)
VIEW1(i, I)
#define VIEW2(n, a, b)                                                                   \
    CONTRACT(view_##n##_same) { view(order<a, b>{}, order<a, b>{}, true); }              \
    CONTRACT(view_##n##_swap) { view(order<a, b>{}, order<b, a>{}, true); }
VIEW2(ji, J, I)
VIEW2(ij, I, J)
VIEW2(ki, K, I)
VIEW2(ik, I, K)
VIEW2(kj, K, J)
VIEW2(jk, J, K)
#define VIEW3(n, a, b, c)                                                                \
    CONTRACT(view_##n##_012) { view(order<a, b, c>{}, order<a, b, c>{}, true); }         \
    CONTRACT(view_##n##_021) { view(order<a, b, c>{}, order<a, c, b>{}, true); }         \
    CONTRACT(view_##n##_102) { view(order<a, b, c>{}, order<b, a, c>{}, true); }         \
    CONTRACT(view_##n##_120) { view(order<a, b, c>{}, order<b, c, a>{}, true); }         \
    CONTRACT(view_##n##_201) { view(order<a, b, c>{}, order<c, a, b>{}, true); }         \
    CONTRACT(view_##n##_210) { view(order<a, b, c>{}, order<c, b, a>{}, true); }
VIEW3(kji, K, J, I)
VIEW3(kij, K, I, J)
VIEW3(jki, J, K, I)
VIEW3(jik, J, I, K)
VIEW3(ikj, I, K, J)
VIEW3(ijk, I, J, K)

// ---- construction with ghost layers, element access by index -------------------------
template <int... S>
void access(order<S...> so)
{
    space b = anyspace(so);
    int g = vf_int("g");
    vf_ge(g, 0);
    data<S...> a("a", 0, b, g);
    // bounds given with a step: the layout does not depend on it
    int m = vf_int("m");
    vf_ge(m, 1);
    auto v = make_md_span(a.p, g, lazy::dir_bounds<S>{b.lo[S], b.hi(S), m}...);
    int x[4];
    a.any(x);
    vf_check_ptr(addr(v.at(x[S]...)), a.at(x), "element at an index");
    const real* q = a.p;
    auto cv = make_md_span(q, g, lazy::dir_bounds<S>{b.lo[S], b.hi(S), m}...);
    vf_check_ptr(addr(cv.at(x[S]...)), a.at(x), "element at an index (const data)");
    auto tp = v.dir_bounds();
    vf_check_int((std::get<lazy::dir_bounds<S>>(tp).lb() + ...), (a.b.lo[S] + ...), "declared lower bounds");
    vf_check_int((std::get<lazy::dir_bounds<S>>(tp).ub() + ...), (a.b.hi(S) + ...), "declared upper bounds");
    auto w = make_md_span(a.p, lazy::dir_bounds<S>{a.b.lo[S], a.b.hi(S), m}...);
    vf_check_ptr(addr(w.at(x[S]...)), a.at(x), "element at an index (no ghost layers)");
    auto cw = make_md_span(q, lazy::dir_bounds<S>{a.b.lo[S], a.b.hi(S), m}...);
    vf_check_ptr(addr(cw.at(x[S]...)), a.at(x), "element at an index (const data, no ghost layers)");
}
CONTRACT(at_i) { access(order<I>{}); }
CONTRACT(at_ji) { access(order<J, I>{}); }
CONTRACT(at_ij) { access(order<I, J>{}); }
CONTRACT(at_kji) { access(order<K, J, I>{}); }
CONTRACT(at_jik) { access(order<J, I, K>{}); }
CONTRACT(at_ikj) { access(order<I, K, J>{}); }
CONTRACT(at_iw) { access(order<I, W>{}); }
CONTRACT(at_jiw) { access(order<J, I, W>{}); }
CONTRACT(at_kjiw) { access(order<K, J, I, W>{}); }

// tables of n offsets (of `dims` indices each): row by row, whatever the lower indices
template <typename V>
void table(const V& v, const int* t, int n, int dims, int x, int y)
{
    auto tp = v.dir_bounds();
    auto w = std::get<lazy::dir_bounds<W>>(tp);
    auto i = std::get<lazy::dir_bounds<I>>(tp);
    vf_check_int(w.size(), n, "number of offsets");
    vf_check_int(i.size(), dims, "indices of an offset");
    vf_check_int(w.stride, 1, "step of the offsets");
    vf_check_int(i.stride, 1, "step of the indices");
    vf_check_ptr(addr(v.begin()[x * dims + y]), t + x * dims + y, "index of an offset");
    auto c = v;
    vf_check_ptr(addr(c.at(w.lb() + x, i.lb() + y)), t + x * dims + y, "index of an offset by index");
}
template <int dims>
void tables()
{
    int n = vf_int("n");
    vf_ge(n, 1);
    int* t = vf_iarr("t", 2, n, dims);
    int x = vf_int("x"), y = vf_int("y");
    requires_in(x, 0, n - 1);
    requires_in(y, 0, dims - 1);
    table(make_offset_span(t, n, dims), t, n, dims, x, y);
    table(make_offset_span(static_cast<const int*>(t), n, dims), t, n, dims, x, y);
}
CONTRACT(at_table_1) { tables<1>(); }
CONTRACT(at_table_2) { tables<2>(); }
CONTRACT(at_table_3) { tables<3>(); }

// ---- windows: the last dimension is left open -----------------------------------------
template <int... S, int... O>
void window(order<S...>, order<O...> oo, bool strided)
{
    space b = anyspace(order<S..., W>{});
    data<S..., W> a("a", 0, b);
    dom r = anydom(oo, strided);
    requires_inside(oo, r, b);
    auto v = a.span();
    auto it = v.window()(db<O>(r)...);
    int w[] = {r.w[O]...}, c[sizeof...(O)], x[4] = {0, 0, 0, 0};
    position(c, w);
    int dd[] = {O...};
    for (int i = 0; i < int(sizeof...(O)); i++) x[dd[i]] = r.f[dd[i]] + c[i] * r.m[dd[i]];
    auto st = it[rank(w, c)];
    int e = vf_int("e"), e2 = vf_int("e2");
    requires_in(e, 0, b.n[W] - 1);
    x[W] = b.lo[W] + e;
    vf_check_ptr(addr(st[e]), a.at(x), "entry of the window");
    auto pr = v(e);
    auto&& ref = pr(st);
    vf_check_ptr(addr(ref), a.at(x), "entry selected by the proxy");
}
CONTRACT(window_i) { window(order<I>{}, order<I>{}, true); }
CONTRACT(window_ji) { window(order<J, I>{}, order<J, I>{}, true); }
CONTRACT(window_ji_swap) { window(order<J, I>{}, order<I, J>{}, true); }
CONTRACT(window_kji) { window(order<K, J, I>{}, order<K, J, I>{}, true); }
CONTRACT(window_kji_ijk) { window(order<K, J, I>{}, order<I, J, K>{}, true); }
CONTRACT(window_kji_jik) { window(order<K, J, I>{}, order<J, I, K>{}, true); }
CONTRACT(window_kji_ikj) { window(order<K, J, I>{}, order<I, K, J>{}, true); }
