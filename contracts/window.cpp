// stencil arrays: with_domain(st.window(), ...)(st(i) = ..., ...)
#include "spanbox.hpp"
using namespace vf;

// st is stored in order S with the stencil entry last (entries 0..4), a and b
// are cell data in orders A, B with one extra layer.  Post: for every selected
// cell x the entries of st hold G (a map from old entries to new ones), every
// other element keeps its value.
constexpr int NW = 5;
struct entries {
    real v[NW];
    real& operator()(int i) { return v[i]; }
};
template <int... S, int... A, int... B, int... O, typename F, typename G>
void window(order<S...>, order<A...>, order<B...>, order<O...> oo, F run, G spec)
{
    order<S..., W> so;
    space b = anyspace(order<S...>{});
    b.lo[W] = 0;
    b.n[W] = NW;
    data<S..., W> st("st", 1, b);
    data<A...> a("a", 0, b, 1);
    data<B...> c("b", 0, b, 1);
    dom r = anydom(oo, false);
    requires_inside(oo, r, b);
    auto vs = st.span();
    auto va = a.cspan();
    auto vc = c.cspan();
    run(with_domain(vs.window(), db<O>(r)...), vs, va, vc);
    ensures([&] {
        int x[4];
        cells_t<S...> box{b};
        box.any(x);
        for (int w = 0; w < NW; w++) {
            x[W] = w;
            if (r.has(oo, x)) {
                entries e;
                for (int u = 0; u < NW; u++) {
                    x[W] = u;
                    e.v[u] = st.ini(x);
                }
                x[W] = w;
                spec(e, a, c, x);
                vf_check_real(st.fin(x), e.v[w], "stencil entry on the domain");
            } else {
                vf_check_real(st.fin(x), st.ini(x), "unchanged outside the domain");
            }
        }
    });
}
template <typename D>
real nb(const D& a, const int (&x)[4], int d, int s)
{
    int y[4] = {x[0], x[1], x[2], 0};
    y[d] = y[d] + s;
    return a.ini(y);
}
template <typename D>
real c0(const D& a, const int (&x)[4])
{
    return nb(a, x, 0, 0);
}
using o1 = order<I>;
using ji = order<J, I>;
using ij = order<I, J>;
using kji = order<K, J, I>;
using jik = order<J, I, K>;
using ikj = order<I, K, J>;

// one program of assignments, for several dimensions and storage orders
#define WINDOW(name, PROG, SPEC)                                                         \
    template <int... S, int... A, int... B, int... O>                                    \
    void name(order<S...> so, order<A...> ao, order<B...> bo, order<O...> oo)            \
    {                                                                                    \
        real s = vf_real("s"), t = vf_real("t");                                         \
        (void)s, (void)t;                                                                \
        window(                                                                          \
            so, ao, bo, oo, [=](auto&& with, auto& st, auto& a, auto& b) { (void)a, (void)b; with PROG; }, \
            [=](entries& e, auto& av, auto& bv, const int(&x)[4]) {                      \
                real a = c0(av, x), b = c0(bv, x);                                       \
                (void)a, (void)b;                                                        \
                SPEC;                                                                    \
            });                                                                          \
    }
#define ALLDIMS(p)                                                                       \
    CONTRACT(p##_1) { p(o1{}, o1{}, o1{}, o1{}); }                                       \
    CONTRACT(p##_2) { p(ji{}, ij{}, ji{}, ji{}); }                                       \
    CONTRACT(p##_3) { p(kji{}, jik{}, ikj{}, kji{}); }

WINDOW(number, (st(0) = s, st(3) = 2.5), (e(0) = s, e(3) = 2.5))
ALLDIMS(number)
WINDOW(number_pair, (st(1, 2) = s, st(0) = t), (e(1) = s, e(2) = s, e(0) = t))
ALLDIMS(number_pair)
WINDOW(lazyrhs, (st(0) = a + s * b, st(4) = a / b - t), (e(0) = a + s * b, e(4) = a / b - t))
ALLDIMS(lazyrhs)
WINDOW(self, (st(0) = -(st(1) + st(2) + st(3) + st(4))), (e(0) = -(e(1) + e(2) + e(3) + e(4))))
ALLDIMS(self)
WINDOW(self_number, (st(2) = s - st(1) * t / 3 + 2 / st(0)), (e(2) = s - e(1) * t / 3 + 2 / e(0)))
ALLDIMS(self_number)
WINDOW(self_iter, (st(0) = st(0) - (s / 3) * a), (e(0) = e(0) - (s / 3) * a))
ALLDIMS(self_iter)
WINDOW(iter_self, (st(0) = a - st(1) * s), (e(0) = a - e(1) * s))
ALLDIMS(iter_self)
WINDOW(self_iter_expr, (st(0) = -(st(1) + st(2)) + s * a / b), (e(0) = -(e(1) + e(2)) + s * a / b))
ALLDIMS(self_iter_expr)
WINDOW(two_iters, (st(0) = (st(1) - a) / b), (e(0) = (e(1) - a) / b))
ALLDIMS(two_iters)
WINDOW(iter_twice, (st(0) = a - st(0) * b), (e(0) = a - e(0) * b))
ALLDIMS(iter_twice)
WINDOW(iter_thrice, (st(1) = a / (b - (s - st(0) * a))), (e(1) = a / (b - (s - e(0) * a))))
ALLDIMS(iter_thrice)
WINDOW(mixed_index, (st(1) = st(2) * (st(0) - a * b), st(3) = (b / st(4)) - st(0)),
       (e(1) = e(2) * (e(0) - a * b), e(3) = (b / e(4)) - e(0)))
ALLDIMS(mixed_index)
// assignments happen one after the other in every cell
WINDOW(sequential, (st(0) = st(0) + st(1) / 3, st(1) = st(1) * s, st(0) = st(0) - st(1) * a),
       (e(0) = e(0) + e(1) / 3, e(1) = e(1) * s, e(0) = e(0) - e(1) * a))
ALLDIMS(sequential)
WINDOW(swap_like, (st(0) = st(0) - st(1), st(1) = st(1) + st(0), st(0) = st(1) - st(0)),
       (e(0) = e(0) - e(1), e(1) = e(1) + e(0), e(0) = e(1) - e(0)))
ALLDIMS(swap_like)
WINDOW(mixed_rhs, (st(0) = s, st(1) = a, st(2) = st(0) * st(1), st(3) = st(2) - b),
       (e(0) = s, e(1) = a, e(2) = e(0) * e(1), e(3) = e(2) - b))
ALLDIMS(mixed_rhs)

// two-point stencils of neighbouring cells: entry i takes the lower, entry j the upper
#define STEN(dim, U)                                                                     \
    template <int... S, int... A, int... B, int... O>                                    \
    void sten_##dim(order<S...> so, order<A...> ao, order<B...> bo, order<O...> oo)      \
    {                                                                                    \
        real s = vf_real("s"), t = vf_real("t");                                         \
        window(                                                                          \
            so, ao, bo, oo,                                                              \
            [=](auto&& with, auto& st, auto& a, auto& b) {                               \
                with(st(1, 2) = s * a.stencil_##dim(), st(4, 3) = t - b.stencil_##dim(down) / s); \
            },                                                                           \
            [=](entries& e, auto& a, auto& b, const int(&x)[4]) {                        \
                e(1) = s * c0(a, x);                                                     \
                e(2) = s * nb(a, x, U, 1);                                               \
                e(4) = t - nb(b, x, U, -1) / s;                                          \
                e(3) = t - c0(b, x) / s;                                                 \
            });                                                                          \
    }
// numbers on either side of a two-point stencil, every operator
#define STENOPS(name, dim, U, PROG, LO, HI, LO2, HI2)                                    \
    template <int... S, int... A, int... B, int... O>                                    \
    void name(order<S...> so, order<A...> ao, order<B...> bo, order<O...> oo)            \
    {                                                                                    \
        real s = vf_real("s"), t = vf_real("t");                                         \
        (void)t;                                                                         \
        window(                                                                          \
            so, ao, bo, oo, [=](auto&& with, auto& st, auto& a, auto& b) { with PROG; }, \
            [=](entries& e, auto& av, auto& bv, const int(&x)[4]) {                      \
                real a0 = c0(av, x), a1 = nb(av, x, U, 1), b0 = c0(bv, x), b1 = nb(bv, x, U, 1); \
                e(1) = LO;                                                               \
                e(2) = HI;                                                               \
                e(4) = LO2;                                                              \
                e(3) = HI2;                                                              \
            });                                                                          \
    }
STENOPS(stencil_add, x, I, (st(1, 2) = s + a.stencil_x(), st(4, 3) = b.stencil_x() + t), s + a0, s + a1, b0 + t, b1 + t)
STENOPS(stencil_sub, x, I, (st(1, 2) = s - a.stencil_x(), st(4, 3) = b.stencil_x() - t), s - a0, s - a1, b0 - t, b1 - t)
STENOPS(stencil_div, y, J, (st(1, 2) = s / a.stencil_y(), st(4, 3) = b.stencil_y() / t), s / a0, s / a1, b0 / t, b1 / t)
STENOPS(stencil_mul, y, J, (st(1, 2) = s * a.stencil_y(), st(4, 3) = b.stencil_y() * t), s * a0, s * a1, b0 * t, b1 * t)
CONTRACT(stencil_add_1) { stencil_add(o1{}, o1{}, o1{}, o1{}); }
CONTRACT(stencil_sub_1) { stencil_sub(o1{}, o1{}, o1{}, o1{}); }
CONTRACT(stencil_div_2) { stencil_div(ji{}, ji{}, ij{}, ji{}); }
CONTRACT(stencil_mul_2) { stencil_mul(ji{}, ij{}, ji{}, ji{}); }

STEN(x, I)
STEN(y, J)
STEN(z, K)
CONTRACT(stencil_x_1) { sten_x(o1{}, o1{}, o1{}, o1{}); }
CONTRACT(stencil_x_2) { sten_x(ji{}, ij{}, ji{}, ji{}); }
CONTRACT(stencil_y_2) { sten_y(ji{}, ij{}, ji{}, ji{}); }
CONTRACT(stencil_x_3) { sten_x(kji{}, jik{}, kji{}, kji{}); }
CONTRACT(stencil_y_3) { sten_y(kji{}, ikj{}, kji{}, kji{}); }
CONTRACT(stencil_z_3) { sten_z(kji{}, jik{}, kji{}, kji{}); }

// cell data updated from stencil entries: out -= ...
template <int... S, int... A, int... O, typename F, typename G>
void update(order<S...>, order<A...>, order<O...> oo, F run, G spec)
{
    space b = anyspace(order<S...>{});
    b.lo[W] = 0;
    b.n[W] = NW;
    data<S..., W> st("st", 0, b);
    data<A...> a("a", 0, b, 1);
    data<S...> out("out", 1, b);
    dom r = anydom(oo, false);
    requires_inside(oo, r, b);
    auto vs = st.cspan();
    auto va = a.cspan();
    auto vo = out.span();
    run(with_domain(vs.window(), db<O>(r)...), vs, va, vo);
    ensures([&] {
        int x[4];
        out.any(x);
        if (r.has(oo, x)) {
            entries e;
            for (int u = 0; u < NW; u++) {
                x[W] = u;
                e.v[u] = st.ini(x);
            }
            x[W] = 0;
            vf_check_real(out.fin(x), spec(e, a, out.ini(x), x), "updated value on the domain");
        } else {
            vf_check_real(out.fin(x), out.ini(x), "unchanged outside the domain");
        }
    });
}
template <int... S, int... A, int... O>
void minus(order<S...> so, order<A...> ao, order<O...> oo)
{
    update(
        so, ao, oo, [](auto&& with, auto& st, auto& a, auto& o) { with(o -= st(2) * a); },
        [](entries& e, auto& a, real o, const int(&x)[4]) { return o - e(2) * c0(a, x); });
}
CONTRACT(update_1) { minus(o1{}, o1{}, o1{}); }
CONTRACT(update_2) { minus(ji{}, ij{}, ji{}); }
CONTRACT(update_3) { minus(kji{}, jik{}, kji{}); }
template <int... S, int... A, int... O>
void minus_expr(order<S...> so, order<A...> ao, order<O...> oo)
{
    real s = vf_real("s");
    update(
        so, ao, oo, [=](auto&& with, auto& st, auto& a, auto& o) { with(o -= s - st(2) / st(1) * a, o -= st(0) + s); },
        [=](entries& e, auto& a, real o, const int(&x)[4]) {
            return o - (s - e(2) / e(1) * c0(a, x)) - (e(0) + s);
        });
}
CONTRACT(update_expr_1) { minus_expr(o1{}, o1{}, o1{}); }
CONTRACT(update_expr_2) { minus_expr(ij{}, ji{}, ij{}); }
CONTRACT(update_expr_3) { minus_expr(jik{}, kji{}, jik{}); }

// two fields updated by one statement list, each from the other: in every cell
// the second update reads what the first one stored
template <int... S, int... A, int... O>
void cross(order<S...>, order<A...>, order<O...> oo)
{
    real s = vf_real("s");
    space b = anyspace(order<S...>{});
    b.lo[W] = 0;
    b.n[W] = NW;
    data<S..., W> st("st", 0, b);
    data<S...> p("p", 1, b);
    data<A...> q("q", 1, b);
    dom r = anydom(oo, false);
    requires_inside(oo, r, b);
    auto vs = st.cspan();
    auto vp = p.span();
    auto vq = q.span();
    with_domain(vs.window(), db<O>(r)...)(vp -= vs(0) * vq, vq -= vs(1) * vp, vp -= vq * vs(2) + s);
    ensures([&] {
        int x[4];
        p.any(x);
        x[W] = 0;
        real e0 = p.ini(x), f0 = q.ini(x), e1 = e0, f1 = f0;
        if (r.has(oo, x)) {
            real w[3];
            for (int u = 0; u < 3; u++) {
                x[W] = u;
                w[u] = st.ini(x);
            }
            x[W] = 0;
            e1 = e0 - w[0] * f0;
            f1 = f0 - w[1] * e1;
            e1 = e1 - (f1 * w[2] + s);
            vf_check_real(p.fin(x), e1, "first field on the domain");
            vf_check_real(q.fin(x), f1, "second field on the domain");
        } else {
            vf_check_real(p.fin(x), e0, "unchanged outside the domain");
            vf_check_real(q.fin(x), f0, "unchanged outside the domain");
        }
    });
}
CONTRACT(update_cross_1) { cross(o1{}, o1{}, o1{}); }
CONTRACT(update_cross_2) { cross(ji{}, ij{}, ji{}); }
CONTRACT(update_cross_3) { cross(kji{}, jik{}, kji{}); }
