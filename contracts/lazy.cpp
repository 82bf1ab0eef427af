// lazy expressions and with_domain assignment
#include "spanbox.hpp"
using namespace vf;

// out, a, b over the same index box, stored in orders S, A, B; domain in order O.
// Post: every element of out selected by the domain holds spec(x), every other
// element of out its old value (a and b are read-only).
template <int... S, int... A, int... B, int... O, typename F, typename G>
void assign(order<S...> so, order<A...>, order<B...>, order<O...> oo, bool strided, int margin, F run, G spec)
{
    space b = anyspace(so);
    data<S...> out("out", 1, b);
    data<A...> a("a", 0, b, margin);
    data<B...> c("b", 0, b, margin);
    dom r = anydom(oo, strided);
    requires_inside(oo, r, b);
    auto vo = out.span();
    auto va = a.cspan();
    auto vc = c.cspan();
    run(with_domain(db<O>(r)...), vo, va, vc);
    ensures([&] {
        int x[4];
        out.any(x);
        if (r.has(oo, x))
            vf_check_real(out.fin(x), spec(out, a, c, x), "assigned value on the domain");
        else
            vf_check_real(out.fin(x), out.ini(x), "unchanged outside the domain");
    });
}
// expression E over (o, a, b) lazily and as real arithmetic
#define EXPR(name, E)                                                                    \
    struct name {                                                                        \
        template <typename P, typename U, typename V, typename X>                        \
        static auto eval(P&& o, U&& a, V&& b, X s, X t)                                  \
        {                                                                                \
            return E;                                                                    \
        }                                                                                \
    }
template <typename E, int... S, int... A, int... B, int... O>
void pointwise(order<S...> s, order<A...> p, order<B...> q, order<O...> oo, bool strided = false)
{
    real x = vf_real("s"), y = vf_real("t");
    assign(
        s, p, q, oo, strided, 0, [=](auto&& with, auto& o, auto& a, auto& b) { with(o = E::eval(o, a, b, x, y)); },
        [=](auto& o, auto& a, auto& b, const int(&i)[4]) { return E::eval(o.ini(i), a.ini(i), b.ini(i), x, y); });
}
using o1 = order<I>;
using ji = order<J, I>;
using ij = order<I, J>;
using kji = order<K, J, I>;
using jik = order<J, I, K>;
using ikj = order<I, K, J>;

EXPR(add, a + b);
EXPR(sub, a - b);
EXPR(mul, a* b);
EXPR(quo, a / b);
EXPR(sadd, s + a);
EXPR(ssub, s - a);
EXPR(smul, s* a);
EXPR(squo, s / a);
EXPR(adds, a + s);
EXPR(subs, a - s);
EXPR(muls, a* s);
EXPR(quos, a / s);
EXPR(isub, 2 - a);
EXPR(iquo, 3 / a);
EXPR(quoi, a / 3);
EXPR(deep1, (a + 2 * b) * (a - b) / (s * b) - t);
EXPR(deep2, s - (t - (a - (b - a * 2))));
EXPR(deep3, (s / a) / (b / t) + (a - s) * (t - b));
EXPR(deep4, a - b - a * b / (a + b));
EXPR(inplace, o + s * a - o * b);
#define POINT(e)                                                                         \
    CONTRACT(expr1_##e) { pointwise<e>(o1{}, o1{}, o1{}, o1{}); }                        \
    CONTRACT(expr2_##e) { pointwise<e>(ji{}, ij{}, ji{}, ji{}); }                        \
    CONTRACT(expr3_##e) { pointwise<e>(kji{}, jik{}, ikj{}, kji{}); }
POINT(add)
POINT(sub)
POINT(mul)
POINT(quo)
POINT(sadd)
POINT(ssub)
POINT(smul)
POINT(squo)
POINT(adds)
POINT(subs)
POINT(muls)
POINT(quos)
POINT(isub)
POINT(iquo)
POINT(quoi)
POINT(deep1)
POINT(deep2)
POINT(deep3)
POINT(deep4)
POINT(inplace)
// the order of the bounds does not matter, steps are honoured
CONTRACT(order_ji_ij) { pointwise<deep1>(ji{}, ji{}, ij{}, ij{}); }
CONTRACT(order_ikj_jik) { pointwise<deep1>(ikj{}, kji{}, jik{}, jik{}); }
CONTRACT(order_kji_ikj) { pointwise<deep4>(kji{}, kji{}, kji{}, ikj{}); }
CONTRACT(strided_1) { pointwise<deep1>(o1{}, o1{}, o1{}, o1{}, true); }
CONTRACT(strided_2) { pointwise<deep1>(ji{}, ij{}, ji{}, ji{}, true); }
CONTRACT(strided_3) { pointwise<sub>(kji{}, jik{}, ikj{}, kji{}, true); }

// number fill, whole left-hand-side domain, several assignments in sequence
template <int... S>
void fill(order<S...> so, bool strided)
{
    real s = vf_real("s");
    assign(
        so, so, so, so, strided, 0, [=](auto&& with, auto& o, auto&, auto&) { with(o = s); },
        [=](auto&, auto&, auto&, const int(&)[4]) { return s; });
}
CONTRACT(fill_1) { fill(o1{}, true); }
CONTRACT(fill_2) { fill(ij{}, true); }
CONTRACT(fill_3) { fill(ikj{}, true); }
template <int... S>
void sequence(order<S...> so)
{
    real s = vf_real("s");
    assign(
        so, so, so, so, false, 0,
        [=](auto&& with, auto& o, auto& a, auto& b) { with(o = a - s, o = o * b, o = 2 / o + a); },
        [=](auto&, auto& a, auto& b, const int(&i)[4]) {
            return 2 / ((a.ini(i) - s) * b.ini(i)) + a.ini(i);
        });
}
CONTRACT(sequence_1) { sequence(o1{}); }
CONTRACT(sequence_2) { sequence(ji{}); }
CONTRACT(sequence_3) { sequence(kji{}); }
template <int... S, int... A>
void lhs_domain(order<S...> so, order<A...>)
{
    space b = anyspace(so);
    data<S...> out("out", 1, b);
    data<A...> a("a", 0, b, 1);
    real s = vf_real("s");
    auto o = out.span();
    auto v = a.cspan();
    with_lhs_domain(o = s * v - v);
    ensures([&] {
        int x[4];
        out.any(x);
        vf_check_real(out.fin(x), s * a.ini(x) - a.ini(x), "assigned everywhere");
    });
}
CONTRACT(lhs_1) { lhs_domain(o1{}, o1{}); }
CONTRACT(lhs_2) { lhs_domain(ji{}, ij{}); }
CONTRACT(lhs_3) { lhs_domain(ikj{}, kji{}); }

// gradients, shifts and neighbours: a and b have one more layer than the domain
#define STEP(x, d, s)                                                                    \
    int y[4] = {x[0], x[1], x[2], x[3]};                                                 \
    y[d] = y[d] + (s)
template <typename D>
real nb(const D& a, const int (&x)[4], int d, int s)
{
    int y[4] = {x[0], x[1], x[2], x[3]};
    y[d] = y[d] + s;
    return a.ini(y);
}
template <int Dim, int... S, int... A, int... O>
void gradient(order<S...> so, order<A...> ao, order<O...> oo)
{
    real h = vf_real("h"), s = vf_real("s");
    assign(
        so, ao, ao, oo, false, 1,
        [=](auto&& with, auto& o, auto& a, auto& b) {
            // upward by default
            if constexpr (Dim == I && sizeof...(S) == 2) with(o = s * a.grad_x(h, up) - b.grad_x(h, down) / 2 + a * b);
            if constexpr (Dim == J && sizeof...(S) == 3) with(o = s * a.grad_y(h, up) - b.grad_y(h, down) / 2 + a * b);
            if constexpr (Dim == I && sizeof...(S) != 2) with(o = s * a.grad_x(h) - b.grad_x(h, down) / 2 + a * b);
            if constexpr (Dim == J && sizeof...(S) != 3) with(o = s * a.grad_y(h) - b.grad_y(h, down) / 2 + a * b);
            if constexpr (Dim == K) with(o = s * a.grad_z(h) - b.grad_z(h, down) / 2 + a * b);
        },
        [=](auto&, auto& a, auto& b, const int(&i)[4]) {
            return s * ((nb(a, i, Dim, 1) - a.ini(i)) / h) - (b.ini(i) - nb(b, i, Dim, -1)) / h / 2 +
                   a.ini(i) * b.ini(i);
        });
}
CONTRACT(gradx_1) { gradient<I>(o1{}, o1{}, o1{}); }
CONTRACT(gradx_2) { gradient<I>(ji{}, ij{}, ji{}); }
CONTRACT(grady_2) { gradient<J>(ij{}, ji{}, ji{}); }
CONTRACT(grady_2b) { gradient<J>(ij{}, ji{}, ij{}); }
CONTRACT(gradx_3) { gradient<I>(kji{}, jik{}, kji{}); }
CONTRACT(grady_3) { gradient<J>(jik{}, kji{}, jik{}); }
CONTRACT(gradz_3) { gradient<K>(kji{}, ikj{}, ikj{}); }
CONTRACT(gradz_3b) { gradient<K>(kji{}, kji{}, kji{}); }
template <int... S, int... A, int... O>
void shifts(order<S...> so, order<A...> ao, order<O...> oo)
{
    // shift distances of either sign, within the extra layers
    int g = vf_int("g"), sx = vf_int("sx"), sy = vf_int("sy"), sz = vf_int("sz");
    vf_ge(g, 0);
    requires_in(sx, -g, g);
    requires_in(sy, -g, g);
    requires_in(sz, -g, g);
    constexpr int N = sizeof...(S);
    assign(
        so, ao, ao, oo, false, g,
        [=](auto&& with, auto& o, auto& a, auto& b) {
            if constexpr (N == 1)
                with(o = a.shift_x(sx) - b.shift_x(sy) * 2);
            else if constexpr (N == 2)
                with(o = a.shift_x(sx) - b.shift_y(sy) + 3 * a.shift_xy(sx, sy));
            else
                with(o = a.shift_z(sz) - b.shift_xz(sx, sz) + 3 * a.shift_xy(sx, sy) - b.shift_yz(sy, sz) * a.shift_y(sy));
        },
        [=](auto&, auto& a, auto& b, const int(&i)[4]) {
            int u[4] = {i[0], i[1], i[2] + sx, 0}, v[4] = {i[0], i[1] + sy, i[2], 0};
            int uv[4] = {i[0], i[1] + sy, i[2] + sx, 0}, w[4] = {i[0] + sz, i[1], i[2], 0};
            int uw[4] = {i[0] + sz, i[1], i[2] + sx, 0}, vw[4] = {i[0] + sz, i[1] + sy, i[2], 0};
            int p[4] = {i[0], i[1], i[2] + sy, 0};
            if constexpr (N == 1)
                return a.ini(u) - b.ini(p) * 2;
            else if constexpr (N == 2)
                return a.ini(u) - b.ini(v) + 3 * a.ini(uv);
            else
                return a.ini(w) - b.ini(uw) + 3 * a.ini(uv) - b.ini(vw) * a.ini(v);
        });
}
CONTRACT(shift_1) { shifts(o1{}, o1{}, o1{}); }
CONTRACT(shift_2) { shifts(ji{}, ij{}, ji{}); }
CONTRACT(shift_3) { shifts(kji{}, jik{}, kji{}); }
CONTRACT(shift_3b) { shifts(ikj{}, kji{}, jik{}); }
// default shifts and differences of neighbours
template <int... S, int... A>
void defaults(order<S...> so, order<A...> ao)
{
    assign(
        so, ao, ao, so, false, 1,
        [=](auto&& with, auto& o, auto& a, auto& b) {
            with(o = a.shift_x() + 2 * a.shift_y() + 3 * a.shift_z() + 4 * b.shift_xy() + 5 * b.shift_xz() +
                     6 * b.shift_yz());
        },
        [=](auto&, auto& a, auto& b, const int(&i)[4]) {
            int xy[4] = {i[0], i[1] + 1, i[2] + 1, 0}, xz[4] = {i[0] + 1, i[1], i[2] + 1, 0},
                yz[4] = {i[0] + 1, i[1] + 1, i[2], 0};
            return nb(a, i, I, 1) + 2 * nb(a, i, J, 1) + 3 * nb(a, i, K, 1) + 4 * b.ini(xy) + 5 * b.ini(xz) +
                   6 * b.ini(yz);
        });
}
CONTRACT(shift_default) { defaults(kji{}, jik{}); }
