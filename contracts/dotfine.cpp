// dot products over offset neighbours, coarse values seen through the fine index
#include "spanbox.hpp"
using namespace vf;

// st has n entries per cell (stored last), u is read at the cell plus the offsets
// o[m*N + d] (d = 0 for the fastest dimension), all within the ghost layers of u.
// Post: v(x) = sum_m st(x,m) u(x + o_m) on the domain, unchanged elsewhere.
template <int n, int... S>
void dots(order<S...> so)
{
    constexpr int N = sizeof...(S);
    space b = anyspace(so);
    b.lo[W] = 0;
    b.n[W] = n;
    int sg = vf_int("sg"), ug = vf_int("ug"), vg = vf_int("vg");
    vf_ge(sg, 0);
    vf_ge(ug, 0);
    vf_ge(vg, 0);
    // the ghost layers of st do not extend the entries
    data<S..., W> st("st", 0, b, sg);
    data<S...> u("u", 0, b, ug);
    data<S...> v("v", 1, b, vg);
    int* o = vf_iarr("o", 2, n, N);
    for (int d = 0; d < N; d++) vf_iarr_bound("o", d, -ug, ug);
    dom r = anydom(so, false);
    requires_inside(so, r, b);
    auto vs = make_md_span(static_cast<const real*>(st.p), sg, lazy::dir_bounds<S>{b.lo[S], b.hi(S)}..., Wb{0, n - 1});
    auto vu = make_md_span(static_cast<const real*>(u.p), ug, lazy::dir_bounds<S>{b.lo[S], b.hi(S)}...);
    auto vv = make_md_span(v.p, vg, lazy::dir_bounds<S>{b.lo[S], b.hi(S)}...);
    with_domain(db<S>(r)...)(vv = vs.dot(vu.offset(thrust::device_ptr<int>(o))));
    ensures([&] {
        int x[4];
        v.any(x);
        if (r.has(so, x)) {
            real sum{};
            for (int m = 0; m < n; m++) {
                int y[4] = {x[0], x[1], x[2], m};
                int z[4] = {x[0], x[1], x[2], 0};
                int c = 0;
                for (int d = 2; d > 2 - N; d--) z[d] = z[d] + o[m * N + c++];
                sum = sum + st.ini(y) * u.ini(z);
            }
            vf_check_real(v.fin(x), sum, "sum over the offset neighbours");
        } else {
            vf_check_real(v.fin(x), v.ini(x), "unchanged outside the domain");
        }
    });
}
#define DOT(n)                                                                           \
    CONTRACT(dot_1_##n) { dots<n>(order<I>{}); }                                         \
    CONTRACT(dot_2_##n) { dots<n>(order<J, I>{}); }                                      \
    CONTRACT(dot_3_##n) { dots<n>(order<K, J, I>{}); }
DOT(1)
DOT(2)
DOT(3)
DOT(5)
DOT(7)

// Along axis A the fine index x sees coarse index floor(x / ratio); the other
// dimensions are single fine indices f and single coarse indices c.
template <int A, int... S, int... F>
void fines(order<S...>, order<F...> fo)
{
    space cb, fb;
    static const char* const cl[] = {"clk", "clj", "cli"};
    static const char* const cn[] = {"cnk", "cnj", "cni"};
    static const char* const at[] = {"ck", "cj", "ci"};
    fb = anyspace(fo);
    cb = fb;
    int r = vf_int("ratio"), c[4] = {0, 0, 0, 0};
    vf_ge(r, 1);
    dom w = anydom(fo, false);
    requires_inside(fo, w, fb);
    for (int d : {S...}) {
        cb.lo[d] = vf_int(cl[d]);
        cb.n[d] = vf_int(cn[d]);
        vf_ge(cb.n[d], 1);
        if (d != A) {
            c[d] = vf_int(at[d]);
            requires_in(c[d], cb.lo[d], cb.hi(d));
            vf_ge(w.f[d], w.l[d]);
        } else {
            vf_fits(r, cb.lo[d], 1, 1, 1);
            vf_fits(r, cb.hi(d) + 1, 1, 1, 1);
            // the coarse image of the fine range lies in the coarse data
            vf_ge(w.f[d], r * cb.lo[d]);
            vf_ge(r * (cb.hi(d) + 1), w.l[d] + 1);
        }
    }
    data<S...> coarse("coarse", 0, cb);
    data<F...> fine("fine", 1, fb);
    auto vc = coarse.cspan();
    auto vf_ = fine.span();
    using lazy::dir_bounds;
    auto run = [&](auto... single) { with_domain(db<F>(w)...)(vf_ = vc.fine(r, single...)); };
    constexpr int N = sizeof...(S);
    if constexpr (N == 3) {
        constexpr int P = A == K ? J : K, Q = A == I ? J : I;
        run(dir_bounds<P>{c[P], c[P]}, dir_bounds<Q>{c[Q], c[Q]});
    } else if constexpr (N == 2) {
        constexpr int P = A == I ? J : I;
        run(dir_bounds<P>{c[P], c[P]});
    }
    ensures([&] {
        int x[4];
        fine.any(x);
        if (w.has(fo, x)) {
            int y[4] = {c[0], c[1], c[2], 0};
            y[A] = vf_int("y"); // the coarse index: r*y <= x < r*(y+1)
            vf_fits(r, y[A], 1, 1, 1);
            vf_ge(x[A], r * y[A]);
            vf_ge(r * y[A] + r, x[A] + 1);
            vf_check_real(fine.fin(x), coarse.ini(y), "value of the coarse cell containing the fine cell");
        } else {
            vf_check_real(fine.fin(x), fine.ini(x), "unchanged outside the domain");
        }
    });
}
CONTRACT(fine_i_3) { fines<I>(order<K, J, I>{}, order<K, J, I>{}); }
CONTRACT(fine_j_3) { fines<J>(order<K, J, I>{}, order<K, J, I>{}); }
CONTRACT(fine_k_3) { fines<K>(order<K, J, I>{}, order<K, J, I>{}); }
CONTRACT(fine_i_2) { fines<I>(order<J, I>{}, order<J, I>{}); }
CONTRACT(fine_j_2) { fines<J>(order<J, I>{}, order<J, I>{}); }
CONTRACT(fine_i_3b) { fines<I>(order<I, K, J>{}, order<K, J, I>{}); }
CONTRACT(fine_j_3b) { fines<J>(order<J, I, K>{}, order<K, J, I>{}); }
CONTRACT(fine_k_3b) { fines<K>(order<J, K, I>{}, order<K, J, I>{}); }
