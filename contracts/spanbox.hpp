// declared data boxes over dimensions K,J,I,(W) in a storage order, and the
// mathematical meaning of indexing them
#pragma once
#include "index.hpp"
#include "cuda/md_device_span.hpp"
#include "cuda/stencil_proxy.hpp"
namespace vf
{
// address behind a reference (plain or thrust reference wrapper)
template <typename R>
const void* addr(R&& r)
{
    return thrust::raw_pointer_cast(&r);
}
enum { K = 0, J = 1, I = 2, W = 3 };
template <int... D>
struct order {
};
inline const char* lname(int d)
{
    static const char* const t[] = {"lk", "lj", "li", "lw"};
    return t[d];
}
inline const char* ename(int d)
{
    static const char* const t[] = {"nk", "nj", "ni", "nw"};
    return t[d];
}
// index box: lower index and extent of every dimension
struct space {
    int lo[4], n[4];
    int hi(int d) const { return lo[d] + n[d] - 1; }
};
template <int... D>
space anyspace(order<D...>, int least = 1)
{
    space b;
    for (int d = 0; d < 4; d++) {
        b.lo[d] = 0;
        b.n[d] = 1;
    }
    for (int d : {D...}) {
        b.lo[d] = vf_int(lname(d));
        b.n[d] = vf_int(ename(d));
        vf_ge(b.n[d], least);
    }
    return b;
}
// storage of a span constructed with bounds of b grown by g, in order D...
template <int... D>
struct data {
    static constexpr int N = sizeof...(D);
    space b;
    const char* name;
    real* p;
    data(const char* s, int writable, const space& box, int g = 0) : b(box), name(s)
    {
        int dd[] = {D...};
        for (int d : {D...}) {
            if (d == W) continue;
            b.lo[d] = box.lo[d] - g;
            b.n[d] = box.n[d] + 2 * g;
        }
        int l[4] = {0, 0, 0, 0}, n[4] = {1, 1, 1, 1};
        for (int i = 0; i < N; i++) {
            l[i] = b.lo[dd[i]];
            n[i] = b.n[dd[i]];
        }
        p = vf_arr(s, writable, N, l[0], n[0], l[1], n[1], l[2], n[2], l[3], n[3]);
    }
    // element at index x (by dimension)
    real* at(const int (&x)[4]) const
    {
        long off = 0;
        for (int d : {D...}) off = off * b.n[d] + (x[d] - b.lo[d]);
        return p + off;
    }
    void coord(const int (&x)[4], int (&c)[4]) const
    {
        int dd[] = {D...};
        for (int i = 0; i < 4; i++) c[i] = i < N ? x[dd[i]] : 0;
    }
    real ini(const int (&x)[4]) const
    {
        int c[4];
        coord(x, c);
        return vf_ini(name, N, c[0], c[1], c[2], c[3]);
    }
    real fin(const int (&x)[4]) const
    {
        int c[4];
        coord(x, c);
        return vf_fin(name, N, c[0], c[1], c[2], c[3]);
    }
    bool has(const int (&x)[4]) const
    {
        for (int d : {D...}) {
            if (x[d] < b.lo[d]) return false;
            if (b.hi(d) < x[d]) return false;
        }
        return true;
    }
    // arbitrary element index
    void any(int (&x)[4]) const
    {
        static const char* const t[] = {"xk", "xj", "xi", "xw"};
        for (int d = 0; d < 4; d++) x[d] = 0;
        for (int d : {D...}) {
            x[d] = vf_int(t[d]);
            requires_in(x[d], b.lo[d], b.hi(d));
        }
    }
    auto span() const { return make_md_span(p, lazy::dir_bounds<D>{b.lo[D], b.hi(D)}...); }
    auto cspan() const
    {
        const real* q = p;
        return make_md_span(q, lazy::dir_bounds<D>{b.lo[D], b.hi(D)}...);
    }
};
// the index box b without storage
template <int... D>
struct cells_t {
    space b;
    void any(int (&x)[4]) const
    {
        static const char* const t[] = {"xk", "xj", "xi", "xw"};
        for (int d = 0; d < 4; d++) x[d] = 0;
        for (int d : {D...}) {
            x[d] = vf_int(t[d]);
            requires_in(x[d], b.lo[d], b.hi(d));
        }
    }
};
// iteration domain: first, last and step of every dimension
struct dom {
    int f[4], l[4], m[4], w[4];
    // is index x selected?
    template <int... D>
    bool has(order<D...>, const int (&x)[4]) const
    {
        for (int d : {D...}) {
            if (x[d] < f[d]) return false;
            if (l[d] < x[d]) return false;
            if (m[d] != 1) {
                if ((x[d] - f[d]) % m[d] != 0) return false;
            }
        }
        return true;
    }
};
template <int... D>
dom anydom(order<D...>, bool strided)
{
    static const char* const fn[] = {"fk", "fj", "fi", "fw"};
    static const char* const ln[] = {"hk", "hj", "hi", "hw"};
    static const char* const sn[] = {"mk", "mj", "mi", "mw"};
    dom r;
    for (int d = 0; d < 4; d++) {
        r.f[d] = r.l[d] = 0;
        r.m[d] = r.w[d] = 1;
    }
    for (int d : {D...}) {
        r.f[d] = vf_int(fn[d]);
        r.l[d] = vf_int(ln[d]);
        vf_ge(r.l[d], r.f[d]);
        if (strided) {
            r.m[d] = vf_int(sn[d]);
            vf_ge(r.m[d], 1);
            r.w[d] = (r.l[d] - r.f[d]) / r.m[d] + 1;
        } else {
            r.w[d] = r.l[d] - r.f[d] + 1;
        }
    }
    return r;
}
// the domain shifted by s lies in the box
template <int... D>
void requires_inside(order<D...>, const dom& r, const space& b, int sk0 = 0, int sk1 = 0, int sj0 = 0, int sj1 = 0, int si0 = 0, int si1 = 0)
{
    int s0[] = {sk0, sj0, si0, 0}, s1[] = {sk1, sj1, si1, 0};
    for (int d : {D...}) {
        vf_ge(r.f[d] + s0[d], b.lo[d]);
        vf_ge(b.hi(d), r.l[d] + s1[d]);
    }
    // a step counts elements of the array
    for (int d : {D...}) {
        int n[] = {b.n[K], b.n[J], b.n[I], b.n[W]};
        n[d] = r.m[d];
        fits(n);
    }
    // and so do the selected elements
    fits(r.w);
}
template <int D>
lazy::dir_bounds<D> db(const dom& r)
{
    return {r.f[D], r.l[D], r.m[D]};
}
} // namespace vf
