// shared by the index/iterator contracts: generic extents and positions
#pragma once
#include "vf.hpp"
namespace vf
{
inline const char* nm(int set, int i)
{
    static const char* const t[8][6] = {{"n0", "n1", "n2", "n3", "n4", "n5"},
                                        {"c0", "c1", "c2", "c3", "c4", "c5"},
                                        {"d0", "d1", "d2", "d3", "d4", "d5"},
                                        {"s0", "s1", "s2", "s3", "s4", "s5"},
                                        {"l0", "l1", "l2", "l3", "l4", "l5"},
                                        {"m0", "m1", "m2", "m3", "m4", "m5"},
                                        {"u0", "u1", "u2", "u3", "u4", "u5"},
                                        {"o0", "o1", "o2", "o3", "o4", "o5"}};
    return t[set][i];
}
// the elements of an array with these extents (times s) can be counted
template <int N>
void fits(const int (&n)[N], int s = 1)
{
    vf_fits(n[0], N > 1 ? n[1 % N] : 1, N > 2 ? n[2 % N] : 1, N > 3 ? n[3 % N] : 1, (N > 4 ? n[4 % N] : 1) * s);
}
// ... and with extent i replaced by x
template <int N>
void fits_with(const int (&n)[N], int i, int x)
{
    int t[N];
    for (int j = 0; j < N; j++) t[j] = j == i ? x : n[j];
    fits(t);
}
// arbitrary extents, each at least `lo`
template <int N>
void extents(int (&n)[N], int lo = 1, int set = 0)
{
    for (int i = 0; i < N; i++) {
        n[i] = vf_int(nm(set, i));
        vf_ge(n[i], lo);
    }
    if (lo >= 0) fits(n);
}
template <int N>
void anyints(int (&n)[N], int set)
{
    for (int i = 0; i < N; i++) n[i] = vf_int(nm(set, i));
}
// arbitrary position: digits 0 <= c[i] < n[i]
template <int N>
void position(int (&c)[N], const int (&n)[N], int set = 1)
{
    for (int i = 0; i < N; i++) {
        c[i] = vf_int(nm(set, i));
        vf_ge(c[i], 0);
        vf_ge(n[i] - 1, c[i]);
    }
}
// number of elements, and rank of a position in row-major order (last digit fastest)
template <int N>
int count(const int (&n)[N])
{
    int t = 1;
    for (int i = 0; i < N; i++) t = t * n[i];
    return t;
}
template <int N>
int rank(const int (&n)[N], const int (&c)[N])
{
    int t = 0;
    for (int i = 0; i < N; i++) {
        int w = 1;
        for (int j = i + 1; j < N; j++) w = w * n[j];
        t = t + c[i] * w;
    }
    return t;
}
// the position after c in row-major order; false if c is the last one
template <int N>
bool successor(const int (&n)[N], const int (&c)[N], int (&d)[N])
{
    for (int i = 0; i < N; i++) d[i] = c[i];
    for (int i = N - 1; i >= 0; i--) {
        if (c[i] < n[i] - 1) {
            d[i] = c[i] + 1;
            return true;
        }
        d[i] = 0;
    }
    return false;
}
template <int N>
int weight(const int (&n)[N], int i)
{
    int w = 1;
    for (int j = i + 1; j < N; j++) w = w * n[j];
    return w;
}
template <int N>
long dot(const int (&a)[N], const int (&b)[N])
{
    long t = 0;
    for (int i = 0; i < N; i++) t = t + static_cast<long>(a[i]) * b[i];
    return t;
}
} // namespace vf
