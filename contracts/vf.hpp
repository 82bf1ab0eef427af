// Specification vocabulary of the contracts in this directory.
//
// A contract is an extern "C" function C_<name>(): it introduces arbitrary
// arguments (vf_int, vf_real, vf_array: universally quantified), states the
// requires clauses (vf_ge / vf_lt / vf_eqi), calls the real code of /repo, and
// states the ensures clauses (check_*).  `ensures(lambda)` may introduce
// further arbitrary integers (the generic cell / position of a quantified
// postcondition).  The deductive engine (vlib) interprets the vf_* functions
// symbolically; contracts/vf_rt.cpp implements the same functions concretely, so
// that a counterexample is replayed on the natively compiled real code.
#pragma once
#include <cstddef>
#ifndef REAL
#define REAL double
#endif
using real = REAL;
#define CONTRACT(name) extern "C" void C_##name()
extern "C" {
int vf_int(const char* name);
real vf_real(const char* name);
// arrays: slowest dimension first, each with lower index and extent
real* vf_arr(const char* name, int writable, int nd, int l0, int n0, int l1, int n1, int l2, int n2, int l3, int n3);
int* vf_iarr(const char* name, int nd, int n0, int n1);
void vf_iarr_bound(const char* name, int col, int lo, int hi); // values of a column
void vf_ge(long a, long b);                    // requires a >= b
// requires |a*b*c*d*e| <= 2^27 (machine integers: see vlib/ovf.py)
void vf_fits(int a, int b, int c, int d, int e);
void vf_ensures(void (*f)(void*), void* c);
real vf_fin(const char* name, int nd, int i0, int i1, int i2, int i3);
real vf_ini(const char* name, int nd, int i0, int i1, int i2, int i3);
void vf_check_real(real a, real b, const char* label);
void vf_check_int(long a, long b, const char* label);
void vf_check_ge(long a, long b, const char* label);
void vf_check_ptr(const void* a, const void* b, const char* label);
void vf_check_state(const void* a, const void* b, size_t n, const char* label);
}

#ifdef VF_NATIVE
#include <cstring>
// bytes of padding are no part of a value
template <typename T>
void vf_check_state(const T* a, const T* b, size_t n, const char* label)
{
    alignas(T) unsigned char x[sizeof(T)], y[sizeof(T)];
    std::memcpy(x, a, sizeof(T));
    std::memcpy(y, b, sizeof(T));
    __builtin_clear_padding(reinterpret_cast<T*>(x));
    __builtin_clear_padding(reinterpret_cast<T*>(y));
    const void *u = x, *v = y;
    vf_check_state(u, v, n, label);
}
#endif

namespace vf
{
inline void requires_ge(long a, long b) { vf_ge(a, b); }
inline void requires_in(long x, long lo, long hi) // lo <= x <= hi
{
    vf_ge(x, lo);
    vf_ge(hi, x);
}
template <typename F>
inline void ensures(F f)
{
    vf_ensures([](void* c) { (*static_cast<F*>(c))(); }, &f);
}
struct dim {
    int lo, n;
};
inline real* array(const char* s, int w, dim a) { return vf_arr(s, w, 1, a.lo, a.n, 0, 1, 0, 1, 0, 1); }
inline real* array(const char* s, int w, dim a, dim b) { return vf_arr(s, w, 2, a.lo, a.n, b.lo, b.n, 0, 1, 0, 1); }
inline real* array(const char* s, int w, dim a, dim b, dim c)
{
    return vf_arr(s, w, 3, a.lo, a.n, b.lo, b.n, c.lo, c.n, 0, 1);
}
inline real* array(const char* s, int w, dim a, dim b, dim c, dim d)
{
    return vf_arr(s, w, 4, a.lo, a.n, b.lo, b.n, c.lo, c.n, d.lo, d.n);
}
inline real fin(const char* s, int i) { return vf_fin(s, 1, i, 0, 0, 0); }
inline real fin(const char* s, int i, int j) { return vf_fin(s, 2, i, j, 0, 0); }
inline real fin(const char* s, int i, int j, int k) { return vf_fin(s, 3, i, j, k, 0); }
inline real fin(const char* s, int i, int j, int k, int l) { return vf_fin(s, 4, i, j, k, l); }
inline real ini(const char* s, int i) { return vf_ini(s, 1, i, 0, 0, 0); }
inline real ini(const char* s, int i, int j) { return vf_ini(s, 2, i, j, 0, 0); }
inline real ini(const char* s, int i, int j, int k) { return vf_ini(s, 3, i, j, k, 0); }
inline real ini(const char* s, int i, int j, int k, int l) { return vf_ini(s, 4, i, j, k, l); }
} // namespace vf
