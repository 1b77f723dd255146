// Contract language of the harnesses: requires = vc_assume, ensures = vc_assert*.
#pragma once
#include <Kokkos_Core.hpp>
#include <string>
extern "C" {
double vc_real(const char* name);                 // arbitrary real
long vc_int(const char* name, long lo, long hi);  // arbitrary integer in [lo,hi]
bool vc_bool(const char* name);
void vc_assume(bool c);
void vc_definite(long x); // the value is the same on every path (a limit of the checker, not a claim)
void vc_assert(const char* name, bool c);
void vc_assert_eq(const char* name, double a, double b, double scale);
void vc_assert_le(const char* name, double a, double b, double scale);
void vc_cover(const char* name);                  // must be reachable (vacuity guard)
double vc_uf(const char* name, int n, double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9, double a10, double a11);
// input view: arbitrary content.  flags: 1 positive, 2 non-negative, 4 within [0,1], 8 strictly increasing (rank 1)
long vc_view(const char* name, int rank, int kind, int flags, long e0, long e1, long e2, long e3, long e4, long e5);
void vc_focus(int rank, long i0, long i1, long i2);
void vc_loop_contract(const char* func_substr, const void* ctx, bool (*inv)(const void*, double));
// from here on calls of the named function are replaced by its contract: a function of its real arguments whose result satisfies post
void vc_use_contract(const char* func_substr, const void* ctx, bool (*post)(const void*, double));
long vc_loop_count(); // number of complete iterations made by the last loop under contract
long vc_opt(const char* name, long v);
double vc_choose(const char* name, double lo, double hi); // arbitrary real in [lo,hi]
double vc_sum_reset();
long vc_reduce_count();
int vc_native();
void vc_uf_contract(const char* name, int flags);
void vc_array_eq(const char* name, long h1, long h2);
void vc_unchanged(const char* name, long h);
double vc_init_at(long h, int rank, long i0, long i1, long i2, long i3, long i4, long i5);
bool vc_same_storage(long h1, long h2);
void vc_string(void* std_string, const char* name);
}
#ifdef VC_NATIVE
extern "C" double vc_real_flags(const char* name, int flags);
inline double vc_pos(const char* name) { return vc_real_flags(name, 1); }
inline double vc_nonneg(const char* name) { return vc_real_flags(name, 2); }
#else
inline double vc_pos(const char* name) { double x = vc_real(name); vc_assume(x > 0); return x; }
inline double vc_nonneg(const char* name) { double x = vc_real(name); vc_assume(x >= 0); return x; }
#endif
// an intermediate fact of the argument: proved like any obligation, not a statement about rounded arithmetic
inline void vc_lemma(const char* name, bool c)
{
#ifndef VC_NATIVE
    vc_assert(name, c);
#endif
}
inline void vc_eq(const char* name, double a, double b, double scale = 0) { vc_assert_eq(name, a, b, scale); }
inline void vc_le(const char* name, double a, double b, double scale = 0) { vc_assert_le(name, a, b, scale); }
template <class V, class... I>
inline V vc_in(const char* name, int flags, I... n)
{
    static_assert(sizeof...(I) == V::rank);
    long e[6] = {1, 1, 1, 1, 1, 1};
    long m[] = {static_cast<long>(n)..., 0};
    for (unsigned d = 0; d < sizeof...(I); ++d) e[d] = m[d];
    return V(typename V::HandleTag {}, vc_view(name, static_cast<int>(V::rank), Kokkos::Impl::kind_of<typename V::non_const_value_type>::value, flags, e[0], e[1], e[2], e[3], e[4], e[5]));
}
template <class... A>
inline double vc_f(const char* name, A... a)
{
    static_assert(sizeof...(A) <= 12);
    double v[12] = {static_cast<double>(a)...};
    return vc_uf(name, sizeof...(A), v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
}
// ensures: the whole array keeps its initial content
template <class V> inline void vc_same(const char* name, V const& v) { vc_unchanged(name, v.m_h); }
// initial content of an input array
template <class V, class... I>
inline double vc_old(V const& v, I... i)
{
    long n[6] = {static_cast<long>(i)...};
    return vc_init_at(v.m_h, static_cast<int>(sizeof...(I)), n[0], n[1], n[2], n[3], n[4], n[5]);
}
template <class F>
inline bool vc_throws(F&& f)
{
    try { f(); } catch (...) { return true; }
    return false;
}
#define VC_HARNESS extern "C" void vc_main()
