// C interface between the contract-level Kokkos stub and (a) the VC generator, which interprets these symbols,
// (b) the native runtime used to replay counterexamples.
#pragma once
extern "C" {
#ifdef VC_NATIVE
#define VK_CONST
#else
#define VK_CONST __attribute__((const, nothrow))
#endif
long __vk_alloc(const char* label, int rank, int kind, long e0, long e1, long e2, long e3, long e4, long e5) __attribute__((nothrow));
void* __vk_ref(long h, int rank, long i0, long i1, long i2, long i3, long i4, long i5) VK_CONST;
long __vk_extent(long h, int d) VK_CONST;
long __vk_subview(long h, int nargs, const int* kinds, const long* a, const long* b) __attribute__((nothrow));
void __vk_deep_copy(long dst, long src) __attribute__((nothrow));
void __vk_fill(long dst, double v) __attribute__((nothrow));
const char* __vk_label(long h) __attribute__((nothrow));
void __vk_parallel_for(const char* name, int rank, const long* lo, const long* hi, const void* f, void (*tramp)(const void*, long, long, long, long, long, long));
void __vk_reduce(const char* name, int rank, const long* lo, const long* hi, const void* f,
        void (*tramp)(const void*, double*, long, long, long, long, long, long), int nred, const int* ops, double* results);
void __vk_scan(const char* name, long lo, long hi, const void* f, void (*tramp)(const void*, long, double*, int));
bool __vc_isfinite(double x) VK_CONST;
bool __vc_isnan(double x) VK_CONST;
void __vc_assert_fail(const char* expr, const char* file, int line) __attribute__((noreturn));
}
