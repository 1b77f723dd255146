// Contract-level stand-in for Kokkos: only the meaning of views, ranges and data-parallel patterns, no implementation.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numbers>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <cstring>
#include <stdexcept>

#include "vk.h"

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IMPL_FUNCTION
#define KOKKOS_RESTRICT
#define KOKKOS_ASSERT(...) { if (!(__VA_ARGS__)) __vc_assert_fail(#__VA_ARGS__, __FILE__, __LINE__); }
#define KOKKOS_EXPECTS(...) KOKKOS_ASSERT(__VA_ARGS__)
#define KOKKOS_ENSURES(...) KOKKOS_ASSERT(__VA_ARGS__)
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_VERSION 40500
#define KOKKOS_VERSION_GREATER_EQUAL(a, b, c) 1
#define KOKKOS_IF_ON_HOST(CODE) { CODE }
#define KOKKOS_IF_ON_DEVICE(CODE)

namespace Kokkos {

// ------------------------------------------------------------------ math
using std::abs; using std::fabs; using std::fmin; using std::fmax; using std::sqrt; using std::pow; using std::exp; using std::log; using std::log10;
using std::sin; using std::cos; using std::tan; using std::atan; using std::atan2; using std::asin; using std::acos; using std::sinh; using std::cosh;
using std::tanh; using std::cbrt; using std::floor; using std::ceil; using std::fmod; using std::hypot; using std::exp2; using std::log2; using std::copysign;
using std::fma; using std::round; using std::trunc; using std::signbit; using std::log1p; using std::expm1; using std::erf;
inline bool isfinite(double x) { return __vc_isfinite(x); }
inline bool isnan(double x) { return __vc_isnan(x); }
inline bool isinf(double x) { return !__vc_isfinite(x) && !__vc_isnan(x); }
template <class T> constexpr T const& max(T const& a, T const& b) { return a < b ? b : a; }
template <class T> constexpr T const& min(T const& a, T const& b) { return b < a ? b : a; }
template <class T> constexpr T max(std::initializer_list<T> l) { return std::max(l); }
template <class T> constexpr T min(std::initializer_list<T> l) { return std::min(l); }
template <class T> constexpr T const& clamp(T const& v, T const& lo, T const& hi) { return v < lo ? lo : hi < v ? hi : v; }
template <class T> constexpr void kokkos_swap(T& a, T& b) { T c = a; a = b; b = c; }
using std::swap;
namespace numbers = std::numbers;

template <class A, class B> using pair = std::pair<A, B>;
template <class A, class B> constexpr auto make_pair(A a, B b) { return std::pair<A, B>(a, b); }

template <class... Args> inline void printf(char const*, Args...) {}
inline void abort(char const*) { __vc_assert_fail("Kokkos::abort", "", 0); }

// ------------------------------------------------------------------ Array
template <class T = void, std::size_t N = 0>
struct Array
{
    T m_elem[N > 0 ? N : 1];
    using value_type = T; using size_type = std::size_t; using reference = T&; using const_reference = T const&; using pointer = T*; using const_pointer = T const*;
    using iterator = T*; using const_iterator = T const*;
    static constexpr std::size_t size() noexcept { return N; }
    static constexpr bool empty() noexcept { return N == 0; }
    static constexpr std::size_t max_size() noexcept { return N; }
    template <class I> constexpr T& operator[](I const& i) noexcept { chk(static_cast<long>(i)); return m_elem[i]; }
    template <class I> constexpr T const& operator[](I const& i) const noexcept { chk(static_cast<long>(i)); return m_elem[i]; }
    constexpr T* data() noexcept { return m_elem; }
    constexpr T const* data() const noexcept { return m_elem; }
    constexpr T* begin() noexcept { return m_elem; }
    constexpr T* end() noexcept { return m_elem + N; }
    constexpr T const* begin() const noexcept { return m_elem; }
    constexpr T const* end() const noexcept { return m_elem + N; }
    constexpr T const* cbegin() const noexcept { return m_elem; }
    constexpr T const* cend() const noexcept { return m_elem + N; }
    constexpr T& front() noexcept { return m_elem[0]; }
    constexpr T const& front() const noexcept { return m_elem[0]; }
    constexpr T& back() noexcept { return m_elem[N - 1]; }
    constexpr T const& back() const noexcept { return m_elem[N - 1]; }
    constexpr void fill(T const& v) { for (std::size_t i = 0; i < N; ++i) m_elem[i] = v; }
    friend constexpr bool operator==(Array const& a, Array const& b) noexcept { for (std::size_t i = 0; i < N; ++i) if (!(a.m_elem[i] == b.m_elem[i])) return false; return true; }
private:
    static constexpr void chk(long i) noexcept { if (!std::is_constant_evaluated()) { if (!(i >= 0 && i < static_cast<long>(N))) __vc_assert_fail("array index in range", __FILE__, __LINE__); } }
};
template <class T, class... U> Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template <std::size_t I, class T, std::size_t N> constexpr T& get(Array<T, N>& a) noexcept { return a.m_elem[I]; }
template <std::size_t I, class T, std::size_t N> constexpr T const& get(Array<T, N> const& a) noexcept { return a.m_elem[I]; }
template <std::size_t I, class T, std::size_t N> constexpr T&& get(Array<T, N>&& a) noexcept { return static_cast<T&&>(a.m_elem[I]); }
template <class T, std::size_t N> constexpr T* begin(Array<T, N>& a) { return a.data(); }
template <class T, std::size_t N> constexpr T* end(Array<T, N>& a) { return a.data() + N; }
template <class T, std::size_t N> constexpr T const* begin(Array<T, N> const& a) { return a.data(); }
template <class T, std::size_t N> constexpr T const* end(Array<T, N> const& a) { return a.data() + N; }
template <class T, std::size_t N> constexpr Array<T, N> to_array(T const (&a)[N]) { Array<T, N> r {}; for (std::size_t i = 0; i < N; ++i) r[i] = a[i]; return r; }

// ------------------------------------------------------------------ spaces, layouts, traits
struct LayoutBaseVC
{
    std::size_t dimension[8] = {};
    LayoutBaseVC() = default;
    template <class... I> requires(sizeof...(I) > 0 && sizeof...(I) <= 8 && (std::is_convertible_v<I, std::size_t> && ...))
    explicit LayoutBaseVC(I... n) : dimension {static_cast<std::size_t>(n)...} {}
};
inline bool operator==(LayoutBaseVC const& a, LayoutBaseVC const& b) { for (int d = 0; d < 8; ++d) if (a.dimension[d] != b.dimension[d]) return false; return true; }
struct LayoutLeft : LayoutBaseVC { using LayoutBaseVC::LayoutBaseVC; };
struct LayoutRight : LayoutBaseVC { using LayoutBaseVC::LayoutBaseVC; };
struct LayoutStride : LayoutBaseVC { using LayoutBaseVC::LayoutBaseVC; };
struct HostSpace { using memory_space = HostSpace; using execution_space = void; static constexpr char const* name() { return "Host"; } };
struct DeviceSpaceVC { using memory_space = DeviceSpaceVC; static constexpr char const* name() { return "Device"; } };
struct SharedHostPinnedSpace { using memory_space = SharedHostPinnedSpace; };
struct SharedSpace { using memory_space = SharedSpace; };
struct ExecVC { using memory_space = DeviceSpaceVC; using execution_space = ExecVC; void fence() const {} void fence(std::string const&) const {} static int concurrency() { return 1; } };
using DefaultExecutionSpace = ExecVC; using DefaultHostExecutionSpace = ExecVC; using Serial = ExecVC; using OpenMP = ExecVC;
enum MemoryTraitsFlags : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };
template <unsigned N = 0> struct MemoryTraits { static constexpr unsigned impl_value = N; };
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
struct ALL_t { constexpr ALL_t const& operator()() const { return *this; } };
inline constexpr ALL_t ALL {};
struct WithoutInitializing_t {}; inline constexpr WithoutInitializing_t WithoutInitializing {};
struct SequentialHostInit_t {}; inline constexpr SequentialHostInit_t SequentialHostInit {};

namespace Impl {
template <class T> struct rank_of { static constexpr unsigned value = 0; using type = T; };
template <class T> struct rank_of<T*> { static constexpr unsigned value = 1 + rank_of<T>::value; using type = typename rank_of<T>::type; };
template <class T, unsigned N> struct add_ptr { using type = typename add_ptr<T, N - 1>::type*; };
template <class T> struct add_ptr<T, 0> { using type = T; };
template <class T> struct is_layout : std::false_type {};
template <> struct is_layout<LayoutLeft> : std::true_type {};
template <> struct is_layout<LayoutRight> : std::true_type {};
template <> struct is_layout<LayoutStride> : std::true_type {};
template <class T> struct is_memtraits : std::false_type {};
template <unsigned N> struct is_memtraits<MemoryTraits<N>> : std::true_type {};
template <class Def, template <class> class P, class... Ts> struct pick { using type = Def; };
template <class Def, template <class> class P, class T, class... Ts> struct pick<Def, P, T, Ts...> { using type = std::conditional_t<P<T>::value, T, typename pick<Def, P, Ts...>::type>; };
template <class T> struct is_space : std::bool_constant<!is_layout<T>::value && !is_memtraits<T>::value> {};
template <class T> struct kind_of { static constexpr int value = std::is_same_v<T, bool> ? 3 : std::is_floating_point_v<T> ? 0 : sizeof(T) == 4 ? 1 : sizeof(T) == 8 ? 2 : 3; };
template <class S> struct host_mirror { using type = HostSpace; };
template <> struct host_mirror<SharedHostPinnedSpace> { using type = SharedHostPinnedSpace; };
template <> struct host_mirror<SharedSpace> { using type = SharedSpace; };
} // namespace Impl

template <class DataType, class... Props>
struct ViewTraits
{
    using data_type = DataType;
    using raw_value = typename Impl::rank_of<DataType>::type;
    static constexpr unsigned rank_value = Impl::rank_of<DataType>::value;
    using value_type = raw_value;
    using const_value_type = std::add_const_t<raw_value>;
    using non_const_value_type = std::remove_const_t<raw_value>;
    using const_data_type = typename Impl::add_ptr<const_value_type, rank_value>::type;
    using non_const_data_type = typename Impl::add_ptr<non_const_value_type, rank_value>::type;
    using array_layout = typename Impl::pick<LayoutRight, Impl::is_layout, Props...>::type;
    using memory_space = typename Impl::pick<ExecVC, Impl::is_space, Props...>::type::memory_space;
    using memory_traits = typename Impl::pick<MemoryTraits<>, Impl::is_memtraits, Props...>::type;
    using execution_space = ExecVC;
    struct host_mirror_space { using memory_space = typename Impl::host_mirror<ViewTraits::memory_space>::type; };
    struct dimension { static constexpr unsigned rank = rank_value; static constexpr unsigned rank_dynamic = rank_value; };
};

template <class DataType, class... Props>
class View;
template <class T> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};
template <class D, class... P> struct is_view<View<D, P...> const> : std::true_type {};
template <class T> inline constexpr bool is_view_v = is_view<T>::value;
struct ViewAllocVC { std::string label; };
template <class... A> inline ViewAllocVC view_alloc(A const&... a) { ViewAllocVC r; ([&] { if constexpr (std::is_convertible_v<A, std::string>) r.label = a; }(), ...); return r; }

template <class DataType, class... Props>
class View
{
public:
    using traits = ViewTraits<DataType, Props...>;
    using data_type = DataType;
    using value_type = typename traits::value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using const_value_type = typename traits::const_value_type;
    using memory_space = typename traits::memory_space;
    using execution_space = ExecVC;
    using array_layout = typename traits::array_layout;
    using memory_traits = typename traits::memory_traits;
    using size_type = std::size_t;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using non_const_data_type = typename traits::non_const_data_type;
    using const_data_type = typename traits::const_data_type;
    using non_const_type = View<non_const_data_type, array_layout, memory_space, memory_traits>;
    using const_type = View<const_data_type, array_layout, memory_space, memory_traits>;
    using host_mirror_type = View<non_const_data_type, array_layout, typename traits::host_mirror_space::memory_space>;
    using HostMirror = host_mirror_type;
    static constexpr unsigned rank = traits::rank_value;
    static constexpr unsigned Rank = rank;
    static constexpr unsigned rank_dynamic = rank;
    static constexpr std::integral_constant<unsigned, rank> rank_c {};
    long m_h = 0;

    View() = default;
    View(View const&) = default;
    View(View&&) = default;
    View& operator=(View const&) = default;
    View& operator=(View&&) = default;
    template <class... I> requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(std::string const& label, I... n) : m_h(mk(label.c_str(), static_cast<long>(n)...)) {}
    template <class... I> requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(char const* label, I... n) : m_h(mk(label, static_cast<long>(n)...)) {}
    template <class... I> requires(sizeof...(I) == rank)
    explicit View(ViewAllocVC const& a, I... n) : m_h(mk(a.label.c_str(), static_cast<long>(n)...)) {}
    View(std::string const& label, array_layout const& l) : m_h(mk_layout(label.c_str(), l)) {}
    View(ViewAllocVC const& a, array_layout const& l) : m_h(mk_layout(a.label.c_str(), l)) {}
    array_layout layout() const noexcept { array_layout l; for (unsigned d = 0; d < rank; ++d) l.dimension[d] = extent(d); return l; }
    template <class D2, class... P2> requires(Impl::rank_of<D2>::value == rank && std::is_convertible_v<typename View<D2, P2...>::value_type*, value_type*>)
    View(View<D2, P2...> const& o) : m_h(o.m_h) {}
    template <class D2, class... P2> requires(Impl::rank_of<D2>::value == rank && std::is_convertible_v<typename View<D2, P2...>::value_type*, value_type*>)
    View& operator=(View<D2, P2...> const& o) { m_h = o.m_h; return *this; }
    // subview constructor
    struct HandleTag {};
    View(HandleTag, long h) : m_h(h) {}

    template <class... I> requires(sizeof...(I) == rank && (std::is_integral_v<I> && ...))
    value_type& operator()(I... i) const { return ref(static_cast<long>(i)...); }
    template <class I> requires(rank == 1 && std::is_integral_v<I>)
    value_type& operator[](I i) const { return ref(static_cast<long>(i)); }
    template <class... I> requires(sizeof...(I) == rank && (std::is_integral_v<I> && ...))
    value_type& access(I... i) const { return ref(static_cast<long>(i)...); }
    template <class I> std::size_t extent(I const& d) const noexcept { return static_cast<unsigned>(d) < rank ? static_cast<std::size_t>(__vk_extent(m_h, static_cast<int>(d))) : 1; }
    template <class I> int extent_int(I const& d) const noexcept { return static_cast<unsigned>(d) < rank ? static_cast<int>(__vk_extent(m_h, static_cast<int>(d))) : 1; }
    std::size_t size() const noexcept { std::size_t n = 1; for (unsigned d = 0; d < rank; ++d) n *= extent(d); return n; }
    std::size_t span() const noexcept { return size(); }
    bool span_is_contiguous() const noexcept { return true; }
    template <class I> std::size_t stride(I const& r) const noexcept { std::size_t n = 1; for (unsigned d = 0; d < static_cast<unsigned>(r); ++d) n *= extent(d); return n; }
    bool is_allocated() const noexcept { return m_h != 0; }
    std::string label() const { return std::string(__vk_label(m_h)); }
    value_type* data() const noexcept { if constexpr (rank == 0) { return &ref(); } else { return static_cast<value_type*>(__vk_ref(m_h, -static_cast<int>(rank), 0, 0, 0, 0, 0, 0)); } }
    int use_count() const { return 1; }

private:
    static long mk_layout(char const* label, array_layout const& l)
    {
        long e[6] = {1, 1, 1, 1, 1, 1};
        for (unsigned d = 0; d < rank; ++d) e[d] = static_cast<long>(l.dimension[d]);
        return __vk_alloc(label, static_cast<int>(rank), Impl::kind_of<non_const_value_type>::value, e[0], e[1], e[2], e[3], e[4], e[5]);
    }
    template <class... L> static long mk(char const* label, L... n)
    {
        static_assert(sizeof...(L) <= 6);
        long e[6] = {1, 1, 1, 1, 1, 1};
        long m[] = {n..., 0};
        for (unsigned d = 0; d < sizeof...(L); ++d) e[d] = m[d];
        return __vk_alloc(label, static_cast<int>(rank), Impl::kind_of<non_const_value_type>::value, e[0], e[1], e[2], e[3], e[4], e[5]);
    }
    __attribute__((always_inline)) value_type& ref(long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) const
    { return *static_cast<value_type*>(const_cast<void*>(static_cast<void const*>(__vk_ref(m_h, static_cast<int>(rank), a, b, c, d, e, f)))); }
};

namespace Impl {
template <class A> struct slice { static constexpr int kind = 1; static long a(A const& x) { return static_cast<long>(x); } static long b(A const&) { return 0; } };
template <> struct slice<ALL_t> { static constexpr int kind = 0; static long a(ALL_t const&) { return 0; } static long b(ALL_t const&) { return 0; } };
template <class T, class U> struct slice<std::pair<T, U>> { static constexpr int kind = 2; static long a(std::pair<T, U> const& x) { return static_cast<long>(x.first); } static long b(std::pair<T, U> const& x) { return static_cast<long>(x.second); } };
template <class T> struct slice<Array<T, 2>> { static constexpr int kind = 2; static long a(Array<T, 2> const& x) { return static_cast<long>(x[0]); } static long b(Array<T, 2> const& x) { return static_cast<long>(x[1]); } };
template <class T> struct slice<std::array<T, 2>> { static constexpr int kind = 2; static long a(std::array<T, 2> const& x) { return static_cast<long>(x[0]); } static long b(std::array<T, 2> const& x) { return static_cast<long>(x[1]); } };
template <class V, unsigned R> using sub_t = View<typename add_ptr<typename V::value_type, R>::type, typename V::array_layout, typename V::memory_space, typename V::memory_traits>;
} // namespace Impl
template <class D, class... P, class... A>
auto subview(View<D, P...> const& v, A... args)
{
    constexpr unsigned R = (0u + ... + (Impl::slice<std::remove_cvref_t<A>>::kind == 1 ? 0u : 1u));
    static_assert(sizeof...(A) == View<D, P...>::rank);
    int kinds[] = {Impl::slice<std::remove_cvref_t<A>>::kind..., 0};
    long a[] = {Impl::slice<std::remove_cvref_t<A>>::a(args)..., 0};
    long b[] = {Impl::slice<std::remove_cvref_t<A>>::b(args)..., 0};
    using S = Impl::sub_t<View<D, P...>, R>;
    return S(typename S::HandleTag {}, __vk_subview(v.m_h, sizeof...(A), kinds, a, b));
}
template <class D1, class... P1, class D2, class... P2>
inline bool operator==(View<D1, P1...> const& a, View<D2, P2...> const& b)
{
    using A = View<D1, P1...>; using B = View<D2, P2...>;
    if constexpr (!std::is_same_v<typename A::const_value_type, typename B::const_value_type> || !std::is_same_v<typename A::array_layout, typename B::array_layout> || !std::is_same_v<typename A::memory_space, typename B::memory_space> || A::rank != B::rank) return false;
    else {
        for (unsigned d = 0; d < A::rank; ++d) if (a.extent(d) != b.extent(d)) return false;
        return static_cast<void const*>(a.data()) == static_cast<void const*>(b.data());
    }
}
template <class V, class... A> using Subview = decltype(subview(std::declval<V>(), std::declval<A>()...));

template <class D1, class... P1, class D2, class... P2>
inline void deep_copy(View<D1, P1...> const& dst, View<D2, P2...> const& src)
{
    static_assert(View<D1, P1...>::rank == View<D2, P2...>::rank);
    __vk_deep_copy(dst.m_h, src.m_h);
}
template <class D1, class... P1, class T> requires(std::is_arithmetic_v<T>)
inline void deep_copy(View<D1, P1...> const& dst, T v) { __vk_fill(dst.m_h, static_cast<double>(v)); }
template <class T, class D1, class... P1> requires(std::is_arithmetic_v<T> && View<D1, P1...>::rank == 0)
inline void deep_copy(T& v, View<D1, P1...> const& src) { v = src(); }
template <class E, class D1, class... P1, class S> requires(std::is_same_v<E, ExecVC>)
inline void deep_copy(E const&, View<D1, P1...> const& dst, S const& s) { deep_copy(dst, s); }

namespace Impl {
template <class V> auto mirror_alloc(V const& v, std::string const& label)
{
    using M = typename V::host_mirror_type;
    long e[6] = {1, 1, 1, 1, 1, 1};
    for (unsigned d = 0; d < V::rank; ++d) e[d] = static_cast<long>(v.extent(d));
    return M(typename M::HandleTag {}, __vk_alloc(label.c_str(), static_cast<int>(V::rank), kind_of<typename V::non_const_value_type>::value, e[0], e[1], e[2], e[3], e[4], e[5]));
}
} // namespace Impl
template <class D, class... P> auto create_mirror(View<D, P...> const& v) { return Impl::mirror_alloc(v, "mirror"); }
template <class D, class... P> auto create_mirror_view(View<D, P...> const& v)
{
    if constexpr (std::is_same_v<typename View<D, P...>::memory_space, typename View<D, P...>::host_mirror_type::memory_space>) return typename View<D, P...>::host_mirror_type(v);
    else return Impl::mirror_alloc(v, "mirror");
}
template <class S, class D, class... P> auto create_mirror_view_and_copy(S const&, View<D, P...> const& v) { auto m = create_mirror_view(v); if (m.m_h != v.m_h) deep_copy(m, v); return m; }

// ------------------------------------------------------------------ policies
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank { static constexpr unsigned value = N; };
template <class T> struct IndexType { using type = T; };
struct Dynamic {}; struct Static {};
template <class T> struct Schedule {};
namespace Impl {
template <class T> struct rank_prop { static constexpr unsigned value = 0; };
template <unsigned N, Iterate A, Iterate B> struct rank_prop<Rank<N, A, B>> { static constexpr unsigned value = N; };
} // namespace Impl
template <class... Props>
struct MDRangePolicy
{
    static constexpr unsigned N = (0u + ... + Impl::rank_prop<Props>::value);
    long lo[N]; long hi[N];
    template <class T, class U> MDRangePolicy(Array<T, N> const& l, Array<U, N> const& h) { for (unsigned d = 0; d < N; ++d) { lo[d] = static_cast<long>(l[d]); hi[d] = static_cast<long>(h[d]); } }
    template <class T, class U> MDRangePolicy(std::array<T, N> const& l, std::array<U, N> const& h) { for (unsigned d = 0; d < N; ++d) { lo[d] = static_cast<long>(l[d]); hi[d] = static_cast<long>(h[d]); } }
    template <class T, class U> MDRangePolicy(T const (&l)[N], U const (&h)[N]) { for (unsigned d = 0; d < N; ++d) { lo[d] = static_cast<long>(l[d]); hi[d] = static_cast<long>(h[d]); } }
    template <class T, class U, class V> MDRangePolicy(T const (&l)[N], U const (&h)[N], V const (&)[N]) : MDRangePolicy(l, h) {}
    template <class T, class U> MDRangePolicy(ExecVC const&, Array<T, N> const& l, Array<U, N> const& h) : MDRangePolicy(l, h) {}
    template <class T, class U> MDRangePolicy(ExecVC const&, T const (&l)[N], U const (&h)[N]) : MDRangePolicy(l, h) {}
};
template <class... Props>
struct RangePolicy
{
    static constexpr unsigned N = 1;
    long lo[1]; long hi[1];
    template <class T, class U> RangePolicy(T l, U h) : lo {static_cast<long>(l)}, hi {static_cast<long>(h)} {}
    template <class T, class U> RangePolicy(ExecVC const&, T l, U h) : RangePolicy(l, h) {}
};
template <class T, class U> RangePolicy(T, U) -> RangePolicy<>;

namespace Impl {
template <class F, unsigned N> struct tramp_for
{
    static void call(void const* p, long a, long b, long c, long d, long e, long f)
    {
        F const& g = *static_cast<F const*>(p);
        if constexpr (N == 1) g(static_cast<int>(a));
        else if constexpr (N == 2) g(static_cast<int>(a), static_cast<int>(b));
        else if constexpr (N == 3) g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c));
        else if constexpr (N == 4) g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c), static_cast<int>(d));
        else if constexpr (N == 5) g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c), static_cast<int>(d), static_cast<int>(e));
        else g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c), static_cast<int>(d), static_cast<int>(e), static_cast<int>(f));
    }
};
template <class F, unsigned N, unsigned R> struct tramp_red
{
    template <std::size_t... K>
    static void go(F const& g, double* acc, std::index_sequence<K...>, long a, long b, long c, long d, long e, long f)
    {
        if constexpr (N == 1) g(static_cast<int>(a), acc[K]...);
        else if constexpr (N == 2) g(static_cast<int>(a), static_cast<int>(b), acc[K]...);
        else if constexpr (N == 3) g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c), acc[K]...);
        else g(static_cast<int>(a), static_cast<int>(b), static_cast<int>(c), static_cast<int>(d), acc[K]...);
    }
    static void call(void const* p, double* acc, long a, long b, long c, long d, long e, long f) { go(*static_cast<F const*>(p), acc, std::make_index_sequence<R> {}, a, b, c, d, e, f); }
};
} // namespace Impl

template <class L> char const* vc_cstr(L const& l) { if constexpr (std::is_convertible_v<L const&, char const*>) return l; else return l.c_str(); }

template <class L, class Pol, class F> requires(requires(Pol p) { p.lo; p.hi; } && (std::is_convertible_v<L const&, std::string>))
inline void parallel_for(L const& label, Pol const& p, F const& f) { __vk_parallel_for(vc_cstr(label), Pol::N, p.lo, p.hi, &f, &Impl::tramp_for<F, Pol::N>::call); }
template <class Pol, class F> requires(requires(Pol p) { p.lo; p.hi; })
inline void parallel_for(Pol const& p, F const& f) { __vk_parallel_for("", Pol::N, p.lo, p.hi, &f, &Impl::tramp_for<F, Pol::N>::call); }
template <class L, class I, class F> requires(std::is_integral_v<I> && std::is_convertible_v<L const&, std::string>)
inline void parallel_for(L const& label, I n, F const& f) { parallel_for(label, RangePolicy<>(0, n), f); }
template <class I, class F> requires(std::is_integral_v<I>)
inline void parallel_for(I n, F const& f) { parallel_for("", RangePolicy<>(0, n), f); }

// ------------------------------------------------------------------ reductions
template <class T, int OP> struct ReducerVC
{
    using value_type = T;
    static constexpr int op = OP;
    T* p; // host result, or
    double* dp = nullptr;
    explicit ReducerVC(T& r) : p(&r) {}
    template <class D, class... P> explicit ReducerVC(View<D, P...> const& v) : p(&v()) {}
    void put(double v) const { *p = static_cast<T>(v); }
    T& reference() const { return *p; }
};
template <class T, class S = HostSpace> struct Sum : ReducerVC<T, 0> { using ReducerVC<T, 0>::ReducerVC; };
template <class T, class S = HostSpace> struct Min : ReducerVC<T, 1> { using ReducerVC<T, 1>::ReducerVC; };
template <class T, class S = HostSpace> struct Max : ReducerVC<T, 2> { using ReducerVC<T, 2>::ReducerVC; };
template <class D, class... P> Sum(View<D, P...> const&) -> Sum<typename View<D, P...>::value_type>;
template <class D, class... P> Min(View<D, P...> const&) -> Min<typename View<D, P...>::value_type>;
template <class D, class... P> Max(View<D, P...> const&) -> Max<typename View<D, P...>::value_type>;
namespace Impl {
template <class R> constexpr int red_op() { if constexpr (requires { R::op; }) return R::op; else return 0; }
template <class R> void red_put(R& r, double v) { if constexpr (requires { r.put(v); }) r.put(v); else if constexpr (is_view_v<std::remove_cvref_t<R>>) r() = v; else r = v; }
} // namespace Impl
template <class L, class Pol, class F, class... R> requires(requires(Pol p) { p.lo; p.hi; } && std::is_convertible_v<L const&, std::string>)
inline void parallel_reduce(L const& label, Pol const& p, F const& f, R&&... r)
{
    constexpr unsigned n = sizeof...(R);
    int ops[] = {Impl::red_op<std::remove_cvref_t<R>>()...};
    double res[n];
    __vk_reduce(vc_cstr(label), Pol::N, p.lo, p.hi, &f, &Impl::tramp_red<F, Pol::N, n>::call, n, ops, res);
    unsigned k = 0;
    ((Impl::red_put(r, res[k]), ++k), ...);
}
template <class Pol, class F, class R> requires(requires(Pol p) { p.lo; p.hi; })
inline void parallel_reduce(Pol const& p, F const& f, R&& r) { parallel_reduce("", p, f, std::forward<R>(r)); }

template <class L, class Pol, class F> requires(requires(Pol p) { p.lo; p.hi; } && std::is_convertible_v<L const&, std::string>)
inline void parallel_scan(L const& label, Pol const& p, F const& f)
{
    __vk_scan(vc_cstr(label), p.lo[0], p.hi[0], &f, [](void const* q, long i, double* u, int fin) { (*static_cast<F const*>(q))(static_cast<int>(i), *u, fin != 0); });
}
template <class Pol, class F> requires(requires(Pol p) { p.lo; p.hi; })
inline void parallel_scan(Pol const& p, F const& f) { parallel_scan("", p, f); }

template <class T, class V> inline void atomic_add(T* p, V v) { *p += v; }
template <class T, class V> inline T atomic_fetch_add(T* p, V v) { T o = *p; *p += v; return o; }

inline void fence() {}
inline void fence(std::string const&) {}
inline bool is_initialized() { return true; }
inline void print_configuration(std::ostream&, bool = false) {}
struct ScopeGuard { template <class... A> ScopeGuard(A&&...) {} };
struct InitializationSettings {};
namespace Profiling { inline void pushRegion(std::string const&) {} inline void popRegion() {} struct ScopedRegion { explicit ScopedRegion(std::string const&) {} }; }
namespace Experimental {}

} // namespace Kokkos

template <class T, std::size_t N> struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N> {};
template <std::size_t I, class T, std::size_t N> struct std::tuple_element<I, Kokkos::Array<T, N>> { using type = T; };
