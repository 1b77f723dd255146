// what decl_hdf5 does with a selection of an array and a selection of a dataset: the elements in the order of the file (last index fastest)
#pragma once
#include <contracts.hpp>
#include <mpi_contract.hpp>
#include <kokkos_shortcut.hpp>
#include <pdi.h>
namespace vcyaml {
struct Dims { int n; long v[4]; };
// the process that writes: its rank; the arrays of the files are set by the harness
inline int own_rank = 0;
inline int writings = 0;
inline char const* last_opened = nullptr;
inline void writing(char const* policy)
{
    bool const first = writings == 0;
    writings = writings + 1;
    vc_assert("an output replaces a file of that name, its parts are put together in one file", vcpdi::same(policy, first ? "replace" : "write_into"));
}
inline void opened(char const* file, bool w, long comm)
{
    last_opened = file;
    if (w && comm == 0) vc_assert("a file that several processes write is opened by all of them together", own_rank == 0);
    if (comm != 0) vc_assert("files are shared by the processes of the grid", comm == vcmpi::comm_cart);
}
template <int R> struct ViewOf;
template <> struct ViewOf<1> { using type = hclpp::KV_double_1d; };
template <> struct ViewOf<2> { using type = hclpp::KV_double_2d; };
template <> struct ViewOf<3> { using type = hclpp::KV_double_3d; };
template <> struct ViewOf<4> { using type = hclpp::KV_double_4d; };
template <int R> Dims shape_of(typename ViewOf<R>::type const& v)
{
    Dims d {R, {}};
    for (int k = 0; k < R; ++k) d.v[k] = v.extent_int(R - 1 - k);
    return d;
}
template <int MR, int FR>
void transfer(char const* name, char const* dataset, void* data, Dims ms, Dims mn, Dims m0, typename ViewOf<FR>::type const& f, Dims fs, Dims fn, Dims f0, bool write)
{
    static_assert(MR >= FR);
    constexpr int X = MR - FR; // further dimensions of the array, of which one index is selected
    long const h = __vk_from_data(data);
    vc_assert("PDI: data are arrays", h != 0);
    if (h == 0) return;
    typename ViewOf<MR>::type const m(typename ViewOf<MR>::type::HandleTag {}, h);
    for (int d = 0; d < MR; ++d) {
        vc_assert("PDI: the array shared has the extents declared in the specification", m.extent(MR - 1 - d) == static_cast<std::size_t>(ms.v[d]));
        vc_assert("PDI: the selection is in the array", 0 <= m0.v[d] && m0.v[d] + mn.v[d] <= ms.v[d]);
    }
    for (int d = 0; d < FR; ++d) {
        vc_assert("the dataset has the extents of the global mesh", f.extent(FR - 1 - d) == static_cast<std::size_t>(fs.v[d]));
        vc_assert("PDI: the selection is in the dataset", 0 <= f0.v[d] && f0.v[d] + fn.v[d] <= fs.v[d]);
        vc_assert("PDI: the selections of the array and of the dataset have the same extents", fn.v[d] == mn.v[d + X]);
    }
    for (int d = 0; d < X; ++d) vc_assert("PDI: one index of the further dimensions is selected", mn.v[d] == 1);
    // in the order of the arrays: first index fastest
    long n[FR], a[MR], b[FR];
    for (int d = 0; d < FR; ++d) { n[d] = fn.v[FR - 1 - d]; b[d] = f0.v[FR - 1 - d]; }
    for (int d = 0; d < MR; ++d) a[d] = m0.v[MR - 1 - d];
    long const a0 = a[0], b0 = b[0];
    if constexpr (FR == 1) {
        if (write) Kokkos::parallel_for("writing", Kokkos::RangePolicy<>(0, n[0]), [=](int i) { f(b0 + i) = m(a0 + i); });
        else Kokkos::parallel_for("reading", Kokkos::RangePolicy<>(0, n[0]), [=](int i) { m(a0 + i) = f(b0 + i); });
    } else if constexpr (FR == 2) {
        static_assert(MR == 2);
        long const a1 = a[1], b1 = b[1];
        Kokkos::MDRangePolicy<Kokkos::Rank<2>> const p({0L, 0L}, {n[0], n[1]});
        if (write) Kokkos::parallel_for("writing", p, [=](int i, int j) { f(b0 + i, b1 + j) = m(a0 + i, a1 + j); });
        else Kokkos::parallel_for("reading", p, [=](int i, int j) { m(a0 + i, a1 + j) = f(b0 + i, b1 + j); });
    } else {
        static_assert(FR == 3);
        long const a1 = a[1], b1 = b[1], a2 = a[2], b2 = b[2];
        Kokkos::MDRangePolicy<Kokkos::Rank<3>> const p({0L, 0L, 0L}, {n[0], n[1], n[2]});
        if constexpr (MR == 3) {
            if (write) Kokkos::parallel_for("writing", p, [=](int i, int j, int k) { f(b0 + i, b1 + j, b2 + k) = m(a0 + i, a1 + j, a2 + k); });
            else Kokkos::parallel_for("reading", p, [=](int i, int j, int k) { m(a0 + i, a1 + j, a2 + k) = f(b0 + i, b1 + j, b2 + k); });
        } else {
            long const a3 = a[3];
            if (write) Kokkos::parallel_for("writing", p, [=](int i, int j, int k) { f(b0 + i, b1 + j, b2 + k) = m(a0 + i, a1 + j, a2 + k, a3); });
            else Kokkos::parallel_for("reading", p, [=](int i, int j, int k) { m(a0 + i, a1 + j, a2 + k, a3) = f(b0 + i, b1 + j, b2 + k); });
        }
    }
}
} // namespace vcyaml
