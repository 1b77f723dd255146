// C14: index ranges
#include <vc.h>
#include <range.hpp>
#include <range.cpp>
using namespace hclpp;
namespace {
// the bounds of cells and faces kept by the range, where it keeps them
template <class R>
void check_bounds(R const& r, long ng, std::array<int, 3> const& cmin, std::array<int, 3> const& cmax)
{
    for (int d = 0; d < 3; ++d) {
        long const b = d < ndim ? ng : 0, e = b + cmax[d] - cmin[d];
        long const x = d < ndim ? 1 : 0;
        if constexpr (requires { r.Nc_min_0g; r.Nc_max_0g; }) vc_assert("cells of the interior", r.Nc_min_0g[d] == b && r.Nc_max_0g[d] == e);
        if constexpr (requires { r.Nf_min_0g; r.Nf_max_0g; }) vc_assert("faces of the interior", r.Nf_min_0g[d] == b && r.Nf_max_0g[d] == e + 1);
        if constexpr (requires { r.Nc_min_1g; r.Nc_max_1g; }) vc_assert("cells with one ghost", r.Nc_min_1g[d] == b - x && r.Nc_max_1g[d] == e + x);
        if constexpr (requires { r.Nf_min_1g; r.Nf_max_1g; }) vc_assert("faces with one ghost", r.Nf_min_1g[d] == b - x && r.Nf_max_1g[d] == e + x + 1);
        if constexpr (requires { r.Nc_min_2g; r.Nc_max_2g; }) vc_assert("cells with two ghosts", r.Nc_min_2g[d] == b - 2 * x && r.Nc_max_2g[d] == e + 2 * x);
        if constexpr (requires { r.Nf_min_2g; r.Nf_max_2g; }) vc_assert("faces with two ghosts", r.Nf_min_2g[d] == b - 2 * x && r.Nf_max_2g[d] == e + 2 * x + 1);
    }
}
}
VC_HARNESS
{
    long ng = vc_int("Ng", 0, 64);
    std::array<int, 3> cmin, cmax;
    for (int d = 0; d < 3; ++d) {
        cmin[d] = static_cast<int>(vc_int("cmin", -1000000, 1000000));
        cmax[d] = static_cast<int>(vc_int("cmax", -1000000, 1000000));
    }
    bool valid = true;
    for (int d = 0; d < 3; ++d) valid = valid && cmin[d] >= 0 && cmax[d] >= 0 && cmin[d] <= cmax[d];
    bool threw = false;
    try {
        Range r(cmin, cmax, static_cast<int>(ng));
        vc_cover("constructed");
        vc_assert("an invalid corner pair is rejected", valid);
        for (int d = 0; d < 3; ++d) vc_assert("the range keeps the corners and the number of ghosts it is given", r.Corner_min[d] == cmin[d] && r.Corner_max[d] == cmax[d] && r.Nghost[d] == (d < ndim ? ng : 0) && r.Ng == ng);
        check_bounds(r, ng, cmin, cmax);
        long k = vc_int("k", -5, 80);
        bool t2 = false;
        try {
            auto const [b, e] = cell_range(r.with_ghosts(static_cast<int>(k)));
            auto const p = cell_mdrange(r.with_ghosts(static_cast<int>(k)));
            vc_assert("more ghosts than allocated are rejected", k <= ng);
            for (int d = 0; d < 3; ++d) {
                long g = d < ndim ? ng : 0;
                long x = d < ndim ? k : 0;
                vc_assert("range begin", b[d] == g - x);
                vc_assert("the policy visits the cells of the range", p.lo[d] == b[d] && p.hi[d] == e[d]);
                vc_assert("range end", e[d] == g + (cmax[d] - cmin[d]) + x);
            }
        } catch (std::runtime_error const&) { t2 = true; vc_cover("ghosts rejected"); vc_assert("only excess ghosts are rejected", k > ng); }
        auto const [b0, e0] = cell_range(r.no_ghosts());
        auto const [b1, e1] = cell_range(r.all_ghosts());
        for (int d = 0; d < 3; ++d) {
            vc_assert("no ghosts: begin", b0[d] == (d < ndim ? ng : 0));
            vc_assert("no ghosts: interior size", e0[d] - b0[d] == cmax[d] - cmin[d]);
            vc_assert("all ghosts: begin", b1[d] == 0);
            vc_assert("all ghosts: size", e1[d] == cmax[d] - cmin[d] + (d < ndim ? 2 * ng : 0));
        }
    } catch (std::runtime_error const&) { threw = true; vc_assert("a valid corner pair is accepted", !valid); vc_cover("rejected"); }
}
