// C15: the domain decomposition tiles the grid
#include <contracts.hpp>
#include <mpi_cart.hpp>
#include <iostream>
#include <memory>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
using namespace hclpp;
VC_HARNESS
{
    vcmpi::choose_process_grid();
    long const Ng = vc_int("Ng", 0, 1000);
    std::array<int, 3> N, cart;
    char const* nn[] = {"Nglob0", "Nglob1", "Nglob2"};
    char const* oo[] = {"open0", "open1", "open2"};
    for (int d = 0; d < 3; ++d) {
        N[d] = d < ndim ? static_cast<int>(vc_int(nn[d], 1, 100000)) : 1;
        cart[d] = vc_bool(oo[d]) ? 0 : static_cast<int>(vcmpi::D[d]);
    }
    // one process, and any other one
    long ca[3], cb[3];
    vcmpi::choose_process();
    for (int d = 0; d < 3; ++d) ca[d] = vcmpi::C[d];
    Grid const A(N, cart, static_cast<int>(Ng));
    vcmpi::cart_made = false;
    vcmpi::choose_process();
    for (int d = 0; d < 3; ++d) cb[d] = vcmpi::C[d];
    Grid const B(N, cart, static_cast<int>(Ng));
    for (int d = 0; d < 3; ++d) {
        long const lo = A.range.Corner_min[d], hi = A.range.Corner_max[d];
        vc_assert("the box lies inside the global grid", 0 <= lo && lo <= hi && hi <= N[d]);
        vc_assert("the first box starts at the first cell", ca[d] != 0 || lo == 0);
        vc_assert("the last box ends at the last cell", ca[d] != vcmpi::D[d] - 1 || hi == N[d]);
        vc_assert("the next box starts where this one ends", cb[d] != ca[d] + 1 || B.range.Corner_min[d] == hi);
        vc_assert("boxes of different processes do not overlap", cb[d] <= ca[d] || B.range.Corner_min[d] >= hi);
        long const diff = (B.range.Corner_max[d] - B.range.Corner_min[d]) - (hi - lo);
        vc_assert("box sizes differ by at most one cell", -1 <= diff && diff <= 1);
        vc_assert("local size is the size of the box", A.Nx_local_ng[d] == hi - lo);
        vc_assert("local size with ghosts", A.Nx_local_wg[d] == hi - lo + (d < ndim ? 2 * Ng : 0));
        vc_assert("ghost depth", A.Nghost[d] == (d < ndim ? Ng : 0) && A.range.Nghost[d] == A.Nghost[d]);
        vc_assert("the global size is kept", A.Nx_glob_ng[d] == N[d]);
        vc_assert("lower border flag", A.is_border[d][0] == (ca[d] == 0));
        vc_assert("upper border flag", A.is_border[d][1] == (ca[d] == vcmpi::D[d] - 1));
        if (N[d] >= vcmpi::D[d]) {
            vc_assert("no box is empty", lo < hi);
            vc_assert("lower border flag = the box touches the side", A.is_border[d][0] == (lo == 0));
            vc_assert("upper border flag = the box touches the side", A.is_border[d][1] == (hi == N[d]));
            vc_cover("enough cells");
        }
    }
    vc_assert("array extents", A.x0.extent_int(0) == A.Nx_local_wg[0] + 1 && A.x1.extent_int(0) == A.Nx_local_wg[1] + 1 && A.x2.extent_int(0) == A.Nx_local_wg[2] + 1
            && A.x0_center.extent_int(0) == A.Nx_local_wg[0] && A.x1_center.extent_int(0) == A.Nx_local_wg[1] && A.x2_center.extent_int(0) == A.Nx_local_wg[2]
            && A.dx0.extent_int(0) == A.Nx_local_wg[0] && A.dx1.extent_int(0) == A.Nx_local_wg[1] && A.dx2.extent_int(0) == A.Nx_local_wg[2]);
    for (int d = 0; d < 3; ++d) vc_assert("metric array extents", A.dv.extent_int(d) == A.Nx_local_wg[d] && A.ds.extent_int(d) == A.Nx_local_wg[d]);
    vc_cover("two processes");
}
