// C16: coordinates, widths and centres
#include <contracts.hpp>
#include <mpi_cart.hpp>
#include <iostream>
#include <memory>
#include <param.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
#include <grid_type.cpp>
using namespace hclpp;
VC_HARNESS
{
    vcmpi::choose_process_grid();
    vcmpi::choose_process();
    long const Ng = vc_int("Ng", 0, 1000);
    std::array<int, 3> N;
    char const* nn[] = {"Nglob0", "Nglob1", "Nglob2"};
    for (int d = 0; d < 3; ++d) N[d] = d < ndim ? static_cast<int>(vc_int(nn[d], 1, 100000)) : 1;
    Grid grid(N, {0, 0, 0}, static_cast<int>(Ng));
    vc_opt("div", 0); // requires: the denominators of the metric formulas are not zero
    double mn[3], mx[3];
    for (int d = 0; d < 3; ++d) {
        mn[d] = vc_real("min");
        mx[d] = mn[d] + vc_pos("length");
    }
    KVH_double_1d const xg0("x0_glob", N[0] + 2 * grid.Nghost[0] + 1), xg1("x1_glob", N[1] + 2 * grid.Nghost[1] + 1), xg2("x2_glob", N[2] + 2 * grid.Nghost[2] + 1);
    KVH_double_1d const xg[3] = {xg0, xg1, xg2};
    union U { Param p; U() {} ~U() {} } u;
    Param& param = u.p;
    param.x0min = mn[0]; param.x1min = mn[1]; param.x2min = mn[2];
    param.x0max = mx[0]; param.x1max = mx[1]; param.x2max = mx[2];
    if (vc_bool("from parameters")) Regular(param).execute(grid.Nghost, grid.Nx_glob_ng, xg0, xg1, xg2);
    else Regular({mn[0], mn[1], mn[2]}, {mx[0], mx[1], mx[2]}).execute(grid.Nghost, grid.Nx_glob_ng, xg0, xg1, xg2);
    char const* ii[] = {"i0", "i1", "i2"};
    for (int d = 0; d < 3; ++d) {
        long const i = vc_int(ii[d], 0, N[d] + 2 * grid.Nghost[d]);
        vc_eq("global node", xg[d](i), mn[d] + static_cast<double>(i - grid.Nghost[d]) * ((mx[d] - mn[d]) / N[d]));
        vc_eq("the first interior node is the lower bound", xg[d](grid.Nghost[d]), mn[d]);
        vc_eq("the last interior node is the upper bound", xg[d](grid.Nghost[d] + N[d]), mx[d]);
    }
    vc_cover("global");
    // any global nodes, not only the regular ones
    auto a0 = vc_in<KV_double_1d>("nodes0", 8, N[0] + 2 * grid.Nghost[0] + 1);
    auto a1 = vc_in<KV_double_1d>("nodes1", 8, N[1] + 2 * grid.Nghost[1] + 1);
    auto a2 = vc_in<KV_double_1d>("nodes2", 8, N[2] + 2 * grid.Nghost[2] + 1);
    grid.set_grid(a0, a1, a2);
    KV_double_1d const a[3] = {a0, a1, a2}, x[3] = {grid.x0, grid.x1, grid.x2}, dx[3] = {grid.dx0, grid.dx1, grid.dx2}, xc[3] = {grid.x0_center, grid.x1_center, grid.x2_center};
    for (int d = 0; d < 3; ++d) {
        vc_same("the global nodes are not modified", a[d]);
        long const i = vc_int("i", 0, grid.Nx_local_wg[d] - 1), lo = grid.range.Corner_min[d];
        vc_eq("local node = global node of the same cell", x[d](i), a[d](lo + i));
        vc_eq("upper local node", x[d](i + 1), a[d](lo + i + 1));
        vc_eq("width = difference of the nodes", dx[d](i), a[d](lo + i + 1) - a[d](lo + i));
        vc_eq("centre = midpoint of the nodes", xc[d](i), (a[d](lo + i + 1) + a[d](lo + i)) / 2);
    }
    vc_cover("local");
}
