// C24: shifting the grid by one cell moves fields, coordinates and metric together
#include <contracts.hpp>
#include <mpi_cart.hpp>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <dual_view.hpp>
#include <param.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
#include <moving_grid.cpp>
using namespace hclpp;
#ifndef STATE
#    define STATE 0
#endif
#ifdef VC_NATIVE
#    define NODES 8 // random increasing nodes: equal ones would divide by zero
#else
#    define NODES 0 // any nodes, as long as the divisors are not zero
#endif
namespace {
// the nodes of one direction in any synchronisation state: 0 nothing pending, 1 host written last, 2 device written last
void fill(KDV_double_1d const& x, KVH_double_1d const& nodes)
{
    if (STATE == 2) Kokkos::deep_copy(x(device, discard_write), nodes);
    else Kokkos::deep_copy(x(host, discard_write), nodes);
    if (STATE == 0) { x.synchronize(device); x.synchronize(host); }
}
} // namespace
VC_HARNESS
{
    vcmpi::choose_process_grid();
    vcmpi::choose_process();
    long const Ng = vc_int("Ng", 1, 1000);
    std::array<int, 3> N;
    char const* nn[] = {"Nglob0", "Nglob1", "Nglob2"};
    for (int d = 0; d < 3; ++d) N[d] = d < ndim ? static_cast<int>(vc_int(nn[d], 1, 100000)) : 1;
    Grid grid(N, {0, 0, 0}, static_cast<int>(Ng));
    vc_opt("div", 0); // requires: the denominators of the metric formulas are not zero
    long const n0 = N[0] + 2 * grid.Nghost[0] + 1, n1 = N[1] + 2 * grid.Nghost[1] + 1, n2 = N[2] + 2 * grid.Nghost[2] + 1;
    auto const a0 = vc_in<KVH_double_1d>("nodes0", NODES, n0);
    auto const a1 = vc_in<KVH_double_1d>("nodes1", NODES, n1);
    auto const a2 = vc_in<KVH_double_1d>("nodes2", NODES, n2);
    KDV_double_1d const x0_glob("x0_glob", n0), x1_glob("x1_glob", n1), x2_glob("x2_glob", n2);
    fill(x0_glob, a0); fill(x1_glob, a1); fill(x2_glob, a2);
    long const w0 = grid.Nx_local_wg[0], w1 = grid.Nx_local_wg[1], w2 = grid.Nx_local_wg[2];
    long const nfx = vc_int("nfx", 0, 4);
    auto const rho_o = vc_in<KV_double_3d>("rho", 0, w0, w1, w2), E_o = vc_in<KV_double_3d>("E", 0, w0, w1, w2);
    auto const rho_n = vc_in<KV_double_3d>("rho_new", 0, w0, w1, w2), E_n = vc_in<KV_double_3d>("E_new", 0, w0, w1, w2);
    auto const rhou_o = vc_in<KV_double_4d>("rhou", 0, w0, w1, w2, ndim), fx_o = vc_in<KV_double_4d>("fx", 0, w0, w1, w2, nfx);
    auto const rhou_n = vc_in<KV_double_4d>("rhou_new", 0, w0, w1, w2, ndim), fx_n = vc_in<KV_double_4d>("fx_new", 0, w0, w1, w2, nfx);
    vc_cover("before the shift");
    shift_grid(rho_o, rhou_o, E_o, fx_o, rho_n, rhou_n, E_n, fx_n, x0_glob, x1_glob, x2_glob, grid);
    vc_cover("after the shift");
    vc_same("rho before the shift is not modified", rho_o); vc_same("rhou before the shift is not modified", rhou_o);
    vc_same("E before the shift is not modified", E_o); vc_same("fx before the shift is not modified", fx_o);
    {
        long const i = vc_int("i", 0, w0 - 2), j = vc_int("j", 0, w1 - 1), k = vc_int("k", 0, w2 - 1), d = vc_int("component", 0, ndim - 1);
        vc_eq("rho takes the value of the right neighbour", rho_n(i, j, k), rho_o(i + 1, j, k));
        vc_eq("E takes the value of the right neighbour", E_n(i, j, k), E_o(i + 1, j, k));
        vc_eq("rhou takes the value of the right neighbour", rhou_n(i, j, k, d), rhou_o(i + 1, j, k, d));
        if (nfx > 0) {
            long const f = vc_int("scalar", 0, nfx - 1);
            vc_eq("fx takes the value of the right neighbour", fx_n(i, j, k, f), fx_o(i + 1, j, k, f));
        }
    }
    auto const xh = x0_glob(host, read_only);
    {
        long const i = vc_int("node", 0, n0 - 2);
        vc_eq("a node takes the place of its right neighbour", xh(i), a0(i + 1));
        vc_eq("the last two widths have the ratio of the ones before", (xh(n0 - 1) - xh(n0 - 2)) * (xh(n0 - 3) - xh(n0 - 4)), (xh(n0 - 2) - xh(n0 - 3)) * (xh(n0 - 2) - xh(n0 - 3)));
        long const i1 = vc_int("node1", 0, n1 - 1), i2 = vc_int("node2", 0, n2 - 1);
        vc_eq("the other directions keep their nodes (x1)", x1_glob(host, read_only)(i1), a1(i1));
        vc_eq("the other directions keep their nodes (x2)", x2_glob(host, read_only)(i2), a2(i2));
    }
    {
        long const g0 = grid.range.Corner_min[0], g1 = grid.range.Corner_min[1], g2 = grid.range.Corner_min[2];
        long const i = vc_int("local node 0", 0, w0), j = vc_int("local node 1", 0, w1), k = vc_int("local node 2", 0, w2);
        vc_eq("local nodes are the shifted global nodes", grid.x0(i), xh(g0 + i));
        vc_eq("local nodes of the other directions (x1)", grid.x1(j), a1(g1 + j));
        vc_eq("local nodes of the other directions (x2)", grid.x2(k), a2(g2 + k));
    }
    {
        long const i = vc_int("i", 0, w0 - 1), j = vc_int("j", 0, w1 - 1), k = vc_int("k", 0, w2 - 1), d = vc_int("face", 0, ndim - 1);
        long const g0 = grid.range.Corner_min[0];
        vc_eq("widths of the shifted cells", grid.dx0(i), xh(g0 + i + 1) - xh(g0 + i));
        vc_eq("centres of the shifted cells", grid.x0_center(i), (xh(g0 + i + 1) + xh(g0 + i)) / 2);
        // the metric of the shifted coordinates (C12 decides that it is the geometric measure)
        KV_double_4d const ds("ds", w0, w1, w2, 3);
        KV_double_3d const dv("dv", w0, w1, w2);
        factory_grid_geometry()->execute(grid.range.all_ghosts(), grid.x0, grid.x1, grid.x2, grid.dx0, grid.dx1, grid.dx2, ds, dv);
        vc_eq("volumes of the shifted cells", grid.dv(i, j, k), dv(i, j, k));
        vc_eq("areas of the shifted cells", grid.ds(i, j, k, d), ds(i, j, k, d));
    }
    auto const xd = x0_glob(device, read_only);
    {
        KVH_double_1d const c("copy of the device nodes", n0);
        Kokkos::deep_copy(c, xd);
        long const i = vc_int("node", 0, n0 - 1);
        vc_eq("host and device agree", c(i), xh(i));
    }
}
