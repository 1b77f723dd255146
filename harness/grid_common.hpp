// an arbitrary local grid: coordinates, widths and metric arrays satisfying the grid's data invariant
#pragma once
#include <contracts.hpp>
#include <mpi_contract.hpp>
#include <grid.hpp>
#include <new>
namespace hclpp {
struct AnyGrid
{
    union { Grid grid; };
    Box b;
    // widths positive; the metric arrays and the coordinates are arbitrary (positive measures, increasing nodes) unless set_grid() is used
    explicit AnyGrid(Box const& bx) : b(bx)
    {
        vcmpi::nred = 0;
        Grid& g = grid;
        g.Ng = static_cast<int>(b.ng);
        for (int d = 0; d < 3; ++d) {
            g.Nghost[d] = d < ndim ? static_cast<int>(b.ng) : 0;
            g.Nx_local_ng[d] = static_cast<int>(b.in[d]);
            g.Nx_local_wg[d] = static_cast<int>(b.n[d]);
        }
        g.comm_cart = vcmpi::comm_cart;
        g.comm_cart_horizontal = vcmpi::comm_horizontal;
        new (&g.range) Range(b.range);
        new (&g.x0) KV_double_1d(vc_in<KV_double_1d>("x0", 8, b.n[0] + 1));
        new (&g.x1) KV_double_1d(vc_in<KV_double_1d>("x1", 8, b.n[1] + 1));
        new (&g.x2) KV_double_1d(vc_in<KV_double_1d>("x2", 8, b.n[2] + 1));
        new (&g.x0_center) KV_double_1d(vc_in<KV_double_1d>("x0_center", 1, b.n[0]));
        new (&g.x1_center) KV_double_1d(vc_in<KV_double_1d>("x1_center", 1, b.n[1]));
        new (&g.x2_center) KV_double_1d(vc_in<KV_double_1d>("x2_center", 1, b.n[2]));
        new (&g.dx0) KV_double_1d(vc_in<KV_double_1d>("dx0", 1, b.n[0]));
        new (&g.dx1) KV_double_1d(vc_in<KV_double_1d>("dx1", 1, b.n[1]));
        new (&g.dx2) KV_double_1d(vc_in<KV_double_1d>("dx2", 1, b.n[2]));
        new (&g.ds) KV_double_4d(vc_in<KV_double_4d>("ds", 2, b.n[0], b.n[1], b.n[2], 3));
        new (&g.dv) KV_double_3d(vc_in<KV_double_3d>("dv", 1, b.n[0], b.n[1], b.n[2]));
    }
    AnyGrid(AnyGrid const&) = delete;
    ~AnyGrid() {}
    void unchanged() const
    {
        vc_same("grid: x0 is not modified", grid.x0); vc_same("grid: x1 is not modified", grid.x1); vc_same("grid: x2 is not modified", grid.x2);
        vc_same("grid: dx0 is not modified", grid.dx0); vc_same("grid: dx1 is not modified", grid.dx1); vc_same("grid: dx2 is not modified", grid.dx2);
        vc_same("grid: ds is not modified", grid.ds); vc_same("grid: dv is not modified", grid.dv);
    }
};
} // namespace hclpp
