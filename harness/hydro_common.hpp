// contracts shared by the hydro-update harnesses
#pragma once
#include <grid_common.hpp>
#include <geom.hpp>
namespace hclpp {
// gravity field: some function of cell and direction
struct AbsGravity { double operator()(int i, int j, int k, int dir) const noexcept { return vc_f("g", i, j, k, dir); } };
struct NoGravity { double operator()(int, int, int, int) const noexcept { return 0; } };
struct Rec // reconstructed face states
{
    KV_double_5d rho, E;
    KV_double_6d rhou, fx;
    long nfx;
    Rec(Box const& b, long nfx_) : rho(vc_in<KV_double_5d>("rho_rec", 1, b.n[0], b.n[1], b.n[2], 2, ndim)), E(vc_in<KV_double_5d>("E_rec", 1, b.n[0], b.n[1], b.n[2], 2, ndim)), rhou(vc_in<KV_double_6d>("rhou_rec", 0, b.n[0], b.n[1], b.n[2], 2, ndim, ndim)), fx(vc_in<KV_double_6d>("fx_rec", 4, b.n[0], b.n[1], b.n[2], 2, ndim, nfx_)), nfx(nfx_) {}
    EulerCons at(long const (&c)[3], int side, int dim) const
    {
        EulerCons s;
        s.rho = vc_old(rho, c[0], c[1], c[2], side, dim);
        for (int d = 0; d < ndim; ++d) s.rhou[d] = vc_old(rhou, c[0], c[1], c[2], side, dim, d);
        s.E = vc_old(E, c[0], c[1], c[2], side, dim);
        return s;
    }
    double scalar(long const (&c)[3], int side, int dim, long f) const { return vc_old(fx, c[0], c[1], c[2], side, dim, f); }
};
} // namespace hclpp
