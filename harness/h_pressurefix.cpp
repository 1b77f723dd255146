// C28: the pressure fix
#include <hydro_common.hpp>
#include <range.cpp>
#include <pressure_fix.hpp>
using namespace hclpp;
#define C3(c) (c)[0], (c)[1], (c)[2]
VC_HARNESS
{
    AbsEoS eos;
    Box b = make_box(1);
    long g = vc_int("ghosts", 0, b.ng - 1);
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    double const dt = vc_real("dt"), eps = vc_pos("eps");
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    Rec rec(b, 0);
    auto rho_new = vc_in<KV_double_3d>("rho_new", 1, b.n[0], b.n[1], b.n[2]);
    auto rhou_new = vc_in<KV_double_4d>("rhou_new", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E_new = vc_in<KV_double_3d>("E_new", 0, b.n[0], b.n[1], b.n[2]);
    vc_opt("div", 0); // requires: densities, volumes and (in corrected cells) the old kinetic energy are not zero
    pressure_fix(b.range.with_ghosts(static_cast<int>(g)), eos, grid, dt, eps, rho, rhou, E, rec.rho, rec.rhou, rec.E, rho_new, rhou_new, E_new);
    ag.unchanged();
    vc_same("the old density is not modified", rho);
    vc_same("the old momentum is not modified", rhou);
    vc_same("the old energy is not modified", E);
    vc_same("the reconstructed densities are not modified", rec.rho);
    vc_same("the reconstructed momenta are not modified", rec.rhou);
    vc_same("the reconstructed energies are not modified", rec.E);
    vc_same("the density is not modified", rho_new);
    vc_same("the momentum is not modified", rhou_new);
    Cell cc = any_cell(b);
    long c[3] = {cc.i, cc.j, cc.k};
    if (!in_range(b, cc, g)) {
        vc_eq("energy outside the range is not written", E_new(C3(c)), vc_old(E_new, C3(c)));
        vc_cover("outside");
        return;
    }
    auto ek = [](KV_double_3d const& r, KV_double_4d const& m, long const* x) {
        double s = 0;
        for (int d = 0; d < ndim; ++d) s += m(x[0], x[1], x[2], d) * m(x[0], x[1], x[2], d) / r(x[0], x[1], x[2]);
        return s / 2;
    };
    double const k0 = ek(rho, rhou, c), e0 = E(C3(c)) - k0, k1 = ek(rho_new, rhou_new, c), Eg = vc_old(E_new, C3(c));
    if (!(e0 < eps * k0)) {
        vc_eq("a cell that is not dominated by its kinetic energy keeps the conservative energy", E_new(C3(c)), Eg);
        vc_cover("kept");
        return;
    }
    vc_assume(k0 > 0);
    // internal energy advanced with the divergence of the interface velocities, upwinded energy transport and pressure work
    EulerCons q;
    q.rho = rho(C3(c)); q.E = E(C3(c));
    for (int d = 0; d < ndim; ++d) q.rhou[d] = rhou(C3(c), d);
    double const P = eos.compute_pres_from_evol(q.rho, E(C3(c)) - ek(rho, rhou, c));
    double divU = 0, divUE = 0;
    for (int d = 0; d < ndim; ++d) {
        long m[3] = {C3(c)}, p[3] = {C3(c)};
        m[d] -= 1;
        p[d] += 1;
        double const um = (rec.rhou(C3(m), 1, d, d) / rec.rho(C3(m), 1, d) + rec.rhou(C3(c), 0, d, d) / rec.rho(C3(c), 0, d)) / 2;
        double const up = (rec.rhou(C3(c), 1, d, d) / rec.rho(C3(c), 1, d) + rec.rhou(C3(p), 0, d, d) / rec.rho(C3(p), 0, d)) / 2;
        double const em = um < 0 ? e0 : E(C3(m)) - ek(rho, rhou, m);
        double const ep = up > 0 ? e0 : E(C3(p)) - ek(rho, rhou, p);
        double const Sm = grid.ds(C3(c), d), Sp = grid.ds(C3(p), d), V = grid.dv(C3(c));
        divU += (up * Sp - um * Sm) / V;
        divUE += (up * ep * Sp - um * em * Sm) / V;
    }
    double const a = e0 < eps / 10 * k0 ? 0 : e0 * e0 / (k0 * k0 * eps * eps);
    double const e1 = e0 + a * ((Eg - k1) - e0) + (1 - a) * dt * (-P * divU - divUE);
    double const scale = std::fabs(e0) + std::fabs(Eg) + k0 + k1 + std::fabs(dt) * (std::fabs(P * divU) + std::fabs(divUE));
    vc_eq("a corrected cell holds its advanced internal energy plus its kinetic energy", E_new(C3(c)), e1 + k1, scale);
    vc_cover("corrected");
}
