// C09: a uniform gas at rest (on a Cartesian grid also in motion) is unchanged by a full step:
// face reconstruction, half-step extrapolation and finite-volume update composed on the metric of the real geometry
#include <hydro_common.hpp>
#include <memory>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <face_reconstruction.cpp>
#include <extrapolation_reconstruction.hpp>
#include <hydro_reconstruction.hpp>
#include <godunov_scheme.hpp>
using namespace hclpp;
struct AbsLimiter
{
    double operator()(double r, double l) const noexcept { return r == 0 && l == 0 ? 0 : vc_f("limiter", r, l); }
};
VC_HARNESS
{
    AbsEoS eos;
    Box b = make_box(2);
    AnyGrid ag(b);
    Grid& grid = ag.grid;
    double const dt = vc_pos("dt");
    vc_opt("div", 0); // requires: new density not zero, as in C08
    // metric of the real geometry
    factory_grid_geometry()->execute(b.range.all_ghosts(), grid.x0, grid.x1, grid.x2, grid.dx0, grid.dx1, grid.dx2, grid.ds, grid.dv);
    double const r0 = vc_pos("density"), p0 = vc_pos("pressure");
    double u0[ndim];
    for (int d = 0; d < ndim; ++d) u0[d] = geom == Geometry::Geom_cartesian ? vc_real("velocity") : 0;
    EulerPrim s;
    s.rho = r0; s.P = p0;
    for (int d = 0; d < ndim; ++d) s.u[d] = u0[d];
    eos.inverse_at_P(r0, p0);
    EulerCons const q = to_cons(s, eos);
    auto v3 = [&](char const* n) { return KV_double_3d(n, b.n[0], b.n[1], b.n[2]); };
    auto v4 = [&](char const* n) { return KV_double_4d(n, b.n[0], b.n[1], b.n[2], ndim); };
    KV_double_3d rho = v3("rho"), P = v3("P"), E = v3("E"), rho_new = v3("rho_new"), E_new = v3("E_new");
    KV_double_4d u = v4("u"), rhou = v4("rhou"), rhou_new = v4("rhou_new");
    long const nfx = 0;
    KV_double_4d fx("fx", b.n[0], b.n[1], b.n[2], nfx), fx_new("fx_new", b.n[0], b.n[1], b.n[2], nfx);
    Kokkos::deep_copy(rho, r0);
    Kokkos::deep_copy(P, p0);
    Kokkos::deep_copy(E, q.E);
    for (int d = 0; d < ndim; ++d) {
        Kokkos::deep_copy(Kokkos::subview(u, ALL, ALL, ALL, d), u0[d]);
        Kokkos::deep_copy(Kokkos::subview(rhou, ALL, ALL, ALL, d), q.rhou[d]);
    }
    KV_double_5d rho_rec("rho_rec", b.n[0], b.n[1], b.n[2], 2, ndim), E_rec("E_rec", b.n[0], b.n[1], b.n[2], 2, ndim), P_rec("P_rec", b.n[0], b.n[1], b.n[2], 2, ndim);
    KV_double_6d rhou_rec("rhou_rec", b.n[0], b.n[1], b.n[2], 2, ndim, ndim), u_rec("u_rec", b.n[0], b.n[1], b.n[2], 2, ndim, ndim), fx_rec("fx_rec", b.n[0], b.n[1], b.n[2], 2, ndim, nfx);
    NoGravity g;
    MUSCLHancockHydroReconstruction<AbsEoS, NoGravity> const reconstruction(
            std::make_unique<LimitedLinearReconstruction<AbsLimiter>>(AbsLimiter()), std::make_unique<HancockExtrapolationReconstruction<AbsEoS, NoGravity>>(eos), eos, P_rec, u_rec);
    reconstruction.execute(b.range.with_ghosts(1), grid, g, dt / 2, rho, u, P, fx, rho_rec, rhou_rec, E_rec, fx_rec);
    {
        Cell c = any_cell(b);
        if (in_range(b, c, 1)) {
            for (int d = 0; d < ndim; ++d)
                for (int side = 0; side < 2; ++side) {
                    vc_eq("half step: face density", rho_rec(AT(c), side, d), r0);
                    vc_eq("half step: face energy", E_rec(AT(c), side, d), q.E);
                    for (int e = 0; e < ndim; ++e) vc_eq("half step: face momentum", rhou_rec(AT(c), side, d, e), q.rhou[e], r0 * dt * p0 / grid.dv(AT(c)) * grid.ds(AT(c), 0));
                }
            vc_cover("half step");
        }
    }
    AbsRiemann<true> solver;
    RiemannBasedGodunovScheme<AbsRiemann<true>, NoGravity, AbsEoS> const scheme(solver, eos);
    scheme.execute(b.range.no_ghosts(), grid, g, dt, rho, rhou, E, fx, rho_rec, rhou_rec, E_rec, fx_rec, rho_new, rhou_new, E_new, fx_new);
    Cell c = any_cell(b);
    if (in_range(b, c, 0)) {
        vc_eq("full step: density", rho_new(AT(c)), r0);
        for (int e = 0; e < ndim; ++e) vc_eq("full step: momentum", rhou_new(AT(c), e), q.rhou[e], r0 * dt * p0 / grid.dv(AT(c)) * grid.ds(AT(c), 0));
        vc_eq("full step: energy", E_new(AT(c)), q.E);
        vc_cover("full step");
    }
}
