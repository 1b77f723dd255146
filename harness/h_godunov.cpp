// C08, C10, C11: the finite-volume update
#include <hydro_common.hpp>
#include <range.cpp>
#include <godunov_scheme.hpp>
using namespace hclpp;
#ifndef PROP
#define PROP 8
#endif
#define C3(c) (c)[0], (c)[1], (c)[2]
VC_HARNESS
{
    AbsEoS eos;
    AbsRiemann<false> solver;
    AbsGravity grav;
    Box b = make_box(1);
    long g = vc_int("ghosts", 0, b.ng - 1);
    long nfx = vc_int("nfx", PROP == 10 ? 1 : 0, 1000);
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    double dt = vc_real("dt");
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E = vc_in<KV_double_3d>("E", 1, b.n[0], b.n[1], b.n[2]);
    auto fx = vc_in<KV_double_4d>("fx", 4, b.n[0], b.n[1], b.n[2], nfx);
    Rec rec(b, nfx);
    auto rho_new = vc_in<KV_double_3d>("rho_new", 1, b.n[0], b.n[1], b.n[2]);
    auto rhou_new = vc_in<KV_double_4d>("rhou_new", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E_new = vc_in<KV_double_3d>("E_new", 1, b.n[0], b.n[1], b.n[2]);
    auto fx_new = vc_in<KV_double_4d>("fx_new", 0, b.n[0], b.n[1], b.n[2], nfx);
    vc_opt("div", 0); // requires: the divisors of the update are not zero (positive new density, x0 + x0p, sin sums)
#if PROP == 11
    KV_double_3d rho0("rho0", b.n[0], b.n[1], b.n[2]), E_0("E0", b.n[0], b.n[1], b.n[2]);
    KV_double_4d rhou0("rhou0", b.n[0], b.n[1], b.n[2], ndim), fx0("fx0", b.n[0], b.n[1], b.n[2], nfx);
    RiemannBasedGodunovScheme<AbsRiemann<false>, NoGravity, AbsEoS> const scheme0(solver, eos);
    scheme0.execute(b.range.with_ghosts(static_cast<int>(g)), grid, NoGravity(), dt, rho, rhou, E, fx, rec.rho, rec.rhou, rec.E, rec.fx, rho0, rhou0, E_0, fx0);
#endif
    RiemannBasedGodunovScheme<AbsRiemann<false>, AbsGravity, AbsEoS> const scheme(solver, eos);
    scheme.execute(b.range.with_ghosts(static_cast<int>(g)), grid, grav, dt, rho, rhou, E, fx, rec.rho, rec.rhou, rec.E, rec.fx, rho_new, rhou_new, E_new, fx_new);
    if (PROP == 8) {
        ag.unchanged();
        vc_same("the old density is not modified", rho);
        vc_same("the old momentum is not modified", rhou);
        vc_same("the old energy is not modified", E);
        vc_same("the old scalars are not modified", fx);
        vc_same("the reconstructed densities are not modified", rec.rho);
        vc_same("the reconstructed momenta are not modified", rec.rhou);
        vc_same("the reconstructed energies are not modified", rec.E);
        vc_same("the reconstructed scalars are not modified", rec.fx);
    }
    Cell cc = any_cell(b);
    long c[3] = {cc.i, cc.j, cc.k};
    bool const has_fx = nfx > 0;
    long f = has_fx ? vc_int("ifx", 0, nfx - 1) : 0;
    if (!in_range(b, cc, g)) {
        if (PROP == 8) {
        vc_eq("density outside the range is not written", rho_new(C3(c)), vc_old(rho_new, C3(c)));
        for (int d = 0; d < ndim; ++d) vc_eq("momentum outside the range is not written", rhou_new(C3(c), d), vc_old(rhou_new, C3(c), d));
        vc_eq("energy outside the range is not written", E_new(C3(c)), vc_old(E_new, C3(c)));
        }
        if (PROP == 10) vc_eq("scalars outside the range are not written", fx_new(C3(c), f), vc_old(fx_new, C3(c), f));
        vc_cover("outside");
        return;
    }
    double r0 = vc_old(rho, C3(c)), E0 = vc_old(E, C3(c)), m0[ndim];
    for (int d = 0; d < ndim; ++d) m0[d] = vc_old(rhou, C3(c), d);
    double const w = dt / grid.dv(C3(c));
    double er = r0, eE = E0, em[ndim], mass = has_fx ? r0 * vc_old(fx, C3(c), f) : 0;
    for (int d = 0; d < ndim; ++d) em[d] = m0[d];
    for (int d = 0; d < ndim; ++d) {
        long m[3] = {C3(c)}, p[3] = {C3(c)};
        m[d] -= 1;
        p[d] += 1;
        double const Sm = grid.ds(C3(c), d), Sp = grid.ds(C3(p), d);
        // one flux per face, a function of the two states on its sides
        EulerFlux const Fm = solver(rec.at(m, 1, d), rec.at(c, 0, d), d, eos);
        EulerFlux const Fp = solver(rec.at(c, 1, d), rec.at(p, 0, d), d, eos);
        er += w * (Fm.rho * Sm - Fp.rho * Sp);
        for (int e = 0; e < ndim; ++e) em[e] += w * (Fm.rhou[e] * Sm - Fp.rhou[e] * Sp);
        eE += w * (Fm.E * Sm - Fp.E * Sp);
        // gravity
        em[d] += dt * grav(C3(c), d) * r0;
        eE += dt * grav(C3(c), d) * m0[d];
        // scalars: mass flux times the upwind value
        if (has_fx) {
            double const xm = Fm.rho < 0 ? rec.scalar(c, 0, d, f) : rec.scalar(m, 1, d, f);
            double const xp = Fp.rho < 0 ? rec.scalar(p, 0, d, f) : rec.scalar(c, 1, d, f);
            mass += w * (Fm.rho * xm * Sm - Fp.rho * xp * Sp);
        }
        if constexpr (geom == Geometry::Geom_spherical) {
            EulerPrim const L = to_prim(rec.at(c, 0, d), eos), R = to_prim(rec.at(c, 1, d), eos);
            double const dS = Sp - Sm;
            if (d < 2) em[d] += w * (L.P + R.P) / 2 * dS; // pressure on curved faces
            if (d == 0) {
                double const x0 = grid.x0(c[0]), x0p = grid.x0(c[0] + 1), a = (x0p - x0) / (x0p + x0);
                for (int e = 1; e < ndim; ++e) {
                    em[0] += w * (L.rho * L.u[e] * L.u[e] + R.rho * R.u[e] * R.u[e]) / 2 * dS / 2; // centrifugal
                    em[e] -= w * a * (R.rho * R.u[e] * R.u[0] * Sp + L.rho * L.u[e] * L.u[0] * Sm);
                }
            }
            if (d == 1 && ndim == 3) {
                double const t = grid.x1(c[1]), tp = grid.x1(c[1] + 1), s = Kokkos::sin(t), sp = Kokkos::sin(tp);
                double const cot = Kokkos::cos((t + tp) / 2) / Kokkos::sin((t + tp) / 2);
                em[1] += w * (L.rho * L.u[ndim - 1] * L.u[ndim - 1] + R.rho * R.u[ndim - 1] * R.u[ndim - 1]) / 2 * cot * dS / 2;
                em[ndim - 1] -= w * (sp - s) / (sp + s) * (R.rho * R.u[ndim - 1] * R.u[1] * Sp + L.rho * L.u[ndim - 1] * L.u[1] * Sm);
            }
        }
    }
    if (PROP == 8) {
        vc_eq("density: old + dt/dv * (inflow - outflow)", rho_new(C3(c)), er);
        for (int d = 0; d < ndim; ++d) vc_eq("momentum: old + dt/dv * (inflow - outflow) + sources", rhou_new(C3(c), d), em[d]);
        vc_eq("energy: old + dt/dv * (inflow - outflow) + dt rho u.g", E_new(C3(c)), eE);
    }
#if PROP == 10
    vc_assume(er > 0); // requires: positive new density
    double const x = fx_new(C3(c), f);
    double const q = mass / er;
    vc_eq("scalar: advected partial density over density, clipped to [0,1]", x, q < 0 ? 0 : q > 1 ? 1 : q);
    vc_assert("scalar is a fraction", x >= 0 && x <= 1);
    vc_cover("scalar");
    if (vc_bool("uniform")) { // a uniform scalar stays uniform whatever the flow
        double const s = vc_choose("s", 0, 1);
#ifdef VC_NATIVE
        (void)s;
#else
        vc_assume(vc_old(fx, C3(c), f) == s);
        for (int d = 0; d < ndim; ++d) {
            long m[3] = {C3(c)}, p[3] = {C3(c)};
            m[d] -= 1;
            p[d] += 1;
            vc_assume(rec.scalar(m, 1, d, f) == s && rec.scalar(c, 0, d, f) == s && rec.scalar(c, 1, d, f) == s && rec.scalar(p, 0, d, f) == s);
        }
        vc_eq("a uniform scalar stays uniform", x, s);
        vc_cover("uniform scalar");
#endif
    }
#endif
#if PROP == 11
    double W = 0;
    for (int d = 0; d < ndim; ++d) {
        vc_eq("gravity adds dt rho g to the momentum", rhou_new(C3(c), d), rhou0(C3(c), d) + dt * r0 * grav(C3(c), d));
        W += dt * m0[d] * grav(C3(c), d);
    }
    vc_eq("gravity adds dt rho u.g to the energy", E_new(C3(c)), E_0(C3(c)) + W);
    vc_eq("gravity does not change the density", rho_new(C3(c)), rho0(C3(c)));
    if (has_fx) vc_eq("gravity does not change the scalars", fx_new(C3(c), f), fx0(C3(c), f));
#endif
    vc_cover("inside");
}
