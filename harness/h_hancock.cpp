// C08, C10, C11: the half-step extrapolation of the face states
#include <hydro_common.hpp>
#include <memory>
#include <range.cpp>
#include <extrapolation_reconstruction.hpp>
using namespace hclpp;
#ifndef PROP
#define PROP 8
#endif
#define C3(c) (c)[0], (c)[1], (c)[2]
VC_HARNESS
{
    AbsEoS eos;
    AbsGravity grav;
    Box b = make_box(1);
    long g = vc_int("ghosts", 0, b.ng - 1);
    long nfx = PROP == 10 ? vc_int("nfx", 1, 1000) : vc_int("nfx", 0, 1000);
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    double dt = vc_real("dt");
    Rec rec(b, nfx);
    auto u_rec = vc_in<KV_double_6d>("u_rec", 0, b.n[0], b.n[1], b.n[2], 2, ndim, ndim);
    auto P_rec = vc_in<KV_double_5d>("P_rec", 1, b.n[0], b.n[1], b.n[2], 2, ndim);
    vc_opt("div", 0); // requires: the divisors of the extrapolation are not zero (positive extrapolated density, x0 + x0p, sin sums)
#if PROP == 11
    auto copy = [](auto const& v) { auto w = v; w = decltype(w)("copy", v.layout()); Kokkos::deep_copy(w, v); return w; };
    auto rho0 = copy(rec.rho), E0 = copy(rec.E);
    auto rhou0 = copy(rec.rhou), fx0 = copy(rec.fx);
    HancockExtrapolationReconstruction<AbsEoS, NoGravity> const hancock0(eos);
    hancock0.execute(b.range.with_ghosts(static_cast<int>(g)), grid, NoGravity(), dt, u_rec, P_rec, rho0, rhou0, E0, fx0);
#else
    KV_double_5d rho0, E0;
    KV_double_6d rhou0;
#endif
    HancockExtrapolationReconstruction<AbsEoS, AbsGravity> const hancock(eos);
    hancock.execute(b.range.with_ghosts(static_cast<int>(g)), grid, grav, dt, u_rec, P_rec, rec.rho, rec.rhou, rec.E, rec.fx);
    if (PROP == 8) {
        ag.unchanged();
        vc_same("the face velocities are not modified", u_rec);
        vc_same("the face pressures are not modified", P_rec);
    }
    Cell cc = any_cell(b);
    long c[3] = {cc.i, cc.j, cc.k};
    long f = nfx > 0 ? vc_int("ifx", 0, nfx - 1) : 0;
    if (!in_range(b, cc, g)) {
        for (int side = 0; side < 2; ++side) for (int q = 0; q < ndim; ++q) {
            if (PROP == 8) {
                vc_eq("face density outside the range is not written", rec.rho(C3(c), side, q), vc_old(rec.rho, C3(c), side, q));
                for (int d = 0; d < ndim; ++d) vc_eq("face momentum outside the range is not written", rec.rhou(C3(c), side, q, d), vc_old(rec.rhou, C3(c), side, q, d));
                vc_eq("face energy outside the range is not written", rec.E(C3(c), side, q), vc_old(rec.E, C3(c), side, q));
            }
            if (PROP == 10) vc_eq("face scalars outside the range are not written", rec.fx(C3(c), side, q, f), vc_old(rec.fx, C3(c), side, q, f));
        }
        vc_cover("outside");
        return;
    }
    double const w = dt / grid.dv(C3(c));
    for (int side = 0; side < 2; ++side) for (int q = 0; q < ndim; ++q) { // face q, side
        double const r0 = vc_old(rec.rho, C3(c), side, q);
        double er = r0, eE = vc_old(rec.E, C3(c), side, q), em[ndim], mass = nfx > 0 ? r0 * vc_old(rec.fx, C3(c), side, q, f) : 0;
        for (int d = 0; d < ndim; ++d) em[d] = vc_old(rec.rhou, C3(c), side, q, d);
        for (int d = 0; d < ndim; ++d) {
            long p[3] = {C3(c)};
            p[d] += 1;
            double const Sm = grid.ds(C3(c), d), Sp = grid.ds(C3(p), d);
            EulerPrim s[2];
            EulerFlux F[2];
            for (int i = 0; i < 2; ++i) {
                s[i].rho = vc_old(rec.rho, C3(c), i, d);
                for (int e = 0; e < ndim; ++e) s[i].u[e] = u_rec(C3(c), i, d, e);
                s[i].P = P_rec(C3(c), i, d);
                F[i] = compute_flux(s[i], d, eos);
            }
            er += w * (F[0].rho * Sm - F[1].rho * Sp);
            for (int e = 0; e < ndim; ++e) em[e] += w * (F[0].rhou[e] * Sm - F[1].rhou[e] * Sp);
            eE += w * (F[0].E * Sm - F[1].E * Sp);
            em[d] += dt * grav(C3(c), d) * r0;
            eE += dt * grav(C3(c), d) * vc_old(rec.rhou, C3(c), side, q, d);
            if (nfx > 0) mass += w * (F[0].rho * vc_old(rec.fx, C3(c), 0, d, f) * Sm - F[1].rho * vc_old(rec.fx, C3(c), 1, d, f) * Sp);
            if constexpr (geom == Geometry::Geom_spherical) {
                EulerPrim const L = s[0], R = s[1];
                double const dS = Sp - Sm;
                if (d < 2) em[d] += w * (L.P + R.P) / 2 * dS;
                if (d == 0) {
                    double const x0 = grid.x0(c[0]), x0p = grid.x0(c[0] + 1), a = (x0p - x0) / (x0p + x0);
                    for (int e = 1; e < ndim; ++e) {
                        em[0] += w * (L.rho * L.u[e] * L.u[e] + R.rho * R.u[e] * R.u[e]) / 2 * dS / 2;
                        em[e] -= w * a * (R.rho * R.u[e] * R.u[0] * Sp + L.rho * L.u[e] * L.u[0] * Sm);
                    }
                }
                if (d == 1 && ndim == 3) {
                    double const t = grid.x1(c[1]), tp = grid.x1(c[1] + 1), st = Kokkos::sin(t), sp = Kokkos::sin(tp);
                    double const cot = Kokkos::cos((t + tp) / 2) / Kokkos::sin((t + tp) / 2);
                    em[1] += w * (L.rho * L.u[ndim - 1] * L.u[ndim - 1] + R.rho * R.u[ndim - 1] * R.u[ndim - 1]) / 2 * cot * dS / 2;
                    em[ndim - 1] -= w * (sp - st) / (sp + st) * (R.rho * R.u[ndim - 1] * R.u[1] * Sp + L.rho * L.u[ndim - 1] * L.u[1] * Sm);
                }
            }
        }
        if (PROP == 8) {
            vc_eq("half step: face density", rec.rho(C3(c), side, q), er);
            for (int d = 0; d < ndim; ++d) vc_eq("half step: face momentum", rec.rhou(C3(c), side, q, d), em[d]);
            vc_eq("half step: face energy", rec.E(C3(c), side, q), eE);
        }
        if (PROP == 11) { // against the same extrapolation without gravity
            double W = 0;
            for (int d = 0; d < ndim; ++d) {
                vc_eq("half step: gravity adds dt rho g to the face momentum", rec.rhou(C3(c), side, q, d), rhou0(C3(c), side, q, d) + dt * r0 * grav(C3(c), d));
                W += dt * vc_old(rec.rhou, C3(c), side, q, d) * grav(C3(c), d);
            }
            vc_eq("half step: gravity adds dt rho u.g to the face energy", rec.E(C3(c), side, q), E0(C3(c), side, q) + W);
            vc_eq("half step: gravity does not change the face density", rec.rho(C3(c), side, q), rho0(C3(c), side, q));
        }
        if (PROP == 10) {
            vc_assume(er > 0); // requires: positive extrapolated density
            vc_eq("half step: the scalar is advected mass over density", rec.fx(C3(c), side, q, f), mass / er);
            vc_cover("scalar");
#ifndef VC_NATIVE
            if (vc_bool("uniform")) {
                double const s = vc_choose("s", 0, 1);
                for (int i = 0; i < 2; ++i) for (int d = 0; d < ndim; ++d) vc_assume(vc_old(rec.fx, C3(c), i, d, f) == s);
                vc_eq("half step: a uniform scalar stays uniform", rec.fx(C3(c), side, q, f), s);
                vc_cover("uniform scalar");
            }
#endif
        }
    }
    vc_cover("inside");
}
