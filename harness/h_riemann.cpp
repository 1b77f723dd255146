// C05: symmetry, upwinding, contacts
#include <riemann_common.hpp>
#include <type_traits>
VC_HARNESS
{
    AbsEoS eos;
    SOLVER solver;
#ifndef DIM
#define DIM 0
#endif
    int const dim = DIM;
    EulerCons L = a_state("rhoL", "uL", "EL", eos), R = a_state("rhoR", "uR", "ER", eos);
    EulerPrim l = to_prim(L, eos), r = to_prim(R, eos);
    double cl = eos.compute_speed_of_sound(l.rho, l.P), cr = eos.compute_speed_of_sound(r.rho, r.P);
    EulerFlux f = solver(L, R, dim, eos);
    { // mirror symmetry
        EulerFlux g = solver(mirror(R, dim), mirror(L, dim), dim, eos);
        vc_eq("mirror: mass flux is odd", g.rho, -f.rho);
        for (int d = 0; d < ndim; ++d) {
            if (d == dim) vc_eq("mirror: normal momentum flux is even", g.rhou[d], f.rhou[d]);
            else vc_eq("mirror: transverse momentum flux is odd", g.rhou[d], -f.rhou[d]);
        }
        vc_eq("mirror: energy flux is odd", g.E, -f.E);
        vc_cover("mirror");
    }
    double wl = l.u[dim] - cl < r.u[dim] - cr ? l.u[dim] - cl : r.u[dim] - cr;
    double wr = l.u[dim] + cl > r.u[dim] + cr ? l.u[dim] + cl : r.u[dim] + cr;
    if constexpr (!std::is_same_v<SOLVER, Splitting>) {
        if (wl > 0) {
            EulerFlux g = compute_flux(L, dim, eos);
            vc_eq("supersonic to the right: mass", f.rho, g.rho);
            for (int d = 0; d < ndim; ++d) vc_eq("supersonic to the right: momentum", f.rhou[d], g.rhou[d]);
            vc_eq("supersonic to the right: energy", f.E, g.E);
            vc_cover("right");
        }
        if (wr < 0) {
            EulerFlux g = compute_flux(R, dim, eos);
            vc_eq("supersonic to the left: mass", f.rho, g.rho);
            for (int d = 0; d < ndim; ++d) vc_eq("supersonic to the left: momentum", f.rhou[d], g.rhou[d]);
            vc_eq("supersonic to the left: energy", f.E, g.E);
            vc_cover("left");
        }
    }
    if constexpr (std::is_same_v<SOLVER, HLLC>) {
        if (l.P == r.P && l.u[dim] == 0 && r.u[dim] == 0) {
            vc_eq("stationary contact: no mass flux", f.rho, 0);
            for (int d = 0; d < ndim; ++d) vc_eq("stationary contact: momentum flux is the pressure", f.rhou[d], d == dim ? l.P : 0);
            vc_eq("stationary contact: no energy flux", f.E, 0);
            vc_cover("contact");
        }
        double a = l.rho * (l.u[dim] - wl), b = r.rho * (wr - r.u[dim]); // positive acoustic impedances
        double ustar = (a * l.u[dim] + b * r.u[dim] + l.P - r.P) / (a + b);
        double const tiny = vc_native() ? 1e-6 : 0; // rounding only matters when replaying
        if (ustar > tiny) { vc_assert("mass flux has the sign of the contact speed (positive)", f.rho > 0); vc_cover("pos"); }
        if (ustar < -tiny) { vc_assert("mass flux has the sign of the contact speed (negative)", f.rho < 0); vc_cover("neg"); }
    }
}
