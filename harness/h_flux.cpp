// C04: physical flux and consistency of the Riemann solvers
#include <riemann_common.hpp>
VC_HARNESS
{
    AbsEoS eos;
    SOLVER solver;
    for (int dim = 0; dim < ndim; ++dim) {
        { // physical flux
            EulerPrim p;
            p.rho = vc_pos("rho"); p.P = vc_real("P");
            double ek = 0;
            for (int d = 0; d < ndim; ++d) { p.u[d] = vc_real("u"); ek += p.rho * p.u[d] * p.u[d] / 2; }
            eos.inverse_at_P(p.rho, p.P);
            double E = eos.compute_evol_from_pres(p.rho, p.P) + ek;
            EulerFlux f = compute_flux(p, dim, eos);
            EulerFlux g = compute_flux(to_cons(p, eos), dim, eos);
            vc_eq("mass flux = rho u", f.rho, p.rho * p.u[dim], 0);
            for (int d = 0; d < ndim; ++d) vc_eq("momentum flux = rho u u + P", f.rhou[d], p.rho * p.u[dim] * p.u[d] + (d == dim ? p.P : 0));
            vc_eq("energy flux = u (E + P)", f.E, p.u[dim] * (E + p.P));
            vc_eq("both flux functions agree: mass", g.rho, f.rho);
            for (int d = 0; d < ndim; ++d) vc_eq("both flux functions agree: momentum", g.rhou[d], f.rhou[d]);
            vc_eq("both flux functions agree: energy", g.E, f.E);
            vc_cover("flux");
        }
        EulerCons c = a_state("rho", "m", "E", eos);
        EulerFlux f = compute_flux(c, dim, eos);
        EulerCons o = a_state("rho2", "m2", "E2", eos);
        EulerFlux first = solver(o, c, dim, eos);
        EulerFlux g = solver(c, c, dim, eos);
        vc_eq("consistent mass flux", g.rho, f.rho);
        for (int d = 0; d < ndim; ++d) vc_eq("consistent momentum flux", g.rhou[d], f.rhou[d]);
        vc_eq("consistent energy flux", g.E, f.E);
        EulerFlux again = solver(o, c, dim, eos);
        vc_eq("depends only on its arguments: mass", again.rho, first.rho);
        for (int d = 0; d < ndim; ++d) vc_eq("depends only on its arguments: momentum", again.rhou[d], first.rhou[d]);
        vc_eq("depends only on its arguments: energy", again.E, first.E);
        vc_cover("consistency");
    }
}
