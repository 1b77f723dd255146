// states for the Riemann-solver contracts
#pragma once
#include <contracts.hpp>
#include <riemann_solver.hpp>
using namespace hclpp;
#ifndef SOLVER
#define SOLVER HLL
#endif
// requires: density > 0, pressure > 0, and the EoS postconditions sound > 0, rho c^2 >= P
inline EulerCons a_state(char const* r, char const* m, char const* E, AbsEoS const& eos)
{
    EulerCons c;
    c.rho = vc_pos(r);
    for (int d = 0; d < ndim; ++d) c.rhou[d] = c.rho * vc_real(m);
#ifdef VC_NATIVE
    c.E = 0;
    c.E = vc_pos(E) - compute_evol(c); // replay: choose the internal energy
#else
    c.E = vc_real(E);
#endif
    double P = eos.compute_pres_from_evol(c.rho, compute_evol(c));
    double cs = eos.compute_speed_of_sound(c.rho, P);
    vc_assume(P > 0);
    vc_assume(cs > 0);
    vc_assume(c.rho * cs * cs >= P);
    eos.inverse_at_e(c.rho, compute_evol(c));
    return c;
}
inline EulerCons mirror(EulerCons c, int dim) { c.rhou[dim] = -c.rhou[dim]; return c; }
