// C01: primitive / conserved conversions
#include <contracts.hpp>
#include <range.cpp>
#include <array_conversion.hpp>
using namespace hclpp;
VC_HARNESS
{
    AbsEoS eos;
    { // point-wise
        EulerPrim p;
        p.rho = vc_pos("rho"); p.P = vc_real("P");
        double ek = 0;
        for (int d = 0; d < ndim; ++d) { p.u[d] = vc_real("u"); ek += p.u[d] * p.u[d]; }
        ek = ek * p.rho / 2;
        eos.inverse_at_P(p.rho, p.P);
        EulerCons c = to_cons(p, eos);
        vc_eq("density is kept", c.rho, p.rho);
        for (int d = 0; d < ndim; ++d) vc_eq("momentum = density * velocity", c.rhou[d], p.rho * p.u[d]);
        vc_eq("energy = internal + kinetic", c.E, eos.compute_evol_from_pres(p.rho, p.P) + ek);
        vc_eq("kinetic energy (conserved)", compute_ek(c), ek);
        vc_eq("kinetic energy (primitive)", compute_ek(p), ek);
        vc_eq("internal energy", compute_evol(c), eos.compute_evol_from_pres(p.rho, p.P));
        EulerPrim q = to_prim(c, eos);
        vc_eq("round trip density", q.rho, p.rho);
        for (int d = 0; d < ndim; ++d) vc_eq("round trip velocity", q.u[d], p.u[d]);
        vc_eq("round trip pressure", q.P, p.P);
        vc_cover("prim");
    }
    {
        EulerCons c;
        c.rho = vc_pos("rho"); c.E = vc_real("E");
        double m2 = 0;
        for (int d = 0; d < ndim; ++d) { c.rhou[d] = vc_real("m"); m2 += c.rhou[d] * c.rhou[d]; }
        double e = c.E - m2 / (2 * c.rho);
        eos.inverse_at_e(c.rho, e);
        EulerPrim p = to_prim(c, eos);
        vc_eq("pressure from the internal energy", p.P, eos.compute_pres_from_evol(c.rho, e));
        EulerCons c2 = to_cons(p, eos);
        vc_eq("round trip density", c2.rho, c.rho);
        for (int d = 0; d < ndim; ++d) vc_eq("round trip momentum", c2.rhou[d], c.rhou[d]);
        vc_eq("round trip energy", c2.E, c.E);
        vc_cover("cons");
    }
    // arrays
    Box b = make_box(0);
    long g = vc_int("ghosts", 0, b.ng);
    auto rho = vc_in<KV_double_3d>("rho_a", 1, b.n[0], b.n[1], b.n[2]);
    auto P = vc_in<KV_double_3d>("P_a", 0, b.n[0], b.n[1], b.n[2]);
    auto E = vc_in<KV_double_3d>("E_a", 0, b.n[0], b.n[1], b.n[2]);
    auto u = vc_in<KV_double_4d>("u_a", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto m = vc_in<KV_double_4d>("m_a", 0, b.n[0], b.n[1], b.n[2], ndim);
    Range r = vc_bool("with_ghosts") ? b.range.with_ghosts(static_cast<int>(g)) : b.range.with_ghosts(static_cast<int>(g));
    Cell c = any_cell(b);
    bool to = vc_bool("prim_to_cons");
    if (to) conv_prim_to_cons(r, eos, rho, u, P, m, E);
    else conv_cons_to_prim(r, eos, rho, m, E, u, P);
    vc_same("density array is not modified", rho);
    if (to) { vc_same("velocity array is not modified", u); vc_same("pressure array is not modified", P); }
    else { vc_same("momentum array is not modified", m); vc_same("energy array is not modified", E); }
    if (in_range(b, c, g)) {
        if (to) {
            EulerPrim p;
            p.rho = vc_old(rho, AT(c)); p.P = vc_old(P, AT(c));
            double ek = 0;
            for (int d = 0; d < ndim; ++d) { p.u[d] = vc_old(u, AT(c), d); ek += p.u[d] * p.u[d]; }
            for (int d = 0; d < ndim; ++d) vc_eq("cell momentum", m(AT(c), d), p.rho * p.u[d]);
            vc_eq("cell energy", E(AT(c)), eos.compute_evol_from_pres(p.rho, p.P) + p.rho * ek / 2);
            vc_cover("cell prim_to_cons");
        } else {
            double r0 = vc_old(rho, AT(c)), ek = 0;
            for (int d = 0; d < ndim; ++d) { double x = vc_old(m, AT(c), d); ek += x * x / r0 / 2; }
            for (int d = 0; d < ndim; ++d) vc_eq("cell velocity", u(AT(c), d), vc_old(m, AT(c), d) / r0);
            vc_eq("cell pressure", P(AT(c)), eos.compute_pres_from_evol(r0, vc_old(E, AT(c)) - ek));
            vc_cover("cell cons_to_prim");
        }
    } else {
        for (int d = 0; d < ndim; ++d) {
            vc_eq("outside: momentum kept", m(AT(c), d), vc_old(m, AT(c), d));
            vc_eq("outside: velocity kept", u(AT(c), d), vc_old(u, AT(c), d));
        }
        vc_eq("outside: energy kept", E(AT(c)), vc_old(E, AT(c)));
        vc_eq("outside: pressure kept", P(AT(c)), vc_old(P, AT(c)));
    }
}
