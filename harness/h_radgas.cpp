// C03: perfect gas + radiation
#include <vc.h>
#include <rad_gas.cpp>
using hclpp::thermodynamics::RadGas;
struct Ctx { double rho, w, d3, g1, S; };
// invariant of the Newton iterations: A T^4 + C T >= S and T > 0 (convex increasing function, started above its root)
static bool inv(void const* p, double T)
{
    Ctx const& c = *static_cast<Ctx const*>(p);
    return T > 0 && hclpp::units::ar * T * T * T * T / c.d3 + c.rho * hclpp::units::kb / (c.w * hclpp::units::mp * c.g1) * T >= c.S;
}
VC_HARNESS
{
    { // construction
        vc_opt("finite", 0);
        double g = vc_real("gamma_any"), w = vc_real("mmw_any");
        bool ok = __vc_isfinite(g) && g > 1 && __vc_isfinite(w) && w > 0;
        int what = 0;
        try { RadGas e(g, w); } catch (std::domain_error const&) { what = 1; } catch (...) { what = 2; }
        vc_assert("valid parameters are accepted", !ok || what == 0);
        vc_assert("invalid parameters throw std::domain_error", ok || what == 1);
        double r = vc_real("rho_any"), P = vc_real("P_any");
        vc_assert("valid exactly when both are finite and positive", RadGas::is_valid(r, P) == (__vc_isfinite(r) && r > 0 && __vc_isfinite(P) && P > 0));
        vc_opt("finite", 1);
    }
    double g = vc_real("gamma"), w = vc_real("mmw");
    vc_assume(g > 1 && w > 0);
    RadGas e(g, w);
    vc_eq("adiabatic index", e.adiabatic_index(), g);
    vc_eq("mean molecular weight", e.mean_molecular_weight(), w);
    double rho = vc_pos("rho"), P = vc_pos("P"), ev = vc_pos("evol"), T = vc_pos("T");
    double k = hclpp::units::kb / hclpp::units::mp, a = hclpp::units::ar;
    double Pg = rho * k * T / w, Pr = a * T * T * T * T / 3;
    vc_eq("P = Pgas + a T^4/3", e.compute_pres_from_temp(rho, T), Pg + Pr, Pg + Pr);
    vc_eq("e = Pgas/(gamma-1) + a T^4", e.compute_evol_from_temp(rho, T), Pg / (g - 1) + 3 * Pr, Pg + Pr);
    double const tol = 1e-6;
    Ctx cp {rho, w, 3, 1, P}, ce {rho, w, 1, g - 1, ev};
    vc_loop_contract("compute_temp_from_pres", &cp, &inv);
    double Tp = e.compute_temp_from_pres(rho, P);
    vc_assert("temperature from pressure is positive", Tp > 0);
    vc_le("temperature from pressure: never below the root", P, e.compute_pres_from_temp(rho, Tp), P);
    if (vc_loop_count() < 90) vc_le("temperature from pressure: residual within the tolerance unless the iteration limit is hit", e.compute_pres_from_temp(rho, Tp), P + 4 * a * tol * tol * (Tp + tol) * (Tp + tol));
    vc_loop_contract("compute_temp_from_evol", &ce, &inv);
    double Te = e.compute_temp_from_evol(rho, ev);
    vc_assert("temperature from energy is positive", Te > 0);
    vc_le("temperature from energy: never below the root", ev, e.compute_evol_from_temp(rho, Te), ev);
    if (vc_loop_count() < 90) vc_le("temperature from energy: residual within the tolerance unless the iteration limit is hit", e.compute_evol_from_temp(rho, Te), ev + 12 * a * tol * tol * (Te + tol) * (Te + tol));
    vc_cover("newton");
    // compute_speed_of_sound is checked against the contract of compute_temp_from_pres proved above
    vc_use_contract("compute_temp_from_pres", &cp, &inv);
    Tp = e.compute_temp_from_pres(rho, P);
    double c = e.compute_speed_of_sound(rho, P);
    double Pt = e.compute_pres_from_temp(rho, Tp);
    double x = rho * hclpp::units::kb * Tp / (w * hclpp::units::mp), y = Pt - x;
    // proved on the code's values, then used for arbitrary values having the same facts
    auto closed = [](double u, double x, double y, double d) { return u * x * (x + 12 * d * y) - ((1 + d) * x * x * x + 20 * d * x * x * y + 16 * d * x * y * y); };
    vc_lemma("gas pressure is positive", x > 0);
    vc_lemma("radiation pressure is positive", y > 0);
    vc_assert("sound speed is positive", c > 0);
    vc_lemma("closed form of the squared sound speed", closed(c * c * rho, x, y, g - 1) == 0);
    if (vc_native()) {
        vc_le("c^2 at most max(gamma,4/3) P/rho", 3 * c * c * rho, (3 * g < 4 ? 4 : 3 * g) * P * (1 + 1e-9));
    } else {
        double U = vc_real("u"), X = vc_pos("x"), Y = vc_pos("y"), D = vc_pos("d");
        vc_assume(closed(U, X, Y, D) == 0);
        double G = 1 + D;
        if (4 * G >= 5) vc_le("c^2 at least min(gamma,4/3) P/rho", (3 * G < 4 ? 3 * G : 4) * (X + Y), 3 * U);
        vc_le("c^2 at most max(gamma,4/3) P/rho", 3 * U, (3 * G < 4 ? 4 : 3 * G) * (X + Y));
    }
    vc_eq("internal energy of the temperature of the pressure", e.compute_evol_from_pres(rho, P), e.compute_evol_from_temp(rho, Tp), 1);
    vc_cover("sound");
}
