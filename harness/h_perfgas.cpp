// C02: perfect gas
#include <vc.h>
#include <perfect_gas.cpp>
using hclpp::thermodynamics::PerfectGas;
VC_HARNESS
{
    { // construction: accepted exactly when both parameters are finite, gamma > 1, mmw > 0
        vc_opt("finite", 0);
        double g = vc_real("gamma_any"), w = vc_real("mmw_any");
        bool ok = __vc_isfinite(g) && g > 1 && __vc_isfinite(w) && w > 0;
        int what = 0;
        try { PerfectGas e(g, w); } catch (std::domain_error const&) { what = 1; } catch (...) { what = 2; }
        vc_assert("valid parameters are accepted", !ok || what == 0);
        vc_assert("invalid parameters throw std::domain_error", ok || what == 1);
        double r = vc_real("rho_any"), P = vc_real("P_any");
        vc_assert("valid exactly when both are finite and positive", PerfectGas::is_valid(r, P) == (__vc_isfinite(r) && r > 0 && __vc_isfinite(P) && P > 0));
        vc_opt("finite", 1);
    }
    double g = vc_real("gamma"), w = vc_real("mmw");
    vc_assume(g > 1 && w > 0);
    PerfectGas e(g, w);
    vc_eq("adiabatic index", e.adiabatic_index(), g);
    vc_eq("mean molecular weight", e.mean_molecular_weight(), w);
    double rho = vc_pos("rho"), P = vc_pos("P"), ev = vc_pos("evol"), T = vc_pos("T");
    double k = hclpp::units::kb / hclpp::units::mp;
    vc_eq("internal energy = P/(gamma-1)", e.compute_evol_from_pres(rho, P), P / (g - 1), P / (g - 1));
    vc_eq("pressure = (gamma-1) evol", e.compute_pres_from_evol(rho, ev), (g - 1) * ev, ev);
    vc_eq("pressure -> energy -> pressure", e.compute_pres_from_evol(rho, e.compute_evol_from_pres(rho, P)), P, P);
    vc_eq("energy -> pressure -> energy", e.compute_evol_from_pres(rho, e.compute_pres_from_evol(rho, ev)), ev, ev);
    vc_eq("pressure -> temperature -> pressure", e.compute_pres_from_temp(rho, e.compute_temp_from_pres(rho, P)), P, P);
    vc_eq("energy -> temperature -> energy", e.compute_evol_from_temp(rho, e.compute_temp_from_evol(rho, ev)), ev, ev);
    vc_eq("temperature -> pressure -> temperature", e.compute_temp_from_pres(rho, e.compute_pres_from_temp(rho, T)), T, T);
    vc_eq("temperature -> energy -> temperature", e.compute_temp_from_evol(rho, e.compute_evol_from_temp(rho, T)), T, T);
    vc_eq("ideal gas law", e.compute_pres_from_temp(rho, T) * w, rho * k * T, rho * k * T);
    vc_eq("both temperatures agree", e.compute_temp_from_evol(rho, e.compute_evol_from_pres(rho, P)), e.compute_temp_from_pres(rho, P), 1);
    double c = e.compute_speed_of_sound(rho, P);
    vc_assert("sound speed is positive", c > 0);
    vc_eq("c^2 = gamma P / rho", c * c, g * P / rho, g * P / rho);
    vc_cover("gas");
}
