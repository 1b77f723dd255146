// contracts standing for the callees of the code under verification (a caller is checked against these, not against a body)
#pragma once
#include <vc.h>
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <range.hpp>
#include <kokkos_shortcut.hpp>

// equation of state: total functions of two reals; speed of sound positive
struct AbsEoS
{
    double compute_evol_from_pres(double rho, double P) const noexcept { return vc_f("evol_from_pres", rho, P); }
    double compute_pres_from_evol(double rho, double e) const noexcept { return vc_f("pres_from_evol", rho, e); }
    double compute_speed_of_sound(double rho, double P) const noexcept { return vc_f("sound", rho, P); }
    double compute_temp_from_evol(double rho, double e) const noexcept { return vc_f("temp_from_evol", rho, e); }
    double compute_temp_from_pres(double rho, double P) const noexcept { return vc_f("temp_from_pres", rho, P); }
    double compute_evol_from_temp(double rho, double T) const noexcept { return vc_f("evol_from_temp", rho, T); }
    double compute_pres_from_temp(double rho, double T) const noexcept { return vc_f("pres_from_temp", rho, T); }
    double adiabatic_index() const noexcept { return vc_f("gamma"); }
    double mean_molecular_weight() const noexcept { return vc_f("mmw"); }
    static bool is_valid(double rho, double x) noexcept { return rho > 0 && x > 0; }
    // requires/ensures: the two conversions are mutually inverse at this point (postcondition proved for the real classes in C02/C03)
    void inverse_at_P(double rho, double P) const { vc_assume(compute_pres_from_evol(rho, compute_evol_from_pres(rho, P)) == P); }
    void inverse_at_e(double rho, double e) const { vc_assume(compute_evol_from_pres(rho, compute_pres_from_evol(rho, e)) == e); }
};

// Riemann solver: some function of the two states, the direction; CONS: equal states give the exact flux (postcondition proved in C04)
template <bool CONS>
struct AbsRiemann
{
    template <class E>
    hclpp::EulerFlux operator()(hclpp::EulerCons const& L, hclpp::EulerCons const& R, int dim, E const& eos) const noexcept
    {
        using hclpp::ndim;
        double a[12] = {};
        int n = 0;
        a[n++] = L.rho; for (int d = 0; d < ndim; ++d) a[n++] = L.rhou[d]; a[n++] = L.E;
        a[n++] = R.rho; for (int d = 0; d < ndim; ++d) a[n++] = R.rhou[d]; a[n++] = R.E;
        a[n++] = dim;
        char const* nm[] = {"flux.rhou0", "flux.rhou1", "flux.rhou2"};
        hclpp::EulerFlux f;
        f.rho = vc_uf("flux.rho", n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
        for (int d = 0; d < ndim; ++d) f.rhou[d] = vc_uf(nm[d], n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
        f.E = vc_uf("flux.E", n, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
#ifdef VC_NATIVE
        if constexpr (CONS) { // replay: a smooth solver with this contract
            hclpp::EulerFlux const x = hclpp::compute_flux(L, dim, eos), y = hclpp::compute_flux(R, dim, eos);
            f.rho = (x.rho + y.rho) / 2 - (R.rho - L.rho);
            for (int d = 0; d < ndim; ++d) f.rhou[d] = (x.rhou[d] + y.rhou[d]) / 2 - (R.rhou[d] - L.rhou[d]);
            f.E = (x.E + y.E) / 2 - (R.E - L.E);
            return f;
        }
#endif
        if constexpr (CONS) {
            bool eq = L.rho == R.rho && L.E == R.E;
            for (int d = 0; d < ndim; ++d) eq = eq && L.rhou[d] == R.rhou[d];
            if (eq) return hclpp::compute_flux(L, dim, eos);
        }
        return f;
    }
};

// an arbitrary local box: interior sizes N[d] >= 1 (1 in inactive directions), ghost depth ng >= lo
struct Box
{
    long n[3]; // total extents
    long in[3]; // interior
    long ng;
    hclpp::Range range;
    static std::array<int, 3> cm(long const (&v)[3]) { return {static_cast<int>(v[0]), static_cast<int>(v[1]), static_cast<int>(v[2])}; }
};
inline Box make_box(long nglo, long nghi = 1000, long nmin = 1)
{
    using hclpp::ndim;
    long ng = vc_int("Nghost", nglo, nghi);
    long N[3], lo[3], hi[3], tot[3];
    char const* nn[] = {"N0", "N1", "N2"};
    char const* cc[] = {"c0", "c1", "c2"};
    for (int d = 0; d < 3; ++d) {
        N[d] = d < ndim ? vc_int(nn[d], nmin, 100000) : 1;
        lo[d] = d < ndim ? vc_int(cc[d], 0, 100000) : 0;
        hi[d] = lo[d] + N[d];
        tot[d] = N[d] + (d < ndim ? 2 * ng : 0);
    }
    return Box {{tot[0], tot[1], tot[2]}, {N[0], N[1], N[2]}, ng, hclpp::Range(Box::cm(lo), Box::cm(hi), static_cast<int>(ng))};
}
// an arbitrary cell of the array; inr = inside the range with g ghosts
struct Cell { long i, j, k; };
inline Cell any_cell(Box const& b, char const* = "")
{
    return Cell {vc_int("ci", 0, b.n[0] - 1), vc_int("cj", 0, b.n[1] - 1), vc_int("ck", 0, b.n[2] - 1)};
}
inline bool in_range(Box const& b, Cell c, long g)
{
    using hclpp::ndim;
    long x[3] = {c.i, c.j, c.k};
    bool r = true;
    for (int d = 0; d < 3; ++d) {
        long o = d < ndim ? b.ng - g : 0;
        r = r & (x[d] >= o) & (x[d] < b.n[d] - o);
    }
    return r;
}
#define AT(c) (c).i, (c).j, (c).k
