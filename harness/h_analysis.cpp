// C29: diagnostics
#include <hydro_common.hpp>
#include <range.cpp>
#include <integration.cpp>
#include <internal_energy.cpp>
#include <temperature.hpp>
using namespace hclpp;
VC_HARNESS
{
    AbsEoS eos;
    Box b = make_box(0);
    long const g = vc_int("ghosts", 0, b.ng);
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    Range const range = b.range.with_ghosts(static_cast<int>(g));
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    auto P = vc_in<KV_double_3d>("P", 1, b.n[0], b.n[1], b.n[2]);
    auto T = vc_in<KV_double_3d>("T", 0, b.n[0], b.n[1], b.n[2]);
    auto const dv = grid.dv;
    vc_opt("div", 0); // requires: densities are not zero
    Cell c = any_cell(b);
    bool const in = in_range(b, c, g);
    // the integral
    double const total = integrate(range, grid, E);
    vc_assert("one sum over all ranks of the domain", vcmpi::nred == 1 && vcmpi::red[0].op == MPI_SUM && vcmpi::red[0].comm == vcmpi::comm_cart && vcmpi::red[0].count == 1);
    double ref = 0;
    Kokkos::parallel_reduce("reference", cell_mdrange(range), [=](int i, int j, int k, double& s) { s += E(i, j, k) * dv(i, j, k); }, Kokkos::Sum<double>(ref));
    vc_eq("the integral is the sum of value times volume over the cells of all ranks", total, ref + vcmpi::red[0].others);
    // the smallest internal energy
    auto internal = [=](long i, long j, long k) {
        double m2 = 0;
        for (int d = 0; d < ndim; ++d) m2 += rhou(i, j, k, d) * rhou(i, j, k, d);
        return E(i, j, k) - m2 / (2 * rho(i, j, k));
    };
    vc_focus(3, c.i, c.j, c.k);
    double const lowest = minimum_internal_energy(range, grid, rho, rhou, E);
    vc_assert("one minimum over all ranks of the domain", vcmpi::nred == 2 && vcmpi::red[1].op == MPI_MIN && vcmpi::red[1].comm == vcmpi::comm_cart && vcmpi::red[1].count == 1);
    double refm = 0;
    Kokkos::parallel_reduce("reference", cell_mdrange(range), [=](int i, int j, int k, double& m) { m = Kokkos::min(m, internal(i, j, k)); }, Kokkos::Min<double>(refm));
    vc_eq("the minimum is attained in a cell of this or another rank", lowest, vcmpi::combine(MPI_MIN, refm, vcmpi::red[1].others));
    if (in) {
        vc_le("the minimum is a lower bound", lowest, internal(c.i, c.j, c.k));
        vc_cover("minimum");
    }
    // the temperature
    temperature(range, eos, rho, P, T);
    if (in) {
        vc_eq("the temperature is the one of the equation of state", T(AT(c)), eos.compute_temp_from_pres(rho(AT(c)), P(AT(c))));
        vc_cover("temperature");
    } else {
        vc_eq("temperature outside the range is not written", T(AT(c)), vc_old(T, AT(c)));
        vc_cover("outside");
    }
    ag.unchanged();
    vc_same("the density is not modified", rho);
    vc_same("the momentum is not modified", rhou);
    vc_same("the energy is not modified", E);
    vc_same("the pressure is not modified", P);
}
