// C13: the time step obeys the CFL condition in every cell of every rank
#include <hydro_common.hpp>
#include <range.cpp>
#include <time_step.hpp>
using namespace hclpp;
VC_HARNESS
{
    AbsEoS eos;
    Box b = make_box(0);
    long g = vc_int("ghosts", 0, b.ng);
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto u = vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto P = vc_in<KV_double_3d>("P", 1, b.n[0], b.n[1], b.n[2]);
    vc_opt("div", 0); // requires: cell lengths are not zero (positive widths, radii and sines)
    // wave rate of a cell: sum over the active directions of (|u| + c) / physical length
    auto const x0c = grid.x0_center, x1c = grid.x1_center;
    KV_double_1d const dx[3] = {grid.dx0, grid.dx1, grid.dx2};
    auto rate = [=](long i, long j, long k) {
        long const x[3] = {i, j, k};
        double const c = eos.compute_speed_of_sound(rho(i, j, k), P(i, j, k));
        double r = 0;
        for (int d = 0; d < ndim; ++d) {
            double len = dx[d](x[d]);
            if (geom == Geometry::Geom_spherical && d == 1) len *= x0c(i);
            if (geom == Geometry::Geom_spherical && d == 2) len *= x0c(i) * Kokkos::sin(x1c(j));
            double const v = u(i, j, k, d);
            r += ((v < 0 ? -v : v) + c) / len;
        }
        return r;
    };
    Cell c = any_cell(b);
    bool const in = in_range(b, c, g);
    vc_focus(3, c.i, c.j, c.k);
    Range const range = b.range.with_ghosts(static_cast<int>(g));
    double const dt = time_step(range, eos, grid, rho, u, P);
    ag.unchanged();
    vc_same("the density is not modified", rho);
    vc_same("the velocity is not modified", u);
    vc_same("the pressure is not modified", P);
    vc_assert("one maximum over all ranks of the domain", vcmpi::nred == 1 && vcmpi::red[0].op == MPI_MAX && vcmpi::red[0].comm == vcmpi::comm_cart && vcmpi::red[0].count == 1);
    double ref = 0;
    Kokkos::parallel_reduce("reference", cell_mdrange(range), [=](int i, int j, int k, double& m) { m = Kokkos::max(m, rate(i, j, k)); }, Kokkos::Max<double>(ref));
    double const all = vcmpi::combine(MPI_MAX, ref, vcmpi::red[0].others);
    vc_assume(all > 0);
    vc_eq("the step is the inverse of the largest wave rate over the cells of all ranks", dt, 1 / all);
    vc_cover("step");
    if (in) {
        double const r = rate(c.i, c.j, c.k);
        vc_lemma("the wave rate of the cell is at most the local maximum", r <= ref);
        vc_le("the wave rate of the cell is at most the inverse of the step", r, all); // dt = 1 / all
        vc_cover("cell");
    }
}
