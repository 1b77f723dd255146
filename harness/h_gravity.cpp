// C11: the gravity fields
#include <grid_common.hpp>
#include <range.cpp>
#include <gravity.cpp>
#include <units.hpp>
using namespace hclpp;
#ifndef KIND
#define KIND 0
#endif
VC_HARNESS
{
    Box b = make_box(0);
    AnyGrid ag(b);
    Grid& grid = ag.grid;
    Cell c = any_cell(b);
    double const G = units::G;
#if KIND == 0 // uniform
    double const g[3] = {vc_real("gx0"), vc_real("gx1"), vc_real("gx2")};
    UniformGravity const grav = make_uniform_gravity(g[0], g[1], g[2]);
    for (int d = 0; d < ndim; ++d) vc_eq("uniform gravity is the configured constant of its direction", grav(AT(c), d), g[d]);
    vc_cover("field");
#elif KIND == 1 // point mass
    double const M = vc_real("M");
    vc_opt("div", 0); // requires: x0_center != 0
    PointMassGravity const grav = make_point_mass_gravity(M, grid);
    ag.unchanged();
    double const r = grid.x0_center(c.i);
    vc_eq("point mass: -G M / r^2 radially", grav(AT(c), 0), -G * M / (r * r));
    for (int d = 1; d < ndim; ++d) vc_eq("point mass: no other component", grav(AT(c), d), 0);
    vc_cover("field");
#else // internal mass
    double const M = vc_real("M");
    int const p0 = static_cast<int>(vc_int("procs0", 1, 64));
    grid.mpi_dims_cart[0] = p0;
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    vc_opt("div", 0); // requires: x0_center != 0, positive total volumes
    bool thrown = false;
    KV_double_1d field("field", b.n[0]);
    double other[3] = {0, 0, 0};
    try {
        InternalMassGravity const grav = make_internal_mass_gravity(M, grid, rho);
        Kokkos::parallel_for("copy", Kokkos::RangePolicy<int>(0, static_cast<int>(b.n[0])), [=](int i) { field(i) = grav(i, 0, 0, 0); });
        for (int d = 0; d < ndim; ++d) other[d] = grav(AT(c), d);
    } catch (std::runtime_error const&) {
        thrown = true;
    }
    vc_assert("a decomposition along the first direction is refused", thrown == (p0 != 1));
    if (thrown) {
        vc_cover("refused");
        return;
    }
    ag.unchanged();
    vc_same("the density is not modified", rho);
    for (int d = 1; d < ndim; ++d) vc_eq("internal mass: no other component", other[d], 0);
    vc_eq("internal mass: the same field for every cell of a shell", other[0], field(c.i));
    // mean density of the shells, over all ranks sharing them
    long const ng = b.ng, n = b.in[0] + ng;
    KV_double_1d mass("mass", n), vol("vol", n);
    auto const dv = grid.dv;
    int const o[3] = {grid.Nghost[0], grid.Nghost[1], grid.Nghost[2]};
    int const o0 = o[0], o1 = o[1], o2 = o[2];
    for (int i = 0; i < static_cast<int>(n); ++i) {
        double m = 0, v = 0;
        Kokkos::parallel_reduce("reference", Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<2>>({0, 0}, {static_cast<int>(b.in[1]), static_cast<int>(b.in[2])}), [=](int j, int k, double& a, double& w) { a += rho(o0 + i, o1 + j, o2 + k) * dv(o0 + i, o1 + j, o2 + k); w += dv(o0 + i, o1 + j, o2 + k); }, Kokkos::Sum<double>(m), Kokkos::Sum<double>(v));
        mass(i) = m;
        vol(i) = v;
    }
    auto mean = [=](long i) { return vcmpi::all_ranks(MPI_SUM, vcmpi::comm_horizontal, mass(i)) / vcmpi::all_ranks(MPI_SUM, vcmpi::comm_horizontal, vol(i)); };
    auto const x0 = grid.x0, xc = grid.x0_center;
    auto cube = [](double x) { return x * x * x; };
    double const s = 4 * units::pi / 3;
    long const i = c.i;
    auto M_r = [=](long j) { return -field(j) * (xc(j) * xc(j)) / G; };
    if (i < ng) {
        vc_eq("left ghost cells see the central mass", M_r(i), M);
        vc_cover("ghost");
    } else if (i == ng) {
        vc_eq("first cell: the central mass and the inner half of the first shell", M_r(i), M + s * (cube(xc(i)) - cube(x0(i))) * mean(0));
        vc_cover("first");
    } else {
        double const out = s * (cube(x0(i)) - cube(xc(i - 1))) * mean(i - 1 - ng), in = s * (cube(xc(i)) - cube(x0(i))) * mean(i - ng);
        vc_eq("each cell adds the outer half of the previous shell and the inner half of its own", M_r(i), M_r(i - 1) + out + in);
        vc_cover("next");
    }
#endif
}
