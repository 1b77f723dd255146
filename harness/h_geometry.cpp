// C12: face areas and volumes are the exact measures of the coordinate cell
#include <grid_common.hpp>
#include <geom.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
using namespace hclpp;
static double const pi = Kokkos::numbers::pi;
// exact measures: integrals of the area and volume elements (Cartesian: dx dy dz; spherical: r^2 sin(theta) dr dtheta dphi, inactive angles spanning the sphere)
static double volume(double a0, double b0, double a1, double b1, double a2, double b2)
{
    if (geom == Geometry::Geom_cartesian) return (b0 - a0) * (b1 - a1) * (b2 - a2);
    double r3 = (b0 * b0 * b0 - a0 * a0 * a0) / 3;
    double c = ndim == 1 ? 2 : Kokkos::cos(a1) - Kokkos::cos(b1);
    double p = ndim == 3 ? b2 - a2 : 2 * pi;
    return r3 * c * p;
}
static double area(int dim, double x, double a0, double b0, double a1, double b1, double a2, double b2)
{
    if (geom == Geometry::Geom_cartesian) return dim == 0 ? (b1 - a1) * (b2 - a2) : dim == 1 ? (b0 - a0) * (b2 - a2) : (b0 - a0) * (b1 - a1);
    double c = ndim == 1 ? 2 : Kokkos::cos(a1) - Kokkos::cos(b1);
    double p = ndim == 3 ? b2 - a2 : 2 * pi;
    double r2 = (b0 * b0 - a0 * a0) / 2;
    if (dim == 0) return x * x * c * p;
    if (dim == 1) return r2 * Kokkos::sin(x) * p;
    return r2 * (b1 - a1);
}
VC_HARNESS
{
    Box b = make_box(0);
    AnyGrid ag(b);
    Grid& g = ag.grid;
    Cell c = any_cell(b);
    // the widths handed over are the differences of the nodes (established by set_grid, C16)
    g.dx0 = KV_double_1d("dx0", b.n[0]); g.dx1 = KV_double_1d("dx1", b.n[1]); g.dx2 = KV_double_1d("dx2", b.n[2]);
    {
        KV_double_1d x[3] = {g.x0, g.x1, g.x2}, dx[3] = {g.dx0, g.dx1, g.dx2};
        for (int d = 0; d < 3; ++d) {
            KV_double_1d X = x[d], D = dx[d];
            Kokkos::parallel_for("widths", Kokkos::RangePolicy<>(0, b.n[d]), [=](int i) { D(i) = X(i + 1) - X(i); });
        }
    }
    std::unique_ptr<IComputeGeom> p = factory_grid_geometry();
    p->execute(b.range.all_ghosts(), g.x0, g.x1, g.x2, g.dx0, g.dx1, g.dx2, g.ds, g.dv);
    vc_same("node coordinates are not modified (0)", g.x0); vc_same("node coordinates are not modified (1)", g.x1); vc_same("node coordinates are not modified (2)", g.x2);
    double a0 = g.x0(c.i), b0 = g.x0(c.i + 1), a1 = g.x1(c.j), b1 = g.x1(c.j + 1), a2 = g.x2(c.k), b2 = g.x2(c.k + 1);
    vc_eq("volume", g.dv(AT(c)), volume(a0, b0, a1, b1, a2, b2));
    for (int d = 0; d < ndim; ++d) vc_eq("face area", g.ds(AT(c), d), area(d, d == 0 ? a0 : d == 1 ? a1 : a2, a0, b0, a1, b1, a2, b2));
    if (geom == Geometry::Geom_cartesian) {
        for (int d = 0; d < 3; ++d) vc_assert("face areas are positive", g.ds(AT(c), d) > 0);
        vc_assert("volumes are positive", g.dv(AT(c)) > 0);
        vc_cover("cartesian");
    } else {
        vc_assume(a0 > 0);
        if (ndim >= 2) vc_assume(a1 > 0 && b1 < pi);
        for (int d = 0; d < ndim; ++d) vc_assert("face areas are positive", g.ds(AT(c), d) > 0);
        vc_assert("volumes are positive", g.dv(AT(c)) > 0);
        vc_cover("spherical");
    }
    // splitting a cell splits its measure
    double m0 = vc_choose("m0", a0, b0), m1 = vc_choose("m1", a1, b1), m2 = vc_choose("m2", a2, b2);
    vc_eq("volumes add up (direction 0)", volume(a0, m0, a1, b1, a2, b2) + volume(m0, b0, a1, b1, a2, b2), g.dv(AT(c)));
    if (ndim > 1) vc_eq("volumes add up (direction 1)", volume(a0, b0, a1, m1, a2, b2) + volume(a0, b0, m1, b1, a2, b2), g.dv(AT(c)));
    if (ndim > 2) vc_eq("volumes add up (direction 2)", volume(a0, b0, a1, b1, a2, m2) + volume(a0, b0, a1, b1, m2, b2), g.dv(AT(c)));
}
