// C17: zero-gradient, reflexive and periodic boundaries: which cells are written, with what
// requires: at least as many interior cells as ghost layers in the reflexive direction
#include <hydro_common.hpp>
#include <memory>
#include <range.cpp>
#include <boundary_factory.hpp>
#include <boundary.cpp>
using namespace hclpp;
namespace {
template <int KIND>
void run(int dim, int face, char const* name, bool through_interface)
{
    Box b = make_box(0, 1000);
    AnyGrid ag(b);
    long const nf = vc_int("nfx", 0, 1000), ng = b.ng;
    if (KIND == 2) vc_assume(b.in[dim] >= ng);
    auto rho = vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]);
    auto rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    auto fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], nf);
    if (through_interface) {
        AbsGravity const g;
        std::unique_ptr<IBoundaryCondition<AbsGravity>> const bc = factory_boundary_construction<AbsGravity>(name, dim, face);
        bc->execute(ag.grid, g, rho, rhou, E, fx);
    } else {
        if (KIND == 1) null_gradient_condition(dim, face, name, ag.grid, rho, rhou, E, fx);
        if (KIND == 2) reflexive_condition(dim, face, name, ag.grid, rho, rhou, E, fx);
    }
    ag.unchanged();
    if (KIND == 0) {
        vc_same("a periodic boundary writes no density", rho);
        vc_same("a periodic boundary writes no momentum", rhou);
        vc_same("a periodic boundary writes no energy", E);
        vc_same("a periodic boundary writes no scalar", fx);
        vc_cover("periodic");
        return;
    }
    Cell const c = any_cell(b);
    long const x = dim == 0 ? c.i : dim == 1 ? c.j : c.k;
    bool const ghost = face == 0 ? x < ng : x >= b.n[dim] - ng;
    if (ghost) {
        long const wall = face == 0 ? ng : b.n[dim] - ng; // index of the first node on the wall
        long const y = KIND == 2 ? 2 * wall - 1 - x : face == 0 ? wall : wall - 1;
        long const s[3] = {dim == 0 ? y : c.i, dim == 1 ? y : c.j, dim == 2 ? y : c.k};
        vc_assert("the source is an interior cell of that direction", y >= ng && y < b.n[dim] - ng);
        vc_eq("density of a ghost cell", rho(AT(c)), vc_old(rho, s[0], s[1], s[2]));
        for (int d = 0; d < ndim; ++d) {
            double const v = vc_old(rhou, s[0], s[1], s[2], d);
            vc_eq("momentum of a ghost cell (only the normal one mirrored)", rhou(AT(c), d), KIND == 2 && d == dim ? -v : v);
        }
        vc_eq("energy of a ghost cell", E(AT(c)), vc_old(E, s[0], s[1], s[2]));
        if (nf > 0) {
            long const f = vc_int("f", 0, nf - 1);
            vc_eq("scalar of a ghost cell", fx(AT(c), f), vc_old(fx, s[0], s[1], s[2], f));
            vc_cover("ghost");
        }
    } else {
        vc_eq("density outside the ghost layer is not written", rho(AT(c)), vc_old(rho, AT(c)));
        for (int d = 0; d < ndim; ++d) vc_eq("momentum outside the ghost layer is not written", rhou(AT(c), d), vc_old(rhou, AT(c), d));
        vc_eq("energy outside the ghost layer is not written", E(AT(c)), vc_old(E, AT(c)));
        if (nf > 0) {
            long const f = vc_int("f", 0, nf - 1);
            vc_eq("scalars outside the ghost layer are not written", fx(AT(c), f), vc_old(fx, AT(c), f));
            vc_cover("not ghost");
        }
    }
}
}
VC_HARNESS
{
    for (int dim = 0; dim < ndim; ++dim) {
        for (int face = 0; face < 2; ++face) {
            run<0>(dim, face, "Periodic", true);
            run<1>(dim, face, "NullGradient", true);
            run<1>(dim, face, "a label", false);
            run<2>(dim, face, "Reflexive", true);
            run<2>(dim, face, "a label", false);
        }
    }
}
