// C26: a configured name selects the implementation of that name; any other text is refused.
#include <hydro_common.hpp>
#include <memory>
#include <stdexcept>
#include <string>
#include <range.cpp>
#include <eos.hpp>
#include <perfect_gas.cpp>
#include <rad_gas.cpp>
#include <boundary.cpp>
#include <boundary_factory.hpp>
#include <face_reconstruction.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <godunov_scheme.hpp>
#include <any_param.hpp>
#include <grid_type.cpp>
#include <grid_factory.cpp>
#include <user_step.cpp>
#include <user_step_factory.cpp>
using namespace hclpp;
namespace {
template <class D, class B>
bool is(std::unique_ptr<B> const& p) { return dynamic_cast<D const*>(p.get()) != nullptr; }
// the side a boundary condition is built for (where the class tells it)
template <class B>
struct Side : B
{
    template <class T>
    static constexpr bool told() { return requires { &T::bc_idim; &T::bc_iface; }; }
    template <class T = Side>
    static bool is(B const& b, int dim, int face)
    {
        if constexpr (told<T>()) return (b.*&T::bc_idim)() == dim && (b.*&T::bc_iface)() == face;
        else return true;
    }
};
// every text s: known tells whether it is a name; made(p) whether the object is the one that is named
template <class Make, class Known, class Made>
void check(char const* refused, char const* named, char const* reachable, std::string const& s, Make make, Known known, Made made)
{
    bool thrown = false;
    try {
        auto const p = make(s);
        vc_assert(named, p != nullptr && made(p));
        vc_cover(reachable);
    } catch (std::runtime_error const&) { thrown = true; }
    vc_assert(refused, thrown == !known());
}
} // namespace
VC_HARNESS
{
    std::string s;
    vc_string(&s, "name");
    {
        auto const make = [](std::string const& n) { return factory_face_reconstruction(n); };
        auto const known = [&] { return s == "Constant" || s == "VanLeer" || s == "Minmod" || s == "VanAlbada"; };
        check("exactly the known slope limiters are accepted", "the slope limiter is the one that is named", "limiter", s, make, known, [&](auto const& p) {
            return (s == "Constant" && is<LimitedLinearReconstruction<Constant>>(p)) || (s == "VanLeer" && is<LimitedLinearReconstruction<VanLeer>>(p))
                   || (s == "Minmod" && is<LimitedLinearReconstruction<Minmod>>(p)) || (s == "VanAlbada" && is<LimitedLinearReconstruction<VanAlbada>>(p));
        });
    }
    {
        EOS const eos(1.4, 1.);
        auto const make = [&](std::string const& n) { return factory_godunov_scheme<EOS, AbsGravity>(n, eos); };
        auto const known = [&] { return s == "HLL" || s == "HLLC" || s == "Low Mach"; };
        check("exactly the known Riemann solvers are accepted", "the Riemann solver is the one that is named", "solver", s, make, known, [&](auto const& p) {
            return (s == "HLL" && is<RiemannBasedGodunovScheme<HLL, AbsGravity, EOS>>(p)) || (s == "HLLC" && is<RiemannBasedGodunovScheme<HLLC, AbsGravity, EOS>>(p))
                   || (s == "Low Mach" && is<RiemannBasedGodunovScheme<Splitting, AbsGravity, EOS>>(p));
        });
    }
    for (int dim = 0; dim < ndim; ++dim)
        for (int face = 0; face < 2; ++face) {
            auto const make = [&](std::string const& n) { return factory_boundary_construction<AbsGravity>(n, dim, face); };
            auto const known = [&] { return s == "NullGradient" || s == "Periodic" || s == "Reflexive"; };
            check("exactly the known boundary conditions are accepted", "the boundary condition is the one that is named", "boundary", s, make, known, [&](auto const& p) {
                vc_assert("the boundary condition is built for the requested side", s == "Periodic" || Side<IBoundaryCondition<AbsGravity>>::is(*p, dim, face));
                return (s == "NullGradient" && is<NullGradient<AbsGravity>>(p)) || (s == "Periodic" && is<PeriodicCondition<AbsGravity>>(p)) || (s == "Reflexive" && is<ReflexiveCondition<AbsGravity>>(p));
            });
        }
    {
        AnyParam ap;
        ap.p.x0min = 0; ap.p.x0max = 1; ap.p.x1min = 0; ap.p.x1max = 1; ap.p.x2min = 0; ap.p.x2max = 1;
        auto const make = [&](std::string const& n) { return factory_grid_type(n, ap.p); };
        check("exactly the known grid types are accepted", "the grid type is the one that is named", "grid type", s, make, [&] { return s == "Regular"; }, [&](auto const& p) { return is<Regular>(p); });
    }
    {
        auto const make = [](std::string const& n) { return factory_user_step(n); };
        check("exactly the known user steps are accepted", "the user step is the one that is named", "user step", s, make, [&] { return s == "Off" || s == "Heat_nickel"; },
              [&](auto const& p) { return (s == "Off" && is<NoUserStep>(p)) || (s == "Heat_nickel" && is<HeatNickelStep>(p)); });
    }
    {
        auto const p = factory_grid_geometry();
        vc_assert("the geometry is the one that was configured", geom == Geometry::Geom_cartesian ? is<Cartesian>(p) : is<Spherical>(p));
    }
}
