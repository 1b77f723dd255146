// C30: radioactive heating adds exactly the deposited energy
#include <contracts.hpp>
#include <memory>
#include <range.cpp>
#include <user_step.cpp>
#include <user_step_factory.cpp>
using namespace hclpp;
#ifdef VC_NATIVE
#define VC_ROUND 1
#else
#define VC_ROUND 0
#endif
VC_HARNESS
{
    Box b = make_box(0);
    long const g = vc_int("ghosts", 0, b.ng);
    long const nfx = vc_int("nfx", 1, 1000);
    double const t = vc_real("t"), dt = vc_real("dt");
    Range const range = b.range.with_ghosts(static_cast<int>(g));
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    auto fx = vc_in<KV_double_4d>("fx", 4, b.n[0], b.n[1], b.n[2], nfx);
    if (vc_bool("off")) {
        factory_user_step("Off")->execute(range, t, dt, rho, E, fx);
        vc_same("the default user step does not modify the density", rho);
        vc_same("the default user step does not modify the scalars", fx);
        vc_same("the default user step does not modify the energy", E);
        vc_cover("off");
        return;
    }
    factory_user_step("Heat_nickel")->execute(range, t, dt, rho, E, fx);
    vc_same("the density is not modified", rho);
    vc_same("the scalars are not modified", fx);
    Cell c = any_cell(b);
    if (!in_range(b, c, g)) {
        vc_eq("energy outside the range is not written", E(AT(c)), vc_old(E, AT(c)));
        vc_cover("outside");
        return;
    }
    // 56Ni -> 56Co -> 56Fe with mean lives of 8.8 and 111.3 days and 1.75 and 3.73 MeV per decay, for one nickel atom of 55.9421278 u at t = 0:
    // number of Ni: exp(-t/a); number of Co: b / (b - a) (exp(-t/b) - exp(-t/a)); rate = Q1 n1 / a + Q2 n2 / b per atom mass
    double const a = 8.8 * units::day, bb = 111.3 * units::day, Q1 = 1.75 * units::MeV, Q2 = 3.73 * units::MeV, m = 55.9421278 * units::atomic_mass_unit;
    vc_assert("a day", units::day == 86400.);
    vc_assert("a mega electron volt", units::MeV > 1.602176e-13 && units::MeV < 1.602178e-13);
    vc_assert("an atomic mass unit", units::atomic_mass_unit > 1.66053e-27 && units::atomic_mass_unit < 1.66055e-27);
    double const n1 = Kokkos::exp(-t / a), n2 = bb / (bb - a) * (Kokkos::exp(-t / bb) - Kokkos::exp(-t / a));
    double const rate = (Q1 * n1 / a + Q2 * n2 / bb) / m;
    double const mass = vc_old(rho, AT(c)) * vc_old(fx, AT(c), 0);
    // the constants of the code are rounded products: agreement to 1e-9 of the size of the terms
    double const gain = E(AT(c)) - vc_old(E, AT(c));
    double const e1 = Kokkos::exp(-t / a), e2 = Kokkos::exp(-t / bb);
    double const size = mass * (dt < 0 ? -dt : dt) / m * (e1 * (Q1 / a + Q2 / (bb - a)) + e2 * Q2 / (bb - a));
    double const tol = 1e-9 * size + VC_ROUND * (1e-13 * std::fabs(E(AT(c))));
    vc_assert("energy gain = heated mass times specific rate times time step", gain - mass * rate * dt <= tol && mass * rate * dt - gain <= tol);
    vc_cover("heated");
}
