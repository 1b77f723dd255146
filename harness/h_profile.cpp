// C33: the initial state of the shipped problem setups: complete, function of the position only, the documented profile
#include <hydro_common.hpp>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <range.cpp>
#include <eos.hpp>
#include <perfect_gas.cpp>
#include <rad_gas.cpp>
#include <grid_type.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <boundary.cpp>
#include <default_user_step.hpp>
#define STR1(s) #s
#define STR(s) STR1(s)
#define FILE_OF(s) STR(setups/s/setup.hpp)
#include FILE_OF(SETUP)
#define CAT1(a, b) a##b
#define CAT(a, b) CAT1(a, b)
using namespace hclpp;

// the messages of a broadcast: what the first process sent, for every process
namespace {
bool is_root = false, sending = false;
int nth = 0;
double message[16] = {};
}
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    vc_assert("broadcasts of a setup are made by every process of the grid, from its first process", root == 0 && t == MPI_DOUBLE && c == vcmpi::comm_cart);
    vc_assert("broadcasts of a setup are short", n + nth <= 16);
    double* const p = static_cast<double*>(d);
    for (int k = 0; k < n; ++k) {
        if (sending) message[nth] = p[k];
#ifndef VC_NATIVE
        else if (is_root) vc_assume(p[k] == message[nth]); // the first process of another decomposition of the run
#endif
        p[k] = message[nth];
        nth = nth + 1;
    }
    return 0;
}

namespace {
// a field of gravity known by global cell
struct Field
{
    long o[3];
    double operator()(int i, int j, int k, int dir) const noexcept { return vc_f("g", i + o[0], j + o[1], k + o[2], dir); }
};
// the global mesh, ghosts included
struct Mesh
{
    long n[3];
    KV_double_1d x[3], c[3], dx[3];
    KV_double_4d ds;
    KV_double_3d dv;
    Mesh(long a, long b, long d)
        : n {a, b, d}
        , x {vc_in<KV_double_1d>("global x0", 8, a + 1), vc_in<KV_double_1d>("global x1", 8, b + 1), vc_in<KV_double_1d>("global x2", 8, d + 1)}
        , c {vc_in<KV_double_1d>("global x0_center", 1, a), vc_in<KV_double_1d>("global x1_center", 1, b), vc_in<KV_double_1d>("global x2_center", 1, d)}
        , dx {vc_in<KV_double_1d>("global dx0", 1, a), vc_in<KV_double_1d>("global dx1", 1, b), vc_in<KV_double_1d>("global dx2", 1, d)}
        , ds(vc_in<KV_double_4d>("global ds", 2, a, b, d, 3))
        , dv(vc_in<KV_double_3d>("global dv", 1, a, b, d))
    {
#ifdef VC_NATIVE
        // replays: a node at one
        double const s = 1 - x[0](vc_int("node at one", 0, a));
        for (int i = 0; i <= a; ++i) x[0](i) += s;
#endif
    }
};
using Win = Kokkos::pair<int, int>;
// one process: its part of the mesh
struct Process
{
    AnyGrid ag;
    long lo[3];
    KV_double_3d rho, P;
    KV_double_4d u, fx;
    Process(Box const& b, Mesh const& m, long const (&glob)[3], long nfx)
        : ag(b)
        , rho(vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]))
        , P(vc_in<KV_double_3d>("P", 0, b.n[0], b.n[1], b.n[2]))
        , u(vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim))
        , fx(vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], nfx))
    {
        Grid& g = ag.grid;
        bool first = true;
        Win w[3];
        for (int d = 0; d < 3; ++d) {
            lo[d] = b.range.Corner_min[d];
            g.Nx_glob_ng[d] = static_cast<int>(glob[d]);
            first = first & (lo[d] == 0);
            w[d] = Win {static_cast<int>(lo[d]), static_cast<int>(lo[d] + b.n[d])};
        }
        g.mpi_rank = first ? 0 : static_cast<int>(vc_int("rank", 1, 1000000)); // the ranks are in the order of the coordinates
        g.x0 = Kokkos::subview(m.x[0], Win {w[0].first, w[0].second + 1});
        g.x1 = Kokkos::subview(m.x[1], Win {w[1].first, w[1].second + 1});
        g.x2 = Kokkos::subview(m.x[2], Win {w[2].first, w[2].second + 1});
        g.x0_center = Kokkos::subview(m.c[0], w[0]);
        g.x1_center = Kokkos::subview(m.c[1], w[1]);
        g.x2_center = Kokkos::subview(m.c[2], w[2]);
        g.dx0 = Kokkos::subview(m.dx[0], w[0]);
        g.dx1 = Kokkos::subview(m.dx[1], w[1]);
        g.dx2 = Kokkos::subview(m.dx[2], w[2]);
        g.dv = Kokkos::subview(m.dv, w[0], w[1], w[2]);
        g.ds = Kokkos::subview(m.ds, w[0], w[1], w[2], Kokkos::ALL);
    }
    template <class E, class PS> void run(E const& eos, PS const& ps, bool send = false)
    {
        is_root = ag.grid.mpi_rank == 0;
        sending = send;
        nth = 0;
        Field const g {lo[0], lo[1], lo[2]};
        InitializationSetup<Field> const init(eos, ps, g);
        init.execute(ag.grid.range.no_ghosts(), ag.grid, rho, u, P, fx);
    }
};
// the part of a process; of the first one, or around a cell
Box window(char const* which, long ng, long const (&glob)[3], bool first, long const* around)
{
    long N[3], lo[3], hi[3], tot[3];
    for (int d = 0; d < 3; ++d) {
        lo[d] = d < ndim && !first ? vc_int(which, 0, around ? around[d] : glob[d] - 1) : 0;
        hi[d] = d < ndim ? vc_int(which, around ? around[d] + 1 : lo[d] + 1, glob[d]) : 1;
        N[d] = hi[d] - lo[d];
        tot[d] = N[d] + (d < ndim ? 2 * ng : 0);
    }
    return Box {{tot[0], tot[1], tot[2]}, {N[0], N[1], N[2]}, ng, Range(Box::cm(lo), Box::cm(hi), static_cast<int>(ng))};
}
// a cell of the run: where it is
struct Here
{
    double x[3], c[3], dv, g[3]; // lower faces, centre, volume, gravity
    double dv_first; // volume of the first cell of the run
    bool first, middle; // first along the first direction, the middle of the other directions (counted as the setup does, with ghosts)
};
struct State { double rho, u[3], P, fx; };
// the documented profiles
template <class PS, class E> void want_advection_gap(PS const& p, E const&, Here const& h, State const& s)
{
    vc_eq("advection of a gap: the gap lies between 0.3 and 0.7", s.rho, h.c[0] > 0.3 && h.c[0] < 0.7 ? p.rho1 : p.rho0);
    for (int d = 0; d < ndim; ++d) vc_eq("advection of a gap: uniform velocity", s.u[d], p.u0);
    vc_eq("advection of a gap: uniform pressure", s.P, p.P0);
}
template <class PS, class E> void want_advection_sinus(PS const& p, E const&, Here const& h, State const& s)
{
    vc_eq("advection of a sine: density", s.rho, 1 + 0.1 * std::sin(2 * Kokkos::numbers::pi * h.c[0]));
    vc_le("advection of a sine: the density is positive", 0.9, s.rho);
    for (int d = 0; d < ndim; ++d) vc_eq("advection of a sine: uniform velocity", s.u[d], p.u0);
    vc_eq("advection of a sine: uniform pressure", s.P, p.P0);
}
template <class PS, class E> void want_shock_tube(PS const& p, E const&, Here const& h, State const& s)
{
    bool const left = h.c[0] <= p.inter;
    vc_eq("shock tube: density of the side of the interface", s.rho, left ? p.rho0 : p.rho1);
    vc_eq("shock tube: pressure of the side of the interface", s.P, left ? p.P0 : p.P1);
    for (int d = 0; d < ndim; ++d) vc_eq("shock tube: velocity of the side of the interface", s.u[d], left ? p.u0 : p.u1);
}
template <class PS, class E> void want_shock_wall(PS const& p, E const&, Here const&, State const& s)
{
    vc_eq("shock against a wall: uniform density", s.rho, p.rho0);
    vc_eq("shock against a wall: uniform pressure", s.P, p.P0);
    for (int d = 0; d < ndim; ++d) vc_eq("shock against a wall: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_implosion_test(PS const& p, E const&, Here const& h, State const& s)
{
    bool const out = h.c[0] + h.c[1] > 0.15;
    vc_eq("implosion: density of the side of the diagonal", s.rho, out ? p.rho0 : p.rho1);
    vc_eq("implosion: pressure of the side of the diagonal", s.P, out ? p.P0 : p.P1);
    for (int d = 0; d < ndim; ++d) vc_eq("implosion: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_eq_hydro_sphe(PS const& p, E const& eos, Here const& h, State const& s)
{
    double const scale = units::kb * p.T0 / (eos.mean_molecular_weight() * units::mp * units::G * p.M);
    vc_eq("hydrostatic sphere: isothermal profile of density", s.rho, p.rho0 * std::exp(1 / (h.c[0] * scale)));
    vc_eq("hydrostatic sphere: uniform temperature", s.P, eos.compute_pres_from_temp(s.rho, p.T0));
    for (int d = 0; d < ndim; ++d) vc_eq("hydrostatic sphere: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_stratified_atm(PS const& p, E const& eos, Here const& h, State const& s)
{
    double const scale = units::kb * p.T0 / (eos.mean_molecular_weight() * units::mp * std::fabs(h.g[0]));
    vc_eq("stratified atmosphere: isothermal profile of density", s.rho, p.rho0 * std::exp(-h.c[0] / scale));
    vc_eq("stratified atmosphere: uniform temperature", s.P, eos.compute_pres_from_temp(s.rho, p.T0));
    for (int d = 0; d < ndim; ++d) vc_eq("stratified atmosphere: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_heat_nickel(PS const& p, E const& eos, Here const&, State const& s)
{
    vc_eq("nickel heating: uniform density", s.rho, p.rho0);
    vc_eq("nickel heating: uniform temperature", s.P, eos.compute_pres_from_temp(p.rho0, p.T0));
    vc_eq("nickel heating: uniform composition", s.fx, p.fx0);
    for (int d = 0; d < ndim; ++d) vc_eq("nickel heating: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_kelvin_helmholtz(PS const& p, E const&, Here const& h, State const& s)
{
    double const x = h.c[0], y = h.c[1];
    double const shape = std::tanh((y - 0.5) / 0.05) - std::tanh((y - 1.5) / 0.05);
    vc_eq("Kelvin-Helmholtz: density of the layers", s.rho, 1 + shape);
    vc_eq("Kelvin-Helmholtz: shear of the layers", s.u[0], shape);
    vc_eq("Kelvin-Helmholtz: seeded across both interfaces", s.u[1], 0.01 * std::sin(Kokkos::numbers::pi * x) * (std::exp(-(y - 0.5) * (y - 0.5) / (0.2 * 0.2)) + std::exp(-(y - 1.5) * (y - 1.5) / (0.2 * 0.2))));
    vc_eq("Kelvin-Helmholtz: uniform pressure", s.P, p.P0);
}
template <class PS, class E> void want_gresho_vortex(PS const& p, E const& eos, Here const& h, State const& s)
{
    double const x = h.c[0], y = h.c[1], r = std::sqrt(x * x + y * y), r2 = x * x + y * y;
    double const P0 = 1 / (eos.adiabatic_index() * p.Ma * p.Ma);
    double const theta = std::atan2(y, x);
#ifndef VC_NATIVE
    vc_assume(std::sin(theta) * r == y && std::cos(theta) * r == x); // the angle of a point
#endif
    vc_eq("Gresho vortex: uniform density", s.rho, p.rho0);
    if (r < 0.4) {
        double const v = r < 0.2 ? 5 * r : 2 - 5 * r;
        vc_eq("Gresho vortex: the flow turns around the centre (first component)", s.u[0] * r, -v * y);
        vc_eq("Gresho vortex: the flow turns around the centre (second component)", s.u[1] * r, v * x);
        vc_eq("Gresho vortex: the pressure balances the rotation", s.P, r < 0.2 ? P0 + 12.5 * r2 : P0 + 12.5 * r2 + 4 - 20 * r + 4 * std::log(5 * r));
    } else {
        for (int d = 0; d < ndim; ++d) vc_eq("Gresho vortex: velocity outside", s.u[d], p.u0);
        vc_eq("Gresho vortex: pressure outside", s.P, P0 - 2 + 4 * Kokkos::numbers::ln2);
    }
}
template <class PS, class E> void want_rayleigh_taylor(PS const& p, E const&, Here const& h, State const& s)
{
    double const y = h.c[1], front = 0.01 * std::cos(4 * Kokkos::numbers::pi * h.c[0]);
    double const up = (1 + std::tanh((y - front) / 0.005)) / 2;
    vc_eq("Rayleigh-Taylor: density, from rho1 below the interface to rho0 above", s.rho, up * p.rho0 + (1 - up) * p.rho1);
    vc_eq("Rayleigh-Taylor: composition, from fx1 below the interface to fx0 above", s.fx, up * p.fx0 + (1 - up) * p.fx1);
    vc_eq("Rayleigh-Taylor: hydrostatic pressure", s.P, 10. / 7 + 1. / 4 - p.rho0 * std::fabs(h.g[1]) * y);
    for (int d = 0; d < ndim; ++d) vc_eq("Rayleigh-Taylor: uniform velocity", s.u[d], p.u);
}
template <class PS, class E> void want_rayleigh_taylor3d(PS const& p, E const&, Here const& h, State const& s)
{
    double const P0 = 2 * units::pi * (p.rho0 + p.rho1) * std::fabs(h.g[2]) * 10, gamma = 5. / 3;
    vc_assert("Rayleigh-Taylor in 3D: the composition tells the two fluids apart", s.fx == 0 || s.fx == 1);
    double const r = s.fx == 1 ? p.rho0 : p.rho1;
    vc_eq("Rayleigh-Taylor in 3D: adiabatic profile of density of each fluid", s.rho, r * std::pow(1 - (gamma - 1) / gamma * (r * std::fabs(h.g[2]) * h.x[2]) / P0, 1 / (gamma - 1)));
    vc_eq("Rayleigh-Taylor in 3D: each fluid is isentropic", s.P, P0 * std::pow(s.rho / r, gamma));
    for (int d = 0; d < ndim; ++d) vc_eq("Rayleigh-Taylor in 3D: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_sedov1d(PS const& p, E const& eos, Here const& h, State const& s)
{
    double const share = geom == Geometry::Geom_cartesian ? 0.5 : 1.;
    vc_eq("Sedov in 1D: uniform density", s.rho, p.rho0);
    vc_eq("Sedov in 1D: the energy of the explosion is in the first cell of the run", s.P, eos.compute_pres_from_temp(p.rho0, eos.compute_temp_from_evol(p.rho0, (h.first ? share * p.E1 : p.E0) / h.dv_first)));
    for (int d = 0; d < ndim; ++d) vc_eq("Sedov in 1D: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_sedov2d(PS const& p, E const& eos, Here const& h, State const& s)
{
    double const r = std::sqrt(h.x[0] * h.x[0] + h.x[1] * h.x[1]);
    vc_eq("Sedov in 2D: uniform density", s.rho, p.rho0);
    vc_eq("Sedov in 2D: the energy of the explosion is near the origin", s.P, eos.compute_pres_from_evol(p.rho0, (r < 0.025 ? p.E1 : p.E0) / h.dv));
    for (int d = 0; d < ndim; ++d) vc_eq("Sedov in 2D: uniform velocity", s.u[d], p.u0);
}
template <class PS, class E> void want_sedov3d(PS const& p, E const& eos, Here const& h, State const& s)
{
    vc_eq("Sedov in 3D: uniform density", s.rho, p.rho0);
    vc_eq("Sedov in 3D: the energy of the explosion is in one cell", s.P, h.x[0] == 1 && h.middle ? eos.compute_pres_from_evol(p.rho0, p.E1 / h.dv) : p.P0);
    for (int d = 0; d < ndim; ++d) vc_eq("Sedov in 3D: no velocity", s.u[d], 0);
}
State at(Process const& p, long const (&l)[3], long nfx)
{
    State s;
    s.rho = p.rho(l[0], l[1], l[2]);
    for (int d = 0; d < ndim; ++d) s.u[d] = p.u(l[0], l[1], l[2], d);
    s.P = p.P(l[0], l[1], l[2]);
    s.fx = nfx > 0 ? p.fx(l[0], l[1], l[2], 0) : 0;
    return s;
}
} // namespace

#if defined(BC)
VC_HARNESS
{
    // the user-defined boundary of a setup at rest: the profile of the initial state, in the ghost layers of its face and nowhere else
    vc_opt("div", 0);
    AnyGrid ag(make_box(1));
    Box const& b = ag.b;
    auto const rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]), E = vc_in<KV_double_3d>("E", 1, b.n[0], b.n[1], b.n[2]);
    auto const rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim), fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], 0L);
    union U { ParamSetup p; U() {} ~U() {} } ps;
    double* const w = reinterpret_cast<double*>(&ps);
    for (unsigned k = 0; k < sizeof(ParamSetup) / sizeof(double); ++k) w[k] = vc_pos("parameter");
    ps.p.u0 = 0;
    EOS const eos(1.4, 1.);
    Cell const c = any_cell(b);
    long const x[3] = {AT(c)};
    Field const g {0, 0, 0};
    Here h;
    h.x[0] = ag.grid.x0(c.i); h.c[0] = ag.grid.x0_center(c.i);
    for (int d = 0; d < 3; ++d) h.g[d] = g(c.i, c.j, c.k, d);
    for (int dim = 0; dim < ndim; ++dim)
        for (int face = 0; face < 2; ++face)
            if (vc_bool("this face")) {
                BoundarySetup<Field> const bc(dim, face, eos, ps.p);
                bc.execute(ag.grid, g, rho, rhou, E, fx);
                vc_cover("after the boundary");
                ag.unchanged();
                if (face == 0 ? x[dim] < b.ng : x[dim] >= b.n[dim] - b.ng) {
                    vc_cover("a ghost cell of the face");
                    State s {rho(AT(c)), {}, 0, 0};
                    for (int d = 0; d < ndim; ++d) s.u[d] = rhou(AT(c), d) / rho(AT(c));
                    s.P = eos.compute_pres_from_evol(s.rho, E(AT(c)));
                    vc_assert("user-defined boundary: the density is positive", s.rho > 0);
                    CAT(want_, SETUP)(ps.p, eos, h, s);
                } else {
                    vc_cover("another cell");
                    vc_eq("user-defined boundary: other cells keep their density", rho(AT(c)), vc_old(rho, AT(c)));
                    vc_eq("user-defined boundary: other cells keep their energy", E(AT(c)), vc_old(E, AT(c)));
                    for (int d = 0; d < ndim; ++d) vc_eq("user-defined boundary: other cells keep their momentum", rhou(AT(c), d), vc_old(rhou, AT(c), d));
                }
                return;
            }
}
#else
VC_HARNESS
{
    vc_opt("div", 0);
    long const NF = NFX;
    long glob[3];
    for (int d = 0; d < 3; ++d) glob[d] = d < ndim ? vc_int("cells of the run", 1, 100000) : 1;
    long const ng = vc_int("Nghost", 1, 1000);
    long ext[3];
    for (int d = 0; d < 3; ++d) ext[d] = glob[d] + (d < ndim ? 2 * ng : 0);
    Mesh const mesh(ext[0], ext[1], ext[2]);
    union U { ParamSetup p; U() {} ~U() {} } ps;
    double* const w = reinterpret_cast<double*>(&ps);
    for (unsigned k = 0; k < sizeof(ParamSetup) / sizeof(double); ++k) w[k] = vc_pos("parameter");
    EOS const eos(1.4, 1.);
    // the first process of the run, whose messages the others receive
    Process first(window("part of the first process", ng, glob, true, nullptr), mesh, glob, NF);
    first.run(eos, ps.p, true);
    Process a(window("part of the mesh", ng, glob, false, nullptr), mesh, glob, NF);
    a.run(eos, ps.p);
    vc_cover("after the initialisation");
#ifndef VC_NATIVE
    a.ag.unchanged();
#endif
    // any cell: of this process, and of the run
    Box const& b = a.ag.b;
    if (vc_bool("a ghost cell")) {
        Cell const c = any_cell(b);
        vc_assume(!in_range(b, c, 0));
        vc_cover("a ghost cell");
        vc_eq("initial state: ghost cells are left alone (density)", a.rho(AT(c)), vc_old(a.rho, AT(c)));
        vc_eq("initial state: ghost cells are left alone (pressure)", a.P(AT(c)), vc_old(a.P, AT(c)));
        for (int d = 0; d < ndim; ++d) vc_eq("initial state: ghost cells are left alone (velocity)", a.u(AT(c), d), vc_old(a.u, AT(c), d));
        if (NF > 0) vc_eq("initial state: ghost cells are left alone (scalars)", a.fx(AT(c), 0), vc_old(a.fx, AT(c), 0));
        return;
    }
    long l[3];
    for (int d = 0; d < 3; ++d) l[d] = d < ndim ? vc_int("interior cell", ng, b.n[d] - ng - 1) : 0;
    State const s = at(a, l, NF);
    Here h;
    long g[3];
    for (int d = 0; d < 3; ++d) {
        g[d] = l[d] + a.lo[d];
        h.x[d] = mesh.x[d](g[d]);
        h.c[d] = mesh.c[d](g[d]);
        h.g[d] = vc_f("g", g[0], g[1], g[2], 0);
    }
    for (int d = 0; d < 3; ++d) h.g[d] = vc_f("g", g[0], g[1], g[2], d);
    h.dv = mesh.dv(g[0], g[1], g[2]);
    h.first = g[0] == ng;
    h.dv_first = mesh.dv(ng, 0, 0);
    h.middle = g[1] == glob[1] / 2 && g[2] == glob[2] / 2;
    CAT(want_, SETUP)(ps.p, eos, h, s);
    // another process, or the same cell before
    long inner[3];
    for (int d = 0; d < 3; ++d) inner[d] = d < ndim ? g[d] - ng : 0;
    Process q(window("part of another process", ng, glob, false, inner), mesh, glob, NF);
    long m[3];
    for (int d = 0; d < 3; ++d) {
        m[d] = g[d] - q.lo[d];
    }
    q.run(eos, ps.p);
    vc_cover("after the initialisation of another process");
    State const t = at(q, m, NF);
    vc_eq("initial state: the density is the same whichever process owns the cell", s.rho, t.rho);
    vc_eq("initial state: the pressure is the same whichever process owns the cell", s.P, t.P);
    for (int d = 0; d < ndim; ++d) vc_eq("initial state: the velocity is the same whichever process owns the cell", s.u[d], t.u[d]);
    if (NF > 0) vc_eq("initial state: the scalars are the same whichever process owns the cell", s.fx, t.fx);
}
#endif
