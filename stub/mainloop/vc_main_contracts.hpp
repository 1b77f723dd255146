// contracts of the operators called by the main loop: which values they are given, in which order they produce new ones.
// The content of an array is followed through the value it holds in one cell (the probe): every operator gives new arbitrary values to what it writes.
#pragma once
#include <vc.h>
#include <concepts>
#include <memory>
#include <string>
#include <type_traits>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <range.hpp>
#include <eos.hpp>
#include <user_step.hpp>
#include <shift_criterion_interface.hpp>
#include <initialization_interface.hpp>
#include <dual_view.hpp>
#include <boundary.hpp>
#include <param.hpp>
#include <utility>
#include <vector>
// contract of the list of outputs: the elements in the order of their insertion
template <> class std::vector<std::pair<int, double>>
{
    static constexpr unsigned long room = 6;
    std::pair<int, double> m_e[room] = {};
    unsigned long m_n = 0;

public:
    using value_type = std::pair<int, double>;
    using size_type = unsigned long;
    using iterator = value_type*;
    using const_iterator = value_type const*;
    vector() = default;
    unsigned long size() const { return m_n; }
    bool empty() const { return m_n == 0; }
    void reserve(unsigned long) {}
    void clear() { m_n = 0; }
    value_type& emplace_back(int i, double t)
    {
        vc_assert("no more outputs than followed", m_n < room);
        for (unsigned long k = 0; k < room; ++k) if (k == m_n) { m_e[k].first = i; m_e[k].second = t; }
        m_n = m_n + 1;
        return m_e[0];
    }
    void push_back(value_type const& v) { emplace_back(v.first, v.second); }
    void pop_back() { m_n = m_n - 1; }
    int vc_iter(unsigned long i) const { int r = 0; for (unsigned long k = 0; k < room; ++k) if (k == i) r = m_e[k].first; return r; }
    double vc_time(unsigned long i) const { double r = 0; for (unsigned long k = 0; k < room; ++k) if (k == i) r = m_e[k].second; return r; }
    value_type operator[](unsigned long i) const { return {vc_iter(i), vc_time(i)}; }
    value_type at(unsigned long i) const { return (*this)[i]; }
    value_type back() const { return (*this)[m_n - 1]; }
    value_type front() const { return (*this)[0]; }
    iterator begin() { return m_e; }
    iterator end() { return m_e + m_n; }
    const_iterator begin() const { return m_e; }
    const_iterator end() const { return m_e + m_n; }
};
class INIReader;
namespace vcm {
struct State { double rho = 0, rhou = 0, E = 0, fx = 0; };
// claims checked: the time loop (C23) or the state handed from one operator to the next (C32)
inline bool time_claims = false, state_claims = false, wiring_claims = false;
inline hclpp::Param const* param = nullptr; // the parameters of the run
inline int user_made = 0; // user-defined components that were made: 1 source step, 2 mesh, 4 shift criterion
inline void wired(char const* what, bool c) { if (wiring_claims) vc_assert(what, c); }
template <class EoS> inline void configured(EoS const& e) { if (wiring_claims) vc_assert("the equation of state is the configured gas", e.adiabatic_index() == param->gamma && e.mean_molecular_weight() == param->mu); }
inline State init, cur, next; // initial primitive state (rho, u, P, fx), state of the current step, state being built
inline double u = 0, P = 0, T = 0; // primitives and temperature of the current state
inline bool prim_valid = false, ghosts = false, T_valid = false;
inline double rec[6] = {};
inline double g_token = 0, g_rho = 0; // the last gravity built and the density it was built from
inline int nshift = 0, g_shift = 0;
inline int nfx = 0;
inline bool criterion = false; // answer of the shift criterion
inline bool pressure_fix_due = false, user_step_due = false;
inline int last_stage = 0; // 4 once the first step has begun
inline int stage = 0; // of the step: 1 interface states, 2 fluxes, 3 pressure fix, 4 user step, 5 boundary conditions
void on_time_step(double dt);
void on_half_step(double dt);
void on_full_step(char const* what, double dt);
void on_user_step(double t, double dt);
double invalid_energy();
void boundary(int kind, int dim, int face);
inline bool checked = false, refused = false; // the internal energy of the current state was checked, and found invalid
inline void state(char const* what, bool c) { if (state_claims) vc_assert(what, c); }
template <class V> inline double at(V const& v)
{
    constexpr int r = V::rank;
    if constexpr (r == 1) return v(0);
    else if constexpr (r == 3) return v(0, 0, 0);
    else if constexpr (r == 4) return v(0, 0, 0, 0);
    else if constexpr (r == 5) return v(0, 0, 0, 0, 0);
    else return v(0, 0, 0, 0, 0, 0);
}
template <class V> inline void put(V const& v, double x)
{
    constexpr int r = V::rank;
    if constexpr (r == 1) v(0) = x;
    else if constexpr (r == 3) v(0, 0, 0) = x;
    else if constexpr (r == 4) v(0, 0, 0, 0) = x;
    else if constexpr (r == 5) v(0, 0, 0, 0, 0) = x;
    else v(0, 0, 0, 0, 0, 0) = x;
}
inline double fresh() { return vc_real("content"); }
template <class R, class U, class E_, class F> inline bool holds(State const& s, R const& rho, U const& rhou, E_ const& E, F const& fx)
{
    return at(rho) == s.rho && at(rhou) == s.rhou && at(E) == s.E && (nfx == 0 || at(fx) == s.fx);
}
template <class R, class U, class E_, class F> inline void fill(State& s, R const& rho, U const& rhou, E_ const& E, F const& fx)
{
    s.rho = fresh(); s.rhou = fresh(); s.E = fresh();
    put(rho, s.rho); put(rhou, s.rhou); put(E, s.E);
    if (nfx > 0) { s.fx = fresh(); put(fx, s.fx); }
}
inline bool covers(hclpp::Range const& r, hclpp::Grid const& g, int ng)
{
    auto const c = hclpp::cell_range(r), w = hclpp::cell_range(g.range.with_ghosts(ng));
    bool ok = true;
    for (int d = 0; d < 3; ++d) ok = ok && c[0][d] <= w[0][d] && c[1][d] >= w[1][d];
    return ok;
}
inline hclpp::Grid const* grid = nullptr;
} // namespace vcm
namespace hclpp {
// ---- gravity
struct GravityContract
{
    double token = 0;
    double operator()(int, int, int, int) const noexcept { return token; }
};
struct UniformGravity : GravityContract {};
struct PointMassGravity : GravityContract {};
struct InternalMassGravity : GravityContract {};
inline void vc_gravity(GravityContract& g) { g.token = vcm::g_token = vcm::fresh(); vcm::g_shift = vcm::nshift; }
inline auto make_uniform_gravity(double gx0, double gx1, double gx2) -> UniformGravity { vcm::wired("the gravity field is the configured one", gx0 == vcm::param->gx0 && gx1 == vcm::param->gx1 && gx2 == vcm::param->gx2); UniformGravity g; vc_gravity(g); return g; }
inline auto make_point_mass_gravity(double M, Grid const& grid) -> PointMassGravity { vcm::wired("the gravity field is the configured one", M == vcm::param->M && &grid == vcm::grid); PointMassGravity g; vc_gravity(g); return g; }
inline auto make_internal_mass_gravity(double M, Grid const& grid, KV_cdouble_3d const& rho) -> InternalMassGravity { vcm::wired("the gravity field is the configured one", M == vcm::param->M && &grid == vcm::grid); InternalMassGravity g; vc_gravity(g); vcm::g_rho = vcm::at(rho); return g; }
template <class G> inline void vc_gravity_current(G const& g, double rho)
{
    if constexpr (!std::is_same_v<G, UniformGravity>) {
        vcm::state("gravity: the field in use is the last one built", g.token == vcm::g_token);
        vcm::state("gravity: the field in use belongs to the current mesh", vcm::g_shift == vcm::nshift);
    }
    if constexpr (std::is_same_v<G, InternalMassGravity>) vcm::state("gravity: the field of the internal mass is the one of the current density", vcm::g_rho == rho);
}
// ---- conversions
template <class EoS> inline void conv_prim_to_cons(Range const& range, EoS const& eos, KV_cdouble_3d const& rho, KV_cdouble_4d const& u, KV_cdouble_3d const& P, KV_double_4d const& rhou, KV_double_3d const& E)
{
    vcm::configured(eos);
    vcm::state("initial state: the conserved variables are computed from the initial density, velocity and pressure in every cell", vcm::at(rho) == vcm::init.rho && vcm::at(u) == vcm::init.rhou && vcm::at(P) == vcm::init.E && vcm::covers(range, *vcm::grid, 0));
    vcm::next.rho = vcm::init.rho; vcm::next.fx = vcm::init.fx;
    vcm::next.rhou = vcm::fresh(); vcm::next.E = vcm::fresh();
    vcm::put(rhou, vcm::next.rhou); vcm::put(E, vcm::next.E);
    vcm::ghosts = false;
    vcm::prim_valid = false;
}
template <class EoS> inline void conv_cons_to_prim(Range const& range, EoS const& eos, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_double_4d const& u, KV_double_3d const& P)
{
    vcm::configured(eos);
    vcm::state("primitive variables are computed from the new state, boundary conditions applied, in every cell and ghost cell",
               vcm::at(rho) == vcm::next.rho && vcm::at(rhou) == vcm::next.rhou && vcm::at(E) == vcm::next.E && vcm::ghosts && vcm::stage == vcm::last_stage && vcm::covers(range, *vcm::grid, vcm::grid->Ng));
    vcm::u = vcm::fresh(); vcm::P = vcm::fresh();
    vcm::put(u, vcm::u); vcm::put(P, vcm::P);
    vcm::prim_valid = true;
    vcm::T_valid = false;
}
// ---- analysis
inline auto integrate(Range const&, Grid const&, KV_cdouble_3d const&) -> double { return vc_real("integral"); }
inline auto minimum_internal_energy(Range const& range, Grid const&, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E) -> double
{
    vcm::state("the internal energy of the current state is checked in every cell", vcm::at(rho) == vcm::next.rho && vcm::at(rhou) == vcm::next.rhou && vcm::at(E) == vcm::next.E && vcm::covers(range, *vcm::grid, 0));
    return vcm::invalid_energy();
}
template <class EoS> inline void temperature(Range const&, EoS const& eos, KV_cdouble_3d const& rho, KV_cdouble_3d const& P, KV_double_3d const& T)
{
    vcm::configured(eos);
    vcm::state("the temperature is computed from the current density and pressure", vcm::prim_valid && vcm::at(rho) == vcm::next.rho && vcm::at(P) == vcm::P);
    vcm::T = vcm::fresh();
    vcm::put(T, vcm::T);
    vcm::T_valid = true;
}
template <class EoS> inline auto time_step(Range const& range, EoS const& eos, Grid const&, KV_cdouble_3d const& rho, KV_cdouble_4d const& u, KV_cdouble_3d const& P) -> double
{
    vcm::configured(eos);
    vcm::state("the time step is computed from the current density, velocity and pressure, in every cell", vcm::prim_valid && vcm::ghosts && vcm::at(rho) == vcm::next.rho && vcm::at(u) == vcm::u && vcm::at(P) == vcm::P && vcm::covers(range, *vcm::grid, 0));
    vcm::cur = vcm::next;
    vcm::stage = 0;
    vcm::last_stage = 4;
    double const dt = vc_pos("stable time step");
    vcm::on_time_step(dt);
    return dt;
}
// ---- the step
class IFaceReconstruction { public: virtual ~IFaceReconstruction() = default; };
inline auto factory_face_reconstruction(std::string const& s) -> std::unique_ptr<IFaceReconstruction> { vcm::wired("the slope limiter is the configured one", s == vcm::param->reconstruction_type); return std::make_unique<IFaceReconstruction>(); }
template <class Gravity> class IExtrapolationReconstruction { public: virtual ~IExtrapolationReconstruction() = default; };
template <class EoS, class Gravity> class HancockExtrapolationReconstruction : public IExtrapolationReconstruction<Gravity> { public: explicit HancockExtrapolationReconstruction(EoS const& eos) { vcm::configured(eos); } };
template <class Gravity> class IHydroReconstruction
{
public:
    virtual ~IHydroReconstruction() = default;
    virtual void execute(Range const& range, Grid const& grid, Gravity const& gravity, double dt, KV_cdouble_3d const& rho, KV_cdouble_4d const& u, KV_cdouble_3d const& P, KV_cdouble_4d const& fx, KV_double_5d const& rho_rec, KV_double_6d const& rhou_rec, KV_double_5d const& E_rec, KV_double_6d const& fx_rec) const = 0;
};
template <class EoS, class Gravity> class MUSCLHancockHydroReconstruction : public IHydroReconstruction<Gravity>
{
public:
    MUSCLHancockHydroReconstruction(std::unique_ptr<IFaceReconstruction>, std::unique_ptr<IExtrapolationReconstruction<Gravity>>, EoS const&, KV_double_5d const&, KV_double_6d const&) {}
    void execute(Range const& range, Grid const& grid, Gravity const& gravity, double dt, KV_cdouble_3d const& rho, KV_cdouble_4d const& u, KV_cdouble_3d const& P, KV_cdouble_4d const& fx, KV_double_5d const& rho_rec, KV_double_6d const& rhou_rec, KV_double_5d const& E_rec, KV_double_6d const& fx_rec) const final
    {
        vcm::state("a step is made only from a state whose internal energy is checked to be a number that is not negative", vcm::checked && !vcm::refused);
        vcm::checked = false;
        vcm::on_half_step(dt);
        vcm::state("interface states are reconstructed from the current density, velocity, pressure and scalars, in every cell and one ghost layer",
                   vcm::prim_valid && vcm::ghosts && vcm::at(rho) == vcm::cur.rho && vcm::at(u) == vcm::u && vcm::at(P) == vcm::P && (vcm::nfx == 0 || vcm::at(fx) == vcm::cur.fx) && vcm::covers(range, grid, 1));
        vc_gravity_current(gravity, vcm::cur.rho);
        for (int k = 0; k < 4; ++k) vcm::rec[k] = vcm::fresh();
        vcm::put(rho_rec, vcm::rec[0]); vcm::put(rhou_rec, vcm::rec[1]); vcm::put(E_rec, vcm::rec[2]);
        if (vcm::nfx > 0) vcm::put(fx_rec, vcm::rec[3]);
        vcm::stage = 1;
    }
};
inline bool vc_recs(KV_cdouble_5d const& rho_rec, KV_cdouble_6d const& rhou_rec, KV_cdouble_5d const& E_rec) { return vcm::at(rho_rec) == vcm::rec[0] && vcm::at(rhou_rec) == vcm::rec[1] && vcm::at(E_rec) == vcm::rec[2]; }
template <class Gravity> class IGodunovScheme
{
public:
    virtual ~IGodunovScheme() = default;
    virtual void execute(Range const& range, Grid const& grid, Gravity const& gravity, double dt, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx, KV_cdouble_5d const& rho_rec, KV_cdouble_6d const& rhou_rec, KV_cdouble_5d const& E_rec, KV_cdouble_6d const& fx_rec,
                         KV_double_3d const& rho_new, KV_double_4d const& rhou_new, KV_double_3d const& E_new, KV_double_4d const& fx_new) const = 0;
};
template <class Gravity> class GodunovContract : public IGodunovScheme<Gravity>
{
public:
    void execute(Range const& range, Grid const& grid, Gravity const& gravity, double dt, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx, KV_cdouble_5d const& rho_rec, KV_cdouble_6d const& rhou_rec, KV_cdouble_5d const& E_rec, KV_cdouble_6d const& fx_rec,
                 KV_double_3d const& rho_new, KV_double_4d const& rhou_new, KV_double_3d const& E_new, KV_double_4d const& fx_new) const final
    {
        vcm::on_full_step("the fluxes are applied for the whole step", dt);
        vcm::state("the fluxes update the current state, in every cell", vcm::stage == 1 && vcm::holds(vcm::cur, rho, rhou, E, fx) && vcm::covers(range, grid, 0));
        vcm::state("the fluxes are those of the reconstructed interface states", vc_recs(rho_rec, rhou_rec, E_rec) && (vcm::nfx == 0 || vcm::at(fx_rec) == vcm::rec[3]));
        vc_gravity_current(gravity, vcm::cur.rho);
        vcm::fill(vcm::next, rho_new, rhou_new, E_new, fx_new);
        vcm::prim_valid = false; vcm::ghosts = false; vcm::T_valid = false;
        vcm::stage = 2;
    }
};
template <class EoS, class Gravity> inline auto factory_godunov_scheme(std::string const& s, EoS const& eos) -> std::unique_ptr<IGodunovScheme<Gravity>> { vcm::wired("the Riemann solver is the configured one", s == vcm::param->riemann_solver); vcm::configured(eos); return std::make_unique<GodunovContract<Gravity>>(); }
template <class EoS> inline void pressure_fix(Range const& range, EoS const& eos, Grid const& grid, double dt, double eps, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_5d const& rho_rec, KV_cdouble_6d const& rhou_rec, KV_cdouble_5d const& E_rec, KV_double_3d const& rho_new, KV_double_4d const& rhou_new, KV_double_3d const& E_new)
{
    vcm::configured(eos);
    vcm::wired("the threshold of the pressure fix is the configured one", eps == vcm::param->eps_pf);
    vcm::on_full_step("the pressure fix is applied for the whole step", dt);
    vcm::state("the pressure fix corrects the updated energy from the current state, in every cell", vcm::pressure_fix_due && vcm::stage == 2 && vcm::at(rho) == vcm::cur.rho && vcm::at(rhou) == vcm::cur.rhou && vcm::at(E) == vcm::cur.E && vc_recs(rho_rec, rhou_rec, E_rec)
                       && vcm::at(rho_new) == vcm::next.rho && vcm::at(rhou_new) == vcm::next.rhou && vcm::at(E_new) == vcm::next.E && vcm::covers(range, grid, 0));
    vcm::next.E = vcm::fresh();
    vcm::put(E_new, vcm::next.E);
    vcm::ghosts = false;
    vcm::stage = 3;
}
class UserStepContract : public IUserStep
{
public:
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        vcm::on_user_step(t, dt);
        vcm::state("the source step acts on the updated state, in every cell", vcm::stage == (vcm::pressure_fix_due ? 3 : 2) && vcm::at(rho) == vcm::next.rho && vcm::at(E) == vcm::next.E && (vcm::nfx == 0 || vcm::at(fx) == vcm::next.fx) && vcm::covers(range, *vcm::grid, 0));
        vcm::next.E = vcm::fresh();
        vcm::put(E, vcm::next.E);
        vcm::ghosts = false;
        vcm::stage = 4;
    }
};
inline IUserStep::IUserStep() = default;
inline IUserStep::~IUserStep() noexcept = default;
inline auto factory_user_step(std::string const& s) -> std::unique_ptr<IUserStep> { vcm::wired("the source step is the configured one", s == vcm::param->user_step && s != "UserDefined"); return std::make_unique<UserStepContract>(); }
inline void shift_grid(KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx, KV_double_3d const& rho_new, KV_double_4d const& rhou_new, KV_double_3d const& E_new, KV_double_4d const& fx_new, KDV_double_1d const&, KDV_double_1d const&, KDV_double_1d const&, Grid&)
{
    vcm::state("the mesh is shifted with the new state, boundary conditions applied", vcm::ghosts && vcm::holds(vcm::next, rho, rhou, E, fx));
    vcm::fill(vcm::next, rho_new, rhou_new, E_new, fx_new);
    vcm::ghosts = false; vcm::prim_valid = false;
    vcm::nshift = vcm::nshift + 1;
    vcm::stage = 4;
}
// ---- setup
class ParamSetup { public: explicit ParamSetup(INIReader const&) {} };
template <class Gravity> class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const& eos, ParamSetup const&, Gravity const&) { vcm::configured(eos); }
    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) const final
    {
        vcm::state("the problem is initialised in every cell", vcm::covers(range, grid, 0));
        vcm::fill(vcm::init, rho, u, P, fx);
    }
};
class GridSetup : public IGridType
{
public:
    explicit GridSetup(Param const& p) { vcm::wired("the mesh of the setup is used when configured", p.grid_type == "UserDefined"); }
    void execute(std::array<int, 3>, std::array<int, 3>, KVH_double_1d const&, KVH_double_1d const&, KVH_double_1d const&) const final {}
};
template <class Gravity> class BoundarySetup : public IBoundaryCondition<Gravity>
{
public:
    BoundarySetup(int idim, int iface, EOS const& eos, ParamSetup const&) : IBoundaryCondition<Gravity>(idim, iface) { vcm::configured(eos); }
    void execute(Grid const&, Gravity const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) const final { vcm::boundary(3, this->bc_idim(), this->bc_iface()); }
};
class UserStep : public UserStepContract { public: UserStep() { vcm::wired("the source step of the setup is used when configured", vcm::param->user_step == "UserDefined"); } };
class UserShiftCriterion : public IShiftCriterion
{
public:
    explicit UserShiftCriterion(ParamSetup const&) { vcm::wired("the shift criterion of the setup is used when configured", vcm::param->shift_grid == "UserDefined"); }
    auto execute(Range const&, Grid const&, KV_cdouble_3d const& rho, KV_cdouble_4d const& rhou, KV_cdouble_3d const& E, KV_cdouble_4d const& fx) const -> bool final
    {
        vcm::state("the shift of the mesh is decided from the new state", vcm::holds(vcm::next, rho, rhou, E, fx));
        return vcm::criterion;
    }
};
// ---- output on the console
template <class... A> inline void print_info(A const&...) {}
} // namespace hclpp
