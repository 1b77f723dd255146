// C22, C23, C26, C32: the main loop of the program, its operators replaced by their contracts
// stubs: mainloop io
// The state before a step (time, iteration, output counters) is arbitrary: it comes from a restart file whose content satisfies
// the invariant; the invariant is shown to hold again after one step, the second step makes every part of the state visible.
#include <contracts.hpp>
#include <mpi_contract.hpp>
#include <new>
#include <stdexcept>
#include <vector>
#include <chrono>
#include <vc_main_contracts.hpp>
#include <range.cpp>
#include <eos.hpp>
#include <perfect_gas.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <git_version.hpp>
#ifndef RESTART
#define RESTART 1
#endif
#ifndef FREQ
#define FREQ 3
#endif
#ifndef SHIFT
#define SHIFT 0
#endif
#ifndef PFIX
#define PFIX 0
#endif
#ifndef CLAIMS
#define CLAIMS 1
#endif
#ifndef BCF // side whose boundary condition is followed
#define BCF -1
#endif
#define MY_SETUP "contract"
#define HAS_ITER ((FREQ) & 1)
#define HAS_TIME ((FREQ) & 2)
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
#include <mpi_scope_guard.cpp>
namespace vcm {
// boundary conditions of the followed side: of the mesh, of its direction, of the side itself
std::string bc_all, bc_direction, bc_side;
bool has_direction, has_side;
constexpr char const* direction_key[3] = {"BC_X0", "BC_X1", "BC_X2"};
constexpr char const* side_key[6] = {"BC_X0_left", "BC_X0_right", "BC_X1_left", "BC_X1_right", "BC_X2_left", "BC_X2_right"};
// names of the other components
std::string reconstruction, solver, user, mesh, shift, out_directory, out_prefix, in_file;
int made[3][2];
bool made_others;
void boundary(int kind, int dim, int face)
{
    if (dim < 0 || dim > 2 || face < 0 || face > 1) made_others = true;
    else made[dim][face] = made[dim][face] * 10 + kind;
}
int expected()
{
    std::string const& v = has_side ? bc_side : has_direction ? bc_direction : bc_all;
    return v == "Periodic" ? 0 : v == "NullGradient" ? 1 : v == "Reflexive" ? 2 : v == "UserDefined" ? 3 : -1;
}
} // namespace vcm
namespace vcm {
struct Cut {};
// parameters of the run
double t_ini, t_end, cfl, tfreq, tfirst;
int max_iter, ifreq;
// the state of the loop according to its specification
double t, dt, dt0;
int iter, oid, iid, tid;
// the current step
int nstep = 0, nout = 0, ninit = 0, nxml = 0, nlight = 0;
bool saving = false, invalid = false, out_due = false, exit_due = false, halved = false, stepped = false, sourced = false, decided = false;
long started, clock_now, hours; // readings of the clock: the last one before the loop, the last one; hours allotted
void read_clock(long c)
{
    clock_now = c;
    if (nstep == 0) started = c;
}
void claim(char const* what, bool c) { if (time_claims) vc_assert(what, c); }
void claim_eq(char const* what, double a, double b) { if (time_claims) vc_eq(what, a, b); }
int next_iter_output() { return (iid + 1) * ifreq; }
double next_time_output() { return tfirst + (tid + 1) * tfreq; }
#ifdef VC_NATIVE
double const tiny = 1e-7; // rounding of t + (t_out - t)
#else
double const tiny = 0;
#endif
bool invariant()
{
    return t < t_end && iter < max_iter && iter >= 0 && (!HAS_ITER || (iter < next_iter_output() && iter >= iid * ifreq)) && (!HAS_TIME || (t < next_time_output() && (tid < 0 || t + tiny >= tfirst + tid * tfreq))) && oid >= -1 && iid >= -1 && tid >= -1;
}
// the decisions of a step are known once the stable time step and the wall clock are
void decide()
{
    if (decided) return;
    decided = true;
    bool const lands = HAS_TIME && t + dt0 >= next_time_output() && next_time_output() <= t_end;
    bool const last = t + dt0 >= t_end && !(HAS_TIME && next_time_output() < t_end);
    dt = lands ? next_time_output() - t : (t + dt0 >= t_end ? t_end - t : dt0);
    claim_eq("the step is the largest one that is stable and passes neither the final time nor the next output time", dt, last ? t_end - t : lands ? next_time_output() - t : dt0);
    bool const it_out = HAS_ITER && iter + 1 >= next_iter_output();
    bool const ends = (t + dt0 >= t_end && !lands) || (lands && next_time_output() >= t_end);
    exit_due = ends || iter + 1 >= max_iter || saving;
    out_due = it_out || lands || exit_due;
    if (it_out) iid = iid + 1;
    if (lands) tid = tid + 1;
}
// end of a step according to the specification
void close_step()
{
    if (!stepped) return;
    stepped = false;
    claim("one output is written in a step that calls for it, none in another one", nout == (out_due ? 1 : 0) && nxml == nout);
    claim("interface states are reconstructed and the fluxes applied once in a step", halved && sourced);
    t = t + dt;
    iter = iter + 1;
    if (!exit_due) claim("the counters of the outputs remain ahead of the time and of the iteration", invariant());
}
void on_time_step(double d)
{
#if BCF >= 0
    bool ok = expected() >= 0 && !made_others;
    for (int d = 0; d < 3; ++d)
        for (int f = 0; f < 2; ++f) ok = ok && made[d][f] == (2 * d + f == BCF ? expected() : 0);
    vc_assert("every side has the boundary condition of its own key, or of its direction, or of the mesh", ok);
    vc_cover("boundary");
#ifdef VC_NATIVE
    throw Cut {};
#else
    vc_assume(false);
#endif
#endif
    close_step();
    nstep = nstep + 1;
    if (nstep == 1) claim("the counters of the outputs are ahead of the time and of the iteration when the loop starts", invariant());
    claim("the loop goes on only if neither the final time, nor the last iteration, nor the end of the allotted time is reached", !exit_due);
    if (nstep > 2) {
#ifdef VC_NATIVE
        throw Cut {};
#else
        vc_assume(false);
#endif
    }
    dt0 = cfl * d;
    nout = 0; nxml = 0;
    saving = false; halved = false; sourced = false; decided = false;
    stepped = true;
}
void on_half_step(double h)
{
    decide();
    claim("the step is positive and not larger than the stable one", dt > 0 && dt <= dt0 + tiny);
    claim("the step does not pass the final time", t + dt <= t_end + tiny);
    claim_eq("interface states are evolved by half the step", 2 * h, dt);
    halved = true;
}
void on_full_step(char const* what, double d) { decide(); claim_eq(what, d, dt); }
void on_user_step(double t_, double d)
{
    decide();
    claim_eq("the source step is given the current time", t_, t);
    claim_eq("the source step is applied for the whole step", d, dt);
    sourced = true;
}
double invalid_energy()
{
    double const e = vc_real("minimum internal energy");
    invalid = e < 0;
    if (vc_bool("the minimum internal energy is not a number")) {
        invalid = true;
        checked = refused = true;
        return __builtin_nan("");
    }
    checked = true;
    refused = invalid;
    return e;
}
} // namespace vcm
int MPI_Bcast(void* d, int n, MPI_Datatype ty, int root, MPI_Comm c)
{
    vc_assert("the decision to save is taken by one process for all", root == 0 && n == 1 && ty == MPI_CXX_BOOL && c == vcmpi::comm_cart);
    if (vcm::grid->mpi_rank == 0) vcm::claim("the run is saved and ended when the allotted time has passed since the start of the loop", *static_cast<bool*>(d) == (vcm::clock_now - vcm::started >= vcm::hours * 3600000000000L));
    if (vcm::grid->mpi_rank != 0) *static_cast<bool*>(d) = vc_bool("decision of the first process");
    vcm::saving = *static_cast<bool*>(d);
    return 0;
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    long const c = vc_int("clock", 0, 4000000000000000000);
    vcm::read_clock(c);
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(c));
}
INIReader::INIReader() {}
INIReader::INIReader(std::string const&) {}
std::string INIReader::Get(std::string const& section, std::string const& name, std::string const& def) const
{
    using namespace vcm;
#if BCF >= 0
    vc_assert("boundary conditions are read in their section", section == "Boundary Condition");
    if (name == side_key[BCF]) return has_side ? bc_side : def;
    if (name == direction_key[BCF / 2]) return has_direction ? bc_direction : def;
    bool known = false;
    for (int k = 0; k < 6; ++k) known = known || name == side_key[k];
    for (int k = 0; k < 3; ++k) known = known || name == direction_key[k];
    vc_assert("the keys of the boundary conditions are the documented ones", known);
    return "Periodic";
#else
    return "Reflexive";
#endif
}
#if BCF >= 0
#define null_gradient_condition null_gradient_kernel
#define reflexive_condition reflexive_kernel
#include <boundary.cpp>
#undef null_gradient_condition
#undef reflexive_condition
#endif
#define main vc_program
#include <main.cpp>
#undef main
namespace hclpp {
std::string_view const git_build_string("build"), git_branch("branch"), compile_date("date"), compile_time("time");
void null_gradient_condition(int d, int f, std::string const&, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) { vcm::boundary(1, d, f); }
void reflexive_condition(int d, int f, std::string const&, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) { vcm::boundary(2, d, f); }
#if BCF < 0
auto bc_dir(int) -> std::string_view { return "_X"; }
auto bc_face(int) -> std::string_view { return "_left"; }
#endif
Param::Param(INIReader const&)
    : problem(""), restart(RESTART), restart_file("file"), grid_type("UserDefined"), directory("d"), prefix("p"), reconstruction_type("r"), riemann_solver("s"), bc_choice("b"), bc_priority("o"), user_step("u"), pressure_fix(PFIX ? "On" : "Off"), shift_grid(SHIFT ? "UserDefined" : "NoShift")
{
    for (int d = 0; d < 3; ++d) { Nx_glob_ng[d] = d < ndim ? 8 : 1; mpi_dims_cart[d] = 1; }
    Ng = 2;
    t_ini = vcm::t_ini; t_end = vcm::t_end; cfl = vcm::cfl; max_iter = vcm::max_iter; iter_output_frequency = vcm::ifreq; time_output_frequency = vcm::tfreq; time_first_output = vcm::tfirst;
    time_job = static_cast<int>(vc_int("allotted hours", 0, 100000));
    vcm::hours = time_job;
    gamma = 1.4; mu = 1; nfx = vcm::nfx; mpi_device_aware = false; eps_pf = 0; M = 1; gx0 = gx1 = gx2 = 0;
    vcm::param = this;
    if (vcm::wiring_claims) {
        gamma = 1 + vc_pos("gamma"); mu = vc_pos("mu"); eps_pf = vc_real("eps_pf"); M = vc_real("M"); gx0 = vc_real("gx0"); gx1 = vc_real("gx1"); gx2 = vc_real("gx2");
        bc_choice = vcm::bc_all;
#if BCF < 0
        reconstruction_type = vcm::reconstruction; riemann_solver = vcm::solver; user_step = vcm::user; grid_type = vcm::mesh;
        directory = vcm::out_directory; prefix = vcm::out_prefix; restart_file = vcm::in_file;
#endif
    }
    rmax_shift = SHIFT == 2 ? 0.5 : 2;
}
Param::Param(Param const&) = default;
Param::~Param() noexcept = default;
Grid::Grid(std::array<int, 3> const& nx, std::array<int, 3> const& dims, int ng)
{
    vcm::wired("the grid has the configured cells, processes and ghost layers", nx == vcm::param->Nx_glob_ng && dims == vcm::param->mpi_dims_cart && ng == vcm::param->Ng);
    vcm::grid = this;
    Ng = ng;
    for (int d = 0; d < 3; ++d) {
        Nghost[d] = d < ndim ? ng : 0;
        Nx_glob_ng[d] = nx[d]; Nx_local_ng[d] = nx[d]; Nx_local_wg[d] = nx[d] + 2 * Nghost[d];
        mpi_rank_cart[d] = 0; mpi_dims_cart[d] = 1;
        is_border[d][0] = is_border[d][1] = BCF >= 0 && d < ndim;
    }
    range = Range({0, Nx_local_ng[0]}, {0, Nx_local_ng[1]}, {0, Nx_local_ng[2]}, ng);
    comm_cart = vcmpi::comm_cart; comm_cart_horizontal = vcmpi::comm_horizontal;
    mpi_rank = vc_bool("first process") ? 0 : 1;
    mpi_size = 2;
}
Grid::~Grid() noexcept {}
void Grid::print_grid(std::ostream&) const {}
void Grid::set_grid(KV_cdouble_1d const&, KV_cdouble_1d const&, KV_cdouble_1d const&) { vcm::ninit = vcm::ninit + 1; }
IGridType::IGridType() = default;
IGridType::~IGridType() noexcept = default;
namespace {
class NamedGrid : public IGridType
{
public:
    void execute(std::array<int, 3>, std::array<int, 3>, KVH_double_1d const&, KVH_double_1d const&, KVH_double_1d const&) const final {}
};
}
auto factory_grid_type(std::string const& n, Param const& p) -> std::unique_ptr<IGridType>
{
    vcm::wired("the mesh is the configured one", n == p.grid_type && n != "UserDefined");
    return std::make_unique<NamedGrid>(); }
DistributedBoundaryCondition::DistributedBoundaryCondition(Grid const&, Param const& p) : m_param(p) { for (int k = 0; k < nfaces; ++k) m_bc_order[k] = k; }
void DistributedBoundaryCondition::ghost_sync(Grid const&, std::vector<KV_double_3d> const& v, int d, int f) const
{
    vcm::State& s = vcm::next;
    if (d == 0 && f == 0)
        vcm::state("boundary conditions are applied to the new state", v[0](0, 0, 0) == s.rho && v[1](0, 0, 0) == s.rhou && v[1 + ndim](0, 0, 0) == s.E && (vcm::nfx == 0 || v[2 + ndim](0, 0, 0) == s.fx));
    if (d == ndim - 1 && f == 1) {
        s.rho = vcm::fresh(); s.rhou = vcm::fresh(); s.E = vcm::fresh();
        v[0](0, 0, 0) = s.rho; v[1](0, 0, 0) = s.rhou; v[1 + ndim](0, 0, 0) = s.E;
        if (vcm::nfx > 0) { s.fx = vcm::fresh(); v[2 + ndim](0, 0, 0) = s.fx; }
        vcm::ghosts = true;
    }
}
void write_pdi_init(Grid const&, Param const&) {}
void print_simulation_status(std::ostream&, int, double, double, int) {}
void read_pdi(std::string const& file, int& output_id, int& iter_output_id, int& time_output_id, int& iter, double& t, KDV_double_3d const& rho, KDV_double_4d const& u, KDV_double_3d const& P, KDV_double_4d const& fx, KDV_double_1d const& x0, KDV_double_1d const&, KDV_double_1d const&)
{
    vcm::claim("a restart file is read when asked for", RESTART != 0);
    vcm::wired("the restart file is the configured one", file == vcm::param->restart_file);
    output_id = vcm::oid; iter_output_id = vcm::iid; time_output_id = vcm::tid; iter = vcm::iter; t = vcm::t;
    vcm::fill(vcm::init, rho(host), u(host), P(host), fx(host));
    x0(host)(11) = 1;
}
void vc_written(KDV_cdouble_3d const& rho, KDV_cdouble_4d const& u, KDV_cdouble_3d const& P, KDV_cdouble_3d const& E, KDV_cdouble_4d const& fx, KDV_cdouble_3d const& T)
{
    vcm::state("the current state is written", vcm::at(rho(device, read_only)) == vcm::next.rho && vcm::at(E(device, read_only)) == vcm::next.E && (vcm::nfx == 0 || vcm::at(fx(device, read_only)) == vcm::next.fx));
    vcm::state("the velocity, pressure and temperature written are those of the current state", vcm::prim_valid && vcm::T_valid && vcm::at(u(device, read_only)) == vcm::u && vcm::at(P(device, read_only)) == vcm::P && vcm::at(T(device, read_only)) == vcm::T);
}
void write_pdi(std::string const& out, std::string const& name, int output_id, int iter_output_id, int time_output_id, int iter, double t, double gamma, Grid const&, KDV_cdouble_3d const& rho, KDV_cdouble_4d const& u, KDV_cdouble_3d const& P, KDV_cdouble_3d const& E, KDV_cdouble_1d const&, KDV_cdouble_1d const&, KDV_cdouble_1d const&, KDV_cdouble_4d const& fx, KDV_cdouble_3d const& T)
{
    using namespace vcm;
    oid = oid + 1;
    nout = nout + 1;
    wired("outputs go to the configured files, with the configured adiabatic index", out == param->directory && name == param->prefix && gamma == param->gamma);
    claim("outputs are numbered one after the other", output_id == oid);
    if (nstep == 0) {
        iid = iid + 1;
        claim("the initial state is written in a new run with outputs", !RESTART && FREQ != 0 && nout == 1);
        claim("the initial output is at the initial time", iter == vcm::iter);
        claim_eq("the initial output is at the initial time", t, vcm::t);
    } else if (halved) {
        decide();
        claim("an output of the loop bears the number of steps made", iter == vcm::iter + 1);
        claim_eq("an output of the loop bears the time reached", t, vcm::t + dt);
    } else {
        decide();
        claim("before a step only a state with an invalid energy is written", invalid);
        claim("an invalid state bears the current iteration", iter == vcm::iter);
        claim_eq("an invalid state bears the current time", t, vcm::t);
    }
    claim("the counter of the outputs by iteration is written", iter_output_id == iid);
    claim("the counter of the outputs by time is written", time_output_id == tid);
    vc_written(rho, u, P, E, fx, T);
}
XmlWriter::XmlWriter(std::string out, std::string name, int const nfx) { vcm::wired("the light data go to the configured files", out == vcm::param->directory && name == vcm::param->prefix); vcm::claim("the light data describe every scalar", nfx == vcm::nfx); }
void XmlWriter::operator()(Grid const&, int output_id, std::vector<std::pair<int, double>> const& rec, KDV_cdouble_1d const&, KDV_cdouble_1d const&, KDV_cdouble_1d const&) const
{
    using namespace vcm;
    nxml = nxml + 1;
    nlight = nlight + 1;
    claim("the light data describe the output being written", output_id == oid + 1);
    claim("the light data list every output of the run", static_cast<int>(rec.size()) == nlight);
    decide();
    claim("the light data end with the iteration of the output", rec.vc_iter(rec.size() - 1) == (nstep == 0 ? iter : iter + 1));
    claim_eq("the light data end with the time of the output", rec.vc_time(rec.size() - 1), nstep == 0 ? t : t + dt);
}
} // namespace hclpp
using namespace hclpp;
VC_HARNESS
{
    using namespace vcm;
    vc_opt("div", 0); // the final report divides by the elapsed time
    time_claims = CLAIMS == 1; state_claims = CLAIMS == 2; wiring_claims = CLAIMS == 3;
    nstep = nout = nxml = ninit = nlight = 0;
    checked = refused = false;
    started = clock_now = hours = 0;
    saving = invalid = out_due = exit_due = halved = stepped = sourced = false;
    decided = true;
    vcm::nfx = NFX;
    prim_valid = ghosts = T_valid = false;
    nshift = g_shift = stage = last_stage = 0;
    criterion = SHIFT != 0;
    pressure_fix_due = PFIX != 0;
    t_ini = vc_real("t_ini");
    t_end = vc_real("t_end");
    cfl = vc_choose("cfl", 0.001, 1);
    max_iter = static_cast<int>(vc_int("max_iter", 1, 1000000000));
    ifreq = HAS_ITER ? static_cast<int>(vc_int("iterations between outputs", 1, 30000)) : static_cast<int>(vc_int("no output by iteration", -5, 0));
    tfreq = HAS_TIME ? vc_pos("time between outputs") : 0;
    tfirst = vc_real("time of the first output");
    oid = iid = tid = -1;
    iter = 0;
    t = t_ini;
#if RESTART
    oid = static_cast<int>(vc_int("output", -1, 100000000));
    iid = static_cast<int>(vc_int("output by iteration", -1, 30000));
    tid = static_cast<int>(vc_int("output by time", -1, 30000));
    iter = static_cast<int>(vc_int("iteration", 0, 1000000000));
    t = vc_real("time");
#endif
#ifdef VC_NATIVE // states of the invariant, drawn directly
    ifreq = HAS_ITER ? 1 + ifreq % 5 : ifreq;
    if (RESTART) {
        iid = (iid + 1) % 20; tid = (tid + 1) % 20 - 1;
        if (HAS_ITER) iter = iid * ifreq + iter % ifreq;
        if (HAS_TIME) t = tfirst + (tid + vc_choose("fraction", 0, 0.99)) * tfreq;
    } else if (HAS_TIME) t = t_ini = tfirst - vc_choose("fraction", 0.01, 2) * tfreq;
    t_end = t + vc_pos("remaining time");
    max_iter = iter + 1 + max_iter % 4;
#endif
    vc_assume(t_ini < t_end);
    if (HAS_TIME) vc_assume(t_ini < tfirst);
#if RESTART
    vc_assume(invariant());
#else
    vc_assume(t < t_end);
#endif
#if CLAIMS == 3
    vc_string(&bc_all, "boundary condition");
#if BCF >= 0
    vc_string(&bc_direction, "boundary condition of the direction");
    vc_string(&bc_side, "boundary condition of the side");
    has_direction = vc_bool("a boundary condition is given for the direction");
    has_side = vc_bool("a boundary condition is given for the side");
#else
    vc_string(&reconstruction, "reconstruction");
    vc_string(&solver, "Riemann solver");
    vc_string(&user, "source step");
    vc_string(&mesh, "mesh");
    vc_string(&out_directory, "directory");
    vc_string(&out_prefix, "prefix");
    vc_string(&in_file, "restart file");
#endif
#endif
    for (int d = 0; d < 3; ++d) made[d][0] = made[d][1] = 0;
    made_others = false;
    char exe[] = "heracles", ini[] = "run.ini";
    char* argv[] = {exe, ini, nullptr};
    bool thrown = false;
    try {
        thrown = ::vc_program(2, argv) != 0;
    } catch (Cut const&) {
        return;
    }
#if BCF >= 0
    if (thrown && nstep == 0) {
        vc_assert("only an unknown or missing boundary condition is refused", expected() < 0);
        vc_cover("refused");
        return;
    }
    return;
#endif
    if (thrown) {
        claim("the run is interrupted only by an invalid energy, after the invalid state is written", invalid && nout == 1 && stepped && !halved);
        vc_cover("invalid energy");
    } else {
        close_step();
        claim("the run ends at the final time, at the last iteration or at the end of the allotted time", exit_due);
        claim("the run ends exactly at the final time unless another limit is reached", (t <= t_end + tiny && t + tiny >= t_end) || iter >= max_iter || saving);
        vc_cover("the run ends");
    }
}
