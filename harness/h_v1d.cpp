// C31, C27: the setup that starts from a file of profiles, the release of HDF5 handles, the check of extents
// stubs: io pdi_spec
#include <any_param.hpp>
#include <hydro_common.hpp>
#include <memory>
#include <stdexcept>
#include <range.cpp>
#include <eos.hpp>
#include <perfect_gas.cpp>
#include <rad_gas.cpp>
#include <grid_type.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <boundary.cpp>
#include <broadcast.cpp>
#include <git_version.hpp>
#include <hdf5.h>
#include <pdi.h>
#include <vector>
#ifndef PART
#define PART 0
#endif
#ifndef NFX
#define NFX 1
#endif
#define WITH_FILE (PART == 7 || PART == 8)
using namespace hclpp;
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
namespace hclpp {
std::string_view const git_build_string("build"), git_branch("branch"), compile_date("date"), compile_time("time");
}
#if WITH_FILE
namespace vcpdi {
bool same(char const* a, char const* b)
{
    int k = 0;
    while (a[k] != 0 && a[k] == b[k]) ++k;
    return a[k] == b[k];
}
}
#include <pdi_spec.hpp>
#include <io.cpp>
#endif
namespace {
int nevents = 0;
// the root of the broadcast: its coordinate along the first direction, the one of this process, whether they are the same column of processes
int root_coord0 = -1, own_coord0 = -1;
}
namespace vcpdi {
void event(char const* e)
{
#if WITH_FILE
    if (same(e, "init_PDI")) return;
#endif
    nevents = nevents + 1;
}
void shared([[maybe_unused]] char const* name, [[maybe_unused]] void const* data, [[maybe_unused]] PDI_inout_t dir)
{
#if WITH_FILE
    if (data != nullptr) vcyaml::share(name, data, static_cast<int>(dir));
#endif
}
void done([[maybe_unused]] char const* e)
{
#if WITH_FILE
    vcyaml::event(e); // the transfers of the specification tree
#endif
}
}
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    vc_assert("a decision is broadcast to every process of the grid", root >= 0 && n == 1 && t == MPI_CXX_BOOL && c == vcmpi::comm_cart);
    // processes with the same coordinate along the first direction have the same number of cells along it (C18)
    if (root_coord0 != own_coord0) *static_cast<bool*>(d) = vc_bool("broadcast value");
    return 0;
}
int MPI_Cart_rank(MPI_Comm c, int const* coords, int* r)
{
    root_coord0 = coords[0];
    vc_assert("MPI: rank in the grid of processes", c == vcmpi::comm_cart);
    *r = static_cast<int>(vc_int("rank", 0, 1000000));
    return 0;
}
#include <setups/v1d/setup.hpp>
namespace {
// the datasets opened first have been found with these extents
[[maybe_unused]] bool found(int nth, long rank, long e0, long e1 = 0)
{
    int seen = 0;
    bool r = false;
    for (int s = 0; s < vch5::max_slots; ++s)
        if (vch5::kind[s] == vch5::SPACE) {
            seen = seen + 1;
            r = r || (seen == nth && vch5::rank_[s] == rank && vch5::ext[s][0] == static_cast<unsigned long long>(e0) && (rank < 2 || vch5::ext[s][1] == static_cast<unsigned long long>(e1)));
        }
    return r;
}
}
VC_HARNESS
{
    vch5::reset();
    nevents = 0;
    bool failed = false;
#if PART <= 2 || WITH_FILE
    AnyGrid ag(make_box(2));
    Grid& grid = ag.grid;
    [[maybe_unused]] Box const& b = ag.b;
    grid.mpi_rank = vc_bool("first process") ? 0 : 1;
    for (int d = 0; d < 3; ++d) {
        grid.Nx_glob_ng[d] = static_cast<int>(vc_int("number of cells", 1, 1000000));
        grid.mpi_rank_cart[d] = static_cast<int>(vc_int("coordinate of the process", 0, 100000));
        grid.mpi_dims_cart[d] = static_cast<int>(vc_int("processes", 1, 100000));
    }
#if WITH_FILE
    grid.Nx_glob_ng[0] = static_cast<int>(b.range.Corner_min[0] + b.in[0] + vc_int("cells after those of the process", 0, 100000));
#endif
    AnyParam ap;
    [[maybe_unused]] Param& p = ap.p;
    union U { ParamSetup p; U() {} ~U() {} } ps;
    new (&ps.p.init_filename) std::string;
    vc_string(&ps.p.init_filename, "initial state file");
    ps.p.vmax_shift = vc_real("velocity");
    ps.p.cell_shift = static_cast<int>(vc_int("cells", 0, 1000000));
#endif
#if PART == 0 || PART == 7 // initial state
    long const NF = NFX;
#ifdef VC_NATIVE
    for (long& x : vch5::hint) x = -1;
    if (vc_bool("the profiles have the extents of the grid")) {
        vch5::hint[0] = grid.Nx_glob_ng[0];
        vch5::hint[1] = NF;
        vch5::hint[2] = 0;
        vch5::no_failure = true;
    }
#endif
    auto const rho = vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]), P = vc_in<KV_double_3d>("P", 0, b.n[0], b.n[1], b.n[2]);
    auto const u = vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim), fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], NF);
#if PART == 7
    // the file: a profile for the whole mesh, of which the process has a part
    long const ng0 = grid.Nx_glob_ng[0], lo = b.range.Corner_min[0];
    vcyaml::reset();
    vcyaml::f_rho_1d = vc_in<KV_double_1d>("file rho_1d", 0, ng0); vcyaml::f_u_1d = vc_in<KV_double_1d>("file u_1d", 0, ng0); vcyaml::f_P_1d = vc_in<KV_double_1d>("file P_1d", 0, ng0);
    vcyaml::f_fx_1d = vc_in<KV_double_2d>("file fx_1d", 0, ng0, NF);
    p.nfx = NFX;
    write_pdi_init(grid, p);
#endif
    EOS const eos(1.4, 1.);
    InitializationSetup<AbsGravity> const init(eos, ps.p, AbsGravity {});
    try {
        init.execute(grid.range.no_ghosts(), grid, rho, u, P, fx);
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("every handle opened for the initial state is released, whether the reading succeeds or fails", vch5::balanced());
    vc_assert("a failed check of the initial state is reported, a successful one is followed by the reading", failed == (nevents == 0));
    long const N0 = grid.Nx_glob_ng[0];
    if (!failed) vc_assert("the initial state is read only if its profiles have the extents of the grid", found(1, 1, N0) && found(2, 1, N0) && found(3, 1, N0) && found(4, 2, NF, N0));
    ag.unchanged();
    if (failed) vc_cover("the reading fails"); else vc_cover("the reading succeeds");
#if PART == 7
    Cell const c = any_cell(b);
    long const x = c.i - b.ng + lo; // its place in the mesh
    if (!failed && in_range(b, c, 0)) {
        vc_cover("a cell of the initial state");
        vc_eq("initial state from profiles: density of the column", rho(AT(c)), vc_old(vcyaml::f_rho_1d, x));
        vc_eq("initial state from profiles: velocity of the column", u(AT(c), 0), vc_old(vcyaml::f_u_1d, x));
        for (int d = 1; d < ndim; ++d) vc_eq("initial state from profiles: no transverse velocity", u(AT(c), d), 0);
        vc_eq("initial state from profiles: pressure of the column", P(AT(c)), vc_old(vcyaml::f_P_1d, x));
        for (int f = 0; f < NF; ++f) vc_eq("initial state from profiles: scalars of the column", fx(AT(c), f), vc_old(vcyaml::f_fx_1d, x, f));
    }
#endif
#elif PART == 1 || PART == 8 // mesh
    std::array<int, 3> ng, nx;
    for (int d = 0; d < 3; ++d) { ng[d] = static_cast<int>(vc_int("ghost cells", 0, 5)); nx[d] = static_cast<int>(vc_int("cells", 1, 1000000)); }
    p.x1min = vc_real("x1min"); p.x1max = vc_real("x1max"); p.x2min = vc_real("x2min"); p.x2max = vc_real("x2max");
    vc_assume(p.x1min < p.x1max && p.x2min < p.x2max);
#if PART == 8
    // the file: the nodes of the mesh
    vcyaml::reset();
    for (int d = 0; d < 3; ++d) { nx[d] = grid.Nx_glob_ng[d]; ng[d] = grid.Nghost[d]; }
    p.nfx = NFX;
    write_pdi_init(grid, p);
    long const n0 = nx[0] + 2 * ng[0] + 1;
    vcyaml::f_x0 = vc_in<KV_double_1d>("file x0", 0, n0);
    vch5::given[0] = n0;
#else
    long const n0 = vc_int("nodes", 1, 1000000);
#endif
    KVH_double_1d const x0("x0", n0), x1("x1", nx[1] + 2 * ng[1] + 1), x2("x2", nx[2] + 2 * ng[2] + 1);
    GridSetup const setup(p);
    try {
        setup.execute(ng, nx, x0, x1, x2);
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("every handle opened for the mesh is released, whether the reading succeeds or fails", vch5::balanced());
    vc_assert("a failed check of the mesh is reported, a successful one is followed by the reading", failed == (nevents == 0));
    if (!failed) vc_assert("the mesh is read only if it has the extent of the array that receives it", found(1, 1, n0));
#if PART == 8
    if (!failed) {
        long const i = vc_int("node", 0, n0 - 1);
        vc_eq("mesh from a file: the nodes are those of the file", x0(i), vc_old(vcyaml::f_x0, i));
    }
#endif
    if (failed) vc_cover("the reading fails"); else vc_cover("the reading succeeds");
#elif PART == 2 // shift criterion
    auto const rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]), E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    auto const rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim), fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], NFX);
    own_coord0 = grid.mpi_rank_cart[0];
    UserShiftCriterion const crit(ps.p);
    try {
        (void)crit.execute(grid.range.no_ghosts(), grid, rho, rhou, E, fx);
        vc_cover("after the criterion");
    } catch (std::exception const&) {
        vc_cover("the criterion is refused");
    }
    ag.unchanged();
#elif PART == 3 // the handle itself
    long const id = vc_bool("HDF5 opens the object") ? vch5::acquire(vch5::DSET) : -static_cast<long>(vc_int("code of the failure", 1, 1000));
    bool const good = vch5::valid(id, vch5::DSET);
    bool const given = vc_bool("a releasing function is given");
    bool held = false;
    try {
        RaiiH5Hid const h(id, given ? ::H5Dclose : nullptr);
        held = true;
        vc_assert("a handle holds what was opened", good && *h == id);
        vc_assert("a handle is not released while it is held", vch5::valid(id, vch5::DSET));
        vc_cover("held");
        if (vc_bool("failure while it is held")) throw std::runtime_error("failure");
    } catch (std::exception const&) {
        failed = true;
        vc_cover("failure");
    }
    vc_assert("only an open handle with its releasing function is held", held == (good && given));
    if (held) vc_assert("a handle is released once, also when a failure occurs while it is held", vch5::balanced());
#else // extents of ranks 1, 2, 3
    hid_t const f = H5Fopen("file", H5F_ACC_RDONLY, H5P_DEFAULT);
    vc_assume(f >= 0);
    std::size_t const e0 = vc_int("extent", 1, 1000000), e1 = vc_int("extent", 0, 1000000), e2 = vc_int("extent", 0, 1000000);
    {
        RaiiH5Hid const file(f, ::H5Fclose);
        vch5::no_failure = vc_bool("HDF5 does not fail");
        try {
#if PART == 4
            check_extent_dset(file, "/d", std::array {e0});
#elif PART == 5
            check_extent_dset(file, "/d", std::array {e0, e1});
#else
            check_extent_dset(file, "/d", std::array {e0, e1, e2});
#endif
        } catch (std::exception const&) {
            failed = true;
        }
        vc_assert("the file is still open after the check", vch5::valid(f, vch5::FILE_));
        bool any = false;
        for (int s = 1; s < vch5::max_slots; ++s) any = any || vch5::is_open[s];
        vc_assert("the check releases its handles", !any);
        bool const same = vch5::nslots == 3 && vch5::rank_[2] == PART - 3 && vch5::ext[2][0] == e0 && (PART < 5 || vch5::ext[2][1] == e1) && (PART < 6 || vch5::ext[2][2] == e2);
        if (!failed) vc_assert("a dataset is accepted only with the expected rank and extents", same);
        if (failed && vch5::no_failure) vc_assert("a dataset with the expected rank and extents is accepted", !same);
        if (failed) vc_cover("refused"); else vc_cover("accepted");
    }
    vc_assert("every handle is released", vch5::balanced());
#endif
}
