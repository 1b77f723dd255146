// C34: what an output file holds and what a restart reads from it: the transfers ordered by the specification tree of PDI, for any decomposition
// stubs: io pdi_spec
#include <any_param.hpp>
#include <grid_common.hpp>
#include <range.cpp>
#include <git_version.hpp>
#include <hdf5.h>
#include <pdi.h>
#include <vector>
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
namespace hclpp {
std::string_view const git_build_string("build"), git_branch("branch"), compile_date("date"), compile_time("time");
}
namespace vcpdi {
bool same(char const* a, char const* b)
{
    int k = 0;
    while (a[k] != 0 && a[k] == b[k]) ++k;
    return a[k] == b[k];
}
}
#include <pdi_spec.hpp>
#include <io.cpp>
#ifndef PART
#    define PART 0
#endif
#ifndef NFX
#    define NFX 1
#endif
#ifndef STATE
#    define STATE 0
#endif
using namespace hclpp;
namespace {
// the names of the files are given with their sizes
char const *dir_data = nullptr, *restart_data = nullptr;
long dir_size = 0, restart_size = 0;
}
namespace vcpdi {
void event(char const* e)
{
    (void)e;
}
void shared(char const* name, void const* data, PDI_inout_t dir)
{
    if (data == nullptr) return;
    vcyaml::share(name, data, static_cast<int>(dir));
}
void done(char const* e) { vcyaml::event(e); }
}
namespace {
// the part of a process
Box window(long ng, long const (&glob)[3])
{
    long N[3], lo[3], hi[3], tot[3];
    for (int d = 0; d < 3; ++d) {
        lo[d] = d < ndim ? vc_int("first cell of the process", 0, glob[d] - 1) : 0;
        hi[d] = d < ndim ? vc_int("last cell of the process", lo[d] + 1, glob[d]) : 1;
        N[d] = hi[d] - lo[d];
        tot[d] = N[d] + (d < ndim ? 2 * ng : 0);
    }
    return Box {{tot[0], tot[1], tot[2]}, {N[0], N[1], N[2]}, ng, Range(Box::cm(lo), Box::cm(hi), static_cast<int>(ng))};
}
// fields on the host or on the device
template <class D, class V> void put(D const& d, V const& v)
{
    if (STATE == 2) Kokkos::deep_copy(d(device, discard_write), v);
    else Kokkos::deep_copy(d(host, discard_write), v);
}
}
VC_HARNESS
{
    using namespace vcyaml;
    vch5::reset();
    vch5::no_failure = true;
    reset();
    // a mesh and the part of one process of any decomposition
    long const ng = vc_int("ghosts", 1, 16);
    long glob[3], gh[3], lo[3];
    for (int d = 0; d < 3; ++d) { glob[d] = d < ndim ? vc_int("number of cells", 1, 1000000) : 1; gh[d] = d < ndim ? ng : 0; }
    AnyGrid ag(window(ng, glob));
    Grid& grid = ag.grid;
    Box const& b = ag.b;
    for (int d = 0; d < 3; ++d) { grid.Nx_glob_ng[d] = static_cast<int>(glob[d]); lo[d] = b.range.Corner_min[d]; }
    grid.mpi_rank = vc_bool("first process") ? 0 : static_cast<int>(vc_int("rank", 1, 1000000));
    own_rank = grid.mpi_rank;
    AnyParam ap;
    ap.p.nfx = NFX;
    // the file
    auto const set3 = [&](char const* n) { return vc_in<KV_double_3d>(n, 0, glob[0], glob[1], glob[2]); };
    f_rho = set3("file rho"); f_P = set3("file P"); f_E = set3("file E"); f_T = set3("file T");
    f_ux0 = set3("file ux0"); f_ux1 = set3("file ux1"); f_ux2 = set3("file ux2");
    KV_double_3d* const file_fx[] = {&f_fx0, &f_fx1, &f_fx2, &f_fx3, &f_fx4, &f_fx5, &f_fx6, &f_fx7, &f_fx8, &f_fx9};
    char const* const name_fx[] = {"file fx0", "file fx1", "file fx2", "file fx3", "file fx4", "file fx5", "file fx6", "file fx7", "file fx8", "file fx9"};
    for (int f = 0; f < NFX; ++f) *file_fx[f] = set3(name_fx[f]);
    KV_double_3d const file_u[] = {f_ux0, f_ux1, f_ux2};
    f_x0 = vc_in<KV_double_1d>("file x0", 0, glob[0] + 2 * gh[0] + 1); f_x1 = vc_in<KV_double_1d>("file x1", 0, glob[1] + 2 * gh[1] + 1); f_x2 = vc_in<KV_double_1d>("file x2", 0, glob[2] + 2 * gh[2] + 1);
    KV_double_1d const file_x[] = {f_x0, f_x1, f_x2};
    f_output_id = static_cast<int>(vc_int("file output_id", 0, 1000000)); f_iter_output_id = static_cast<int>(vc_int("file iter_output_id", -1, 1000000));
    f_time_output_id = static_cast<int>(vc_int("file time_output_id", -1, 1000000)); f_iter = static_cast<int>(vc_int("file iter", 0, 1000000)); f_current_time = vc_real("file time");
    // the state of the process
    auto const rho0 = vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]), P0 = vc_in<KV_double_3d>("P", 0, b.n[0], b.n[1], b.n[2]);
    auto const u0 = vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim), fx0 = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], NFX);
    auto const x00 = vc_in<KV_double_1d>("global x0", 0, glob[0] + 2 * gh[0] + 1), x10 = vc_in<KV_double_1d>("global x1", 0, glob[1] + 2 * gh[1] + 1), x20 = vc_in<KV_double_1d>("global x2", 0, glob[2] + 2 * gh[2] + 1);
    KDV_double_3d const rho("rho", b.n[0], b.n[1], b.n[2]), P("P", b.n[0], b.n[1], b.n[2]);
    KDV_double_4d const u("u", b.n[0], b.n[1], b.n[2], ndim), fx("fx", b.n[0], b.n[1], b.n[2], NFX);
    KDV_double_1d const x0("x0", glob[0] + 2 * gh[0] + 1), x1("x1", glob[1] + 2 * gh[1] + 1), x2("x2", glob[2] + 2 * gh[2] + 1);
    put(rho, rho0); put(P, P0); put(u, u0); put(x0, x00); put(x1, x10); put(x2, x20);
    if (NFX > 0) put(fx, fx0);
    KV_double_1d const own_x[] = {x00, x10, x20};
    write_pdi_init(grid, ap.p);
    bool failed = false;
#if PART == 0 // an output
    auto const E0 = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]), T0 = vc_in<KV_double_3d>("T", 0, b.n[0], b.n[1], b.n[2]);
    KDV_double_3d const E("E", b.n[0], b.n[1], b.n[2]), T("T", b.n[0], b.n[1], b.n[2]);
    put(E, E0); put(T, T0);
    KV_double_1d const file_ng[] = {vc_in<KV_double_1d>("file x0_ng", 0, glob[0] + 1), vc_in<KV_double_1d>("file x1_ng", 0, glob[1] + 1), vc_in<KV_double_1d>("file x2_ng", 0, glob[2] + 1)};
    f_x0_ng = file_ng[0]; f_x1_ng = file_ng[1]; f_x2_ng = file_ng[2];
    std::string dir, prefix;
    vc_string(&dir, "directory");
    vc_string(&prefix, "prefix");
    vc_assume(dir.size() < 1000 && prefix.size() < 1000);
    int const id = static_cast<int>(vc_int("output", 0, 1000000)), iid = static_cast<int>(vc_int("output by iteration", -1, 1000000)), tid = static_cast<int>(vc_int("output by time", -1, 1000000)), iter = static_cast<int>(vc_int("iteration", 0, 1000000));
    double const t = vc_real("time"), gamma = vc_real("gamma");
    int const o_id = f_output_id, o_iid = f_iter_output_id, o_tid = f_time_output_id, o_iter = f_iter;
    double const o_t = f_current_time;
    try {
        write_pdi(dir, prefix, id, iid, tid, iter, t, gamma, grid, rho.const_view(), u.const_view(), P.const_view(), E.const_view(), x0.const_view(), x1.const_view(), x2.const_view(), fx.const_view(), T.const_view());
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("an output is written", !failed);
    vc_assert("the directory of the output is the one asked for", p_directory == static_cast<void const*>(dir.data()) && m_directory_size == static_cast<long>(dir.size()));
    bool const root = grid.mpi_rank == 0;
    if (root) {
        vc_assert("the file holds the counters of the run", f_output_id == id && f_iter_output_id == iid && f_time_output_id == tid && f_iter == iter && w_output_id && w_iter_output_id && w_time_output_id && w_iter && w_current_time && w_gamma);
        vc_eq("the file holds the time", f_current_time, t);
        vc_eq("the file holds the adiabatic index", f_gamma, gamma);
        char const* const nx[] = {"the file holds the nodes, ghosts included (x0)", "the file holds the nodes, ghosts included (x1)", "the file holds the nodes, ghosts included (x2)"};
        char const* const nn[] = {"the file holds the nodes of the mesh (x0_ng)", "the file holds the nodes of the mesh (x1_ng)", "the file holds the nodes of the mesh (x2_ng)"};
        for (int d = 0; d < 3; ++d) {
            long const i = vc_int("node", 0, glob[d] + 2 * gh[d]);
            vc_eq(nx[d], file_x[d](i), own_x[d](i));
            long const j = vc_int("node of the mesh", 0, glob[d]);
            vc_eq(nn[d], file_ng[d](j), own_x[d](j + gh[d]));
        }
        vc_cover("the first process writes");
    } else {
        vc_assert("the counters are written by the first process only", f_output_id == o_id && f_iter_output_id == o_iid && f_time_output_id == o_tid && f_iter == o_iter && f_current_time == o_t);
        vc_same("the nodes are written by the first process only (x0)", f_x0); vc_same("the nodes are written by the first process only (x1)", f_x1); vc_same("the nodes are written by the first process only (x2)", f_x2);
        vc_cover("another process writes");
    }
    // a cell of the mesh
    long g[3], c[3];
    bool own = true;
    for (int d = 0; d < 3; ++d) {
        g[d] = vc_int("cell of the mesh", 0, glob[d] - 1);
        own = own & (g[d] >= lo[d]) & (g[d] < lo[d] + b.in[d]);
        c[d] = g[d] - lo[d] + gh[d];
    }
    if (own) {
        vc_cover("a cell of the process");
        vc_eq("the file holds the density, each cell at its place", f_rho(g[0], g[1], g[2]), rho0(c[0], c[1], c[2]));
        vc_eq("the file holds the pressure, each cell at its place", f_P(g[0], g[1], g[2]), P0(c[0], c[1], c[2]));
        vc_eq("the file holds the energy, each cell at its place", f_E(g[0], g[1], g[2]), E0(c[0], c[1], c[2]));
        vc_eq("the file holds the temperature, each cell at its place", f_T(g[0], g[1], g[2]), T0(c[0], c[1], c[2]));
        for (int d = 0; d < ndim; ++d) vc_eq("the file holds the velocity, each component and each cell at its place", file_u[d](g[0], g[1], g[2]), u0(c[0], c[1], c[2], d));
        for (int f = 0; f < NFX; ++f) vc_eq("the file holds the scalars, each one and each cell at its place", (*file_fx[f])(g[0], g[1], g[2]), fx0(c[0], c[1], c[2], f));
    } else {
        vc_cover("a cell of another process");
        vc_eq("a process writes its own cells only (density)", f_rho(g[0], g[1], g[2]), vc_old(f_rho, g[0], g[1], g[2]));
        vc_eq("a process writes its own cells only (pressure)", f_P(g[0], g[1], g[2]), vc_old(f_P, g[0], g[1], g[2]));
        vc_eq("a process writes its own cells only (energy)", f_E(g[0], g[1], g[2]), vc_old(f_E, g[0], g[1], g[2]));
        vc_eq("a process writes its own cells only (temperature)", f_T(g[0], g[1], g[2]), vc_old(f_T, g[0], g[1], g[2]));
        for (int d = 0; d < 3; ++d) vc_eq("a process writes its own cells only (velocity)", file_u[d](g[0], g[1], g[2]), vc_old(file_u[d], g[0], g[1], g[2]));
        for (int f = 0; f < NFX; ++f) vc_eq("a process writes its own cells only (scalars)", (*file_fx[f])(g[0], g[1], g[2]), vc_old(*file_fx[f], g[0], g[1], g[2]));
    }
#else // a restart
    std::string file;
    vc_string(&file, "restart file");
    for (int d = 0; d < 3; ++d) vch5::given[d] = glob[d] + 2 * gh[d] + 1;
    int id = -5, iid = -5, tid = -5, iter = -5;
    double t = vc_real("initial time");
    try {
        read_pdi(file, id, iid, tid, iter, t, rho, u, P, fx, x0, x1, x2);
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("a file of the same mesh is accepted", !failed);
    vc_assert("the file read is the one asked for", p_restart_filename == static_cast<void const*>(file.data()) && m_restart_filename_size == static_cast<long>(file.size()));
    vc_assert("the counters are those of the file", id == f_output_id && iid == f_iter_output_id && tid == f_time_output_id && iter == f_iter);
    vc_eq("the time is the one of the file", t, f_current_time);
    auto const x0d = x0(device, read_only), x1d = x1(device, read_only), x2d = x2(device, read_only);
    {
        long const i = vc_int("node", 0, glob[0] + 2 * gh[0]), j = vc_int("node", 0, glob[1] + 2 * gh[1]), k = vc_int("node", 0, glob[2] + 2 * gh[2]);
        vc_eq("the nodes are those of the file (x0)", x0d(i), vc_old(f_x0, i));
        vc_eq("the nodes are those of the file (x1)", x1d(j), vc_old(f_x1, j));
        vc_eq("the nodes are those of the file (x2)", x2d(k), vc_old(f_x2, k));
    }
    vc_same("reading leaves the file as it is", f_rho); vc_same("reading leaves the file as it is", f_P); vc_same("reading leaves the file as it is", f_x0);
    auto const rhod = rho(device, read_only), Pd = P(device, read_only);
    auto const ud = u(device, read_only), fxd = fx(device, read_only);
    long c[3], g[3];
    bool inner = true;
    for (int d = 0; d < 3; ++d) {
        c[d] = vc_int("cell", 0, b.n[d] - 1);
        g[d] = c[d] - gh[d] + lo[d];
        inner = inner & (c[d] >= gh[d]) & (c[d] < gh[d] + b.in[d]);
    }
    if (inner) {
        vc_cover("a cell of the process");
        vc_eq("the density is the one of the file, at each cell", rhod(c[0], c[1], c[2]), vc_old(f_rho, g[0], g[1], g[2]));
        vc_eq("the pressure is the one of the file, at each cell", Pd(c[0], c[1], c[2]), vc_old(f_P, g[0], g[1], g[2]));
        for (int d = 0; d < ndim; ++d) vc_eq("the velocity is the one of the file, each component at each cell", ud(c[0], c[1], c[2], d), vc_old(file_u[d], g[0], g[1], g[2]));
        for (int f = 0; f < NFX; ++f) vc_eq("the scalars are those of the file, each one at each cell", fxd(c[0], c[1], c[2], f), vc_old(*file_fx[f], g[0], g[1], g[2]));
    } else
        vc_cover("a ghost cell");
#endif
}
