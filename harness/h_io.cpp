// C31: HDF5 handles while reading and writing, light data of the outputs
// stubs: io
#include <any_param.hpp>
#include <grid_common.hpp>
#include <range.cpp>
#include <git_version.hpp>
#include <hdf5.h>
#include <pdi.h>
#include <vector>
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
namespace hclpp {
std::string_view const git_build_string("build"), git_branch("branch"), compile_date("date"), compile_time("time");
}
#include <io.cpp>
#ifndef PART
#define PART 0
#endif
using namespace hclpp;
namespace {
int nevents = 0, nchecked = 0;
long expected[3] = {};
bool reading = false;
#if PART == 2
std::string const* described_prefix = nullptr;
long first_described = 0;
bool named(std::string const& s, long k)
{
    std::ostringstream name;
    name << *described_prefix << '_' << std::setw(8) << std::setfill('0') << static_cast<unsigned long>(first_described + k) << ".h5";
    return s == name.str();
}
#endif
}
namespace vcpdi {
bool same(char const* a, char const* b) { return std::string_view(a) == std::string_view(b); }
void event(char const* name)
{
    if (!reading) return;
    nevents = nevents + 1;
    // the datasets of the coordinates have been found in the file with the extents of the arrays that receive them
    if (nevents == 1) {
        for (int c = 0; c < nchecked; ++c) {
            bool found = false;
            for (int s = 0; s < vch5::max_slots; ++s)
                found = found || (vch5::kind[s] == vch5::SPACE && vch5::coord[s] == c + 1 && vch5::rank_[s] == 1 && vch5::ext[s][0] == static_cast<unsigned long long>(expected[c]));
            vc_assert("the file is read only if each coordinate dataset is one-dimensional and has the extent of its array", found);
        }
    }
}
void shared(char const*, void const*, PDI_inout_t) {}
void done(char const*) {}
}
VC_HARNESS
{
    vch5::reset();
    nevents = 0;
    reading = PART == 0;
    AnyGrid ag(make_box(1));
    Grid& grid = ag.grid;
    Box const& b = ag.b;
    grid.mpi_rank = vc_bool("first process") ? 0 : 1;
    for (int d = 0; d < 3; ++d) grid.Nx_glob_ng[d] = static_cast<int>(vc_int("number of cells", 1, 1000000));
#if PART == 0 || PART == 1
    long const n0 = vc_int("nodes", 1, 100000), n1 = vc_int("nodes", 1, 100000), n2 = vc_int("nodes", 1, 100000);
    KDV_double_3d const rho("rho", b.n[0], b.n[1], b.n[2]), P("P", b.n[0], b.n[1], b.n[2]), E("E", b.n[0], b.n[1], b.n[2]), T("T", b.n[0], b.n[1], b.n[2]);
    KDV_double_4d const u("u", b.n[0], b.n[1], b.n[2], ndim), fx("fx", b.n[0], b.n[1], b.n[2], NFX);
    KDV_double_1d const x0("x0", n0), x1("x1", n1), x2("x2", n2);
#endif
#if PART == 0 // restart file
    nchecked = 3;
    expected[0] = n0; expected[1] = n1; expected[2] = n2;
    std::string file;
    vc_string(&file, "restart file");
    int id = 0, iid = 0, tid = 0, iter = 0;
    double t = 0;
    bool failed = false;
    try {
        read_pdi(file, id, iid, tid, iter, t, rho, u, P, fx, x0, x1, x2);
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("every handle opened while reading is released, whether the reading succeeds or fails", vch5::balanced());
    vc_assert("a failed check is reported, a successful one is followed by the reading", failed == (nevents == 0));
    if (failed) vc_cover("the reading fails"); else vc_cover("the reading succeeds");
#elif PART == 1 // output file
    std::string dir, prefix;
    vc_string(&dir, "directory");
    vc_string(&prefix, "prefix");
    vc_assume(dir.size() < 1000 && prefix.size() < 1000);
    bool failed = false;
    try {
        write_pdi(dir, prefix, static_cast<int>(vc_int("output", 0, 1000000)), 0, 0, static_cast<int>(vc_int("iteration", 0, 1000000)), vc_real("time"), vc_real("gamma"), grid, rho.const_view(), u.const_view(), P.const_view(), E.const_view(), x0.const_view(), x1.const_view(), x2.const_view(), fx.const_view(), T.const_view());
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("every handle opened while writing is released, whether the writing succeeds or fails", vch5::balanced());
    vc_assert("one process completes the output file", (vch5::nopened_files == 1) == (grid.mpi_rank == 0) && vch5::nopened_files <= 1);
    if (failed) vc_cover("the writing fails"); else vc_cover("the writing succeeds");
#elif PART == 2 // light data
    std::string dir, prefix;
    vc_string(&dir, "directory");
    vc_string(&prefix, "prefix");
    KDV_double_1d const x0("x0", grid.Nx_glob_ng[0] + 2 * grid.Nghost[0] + 1), x1("x1", grid.Nx_glob_ng[1] + 2 * grid.Nghost[1] + 1), x2("x2", grid.Nx_glob_ng[2] + 2 * grid.Nghost[2] + 1);
    long const nout = vc_int("number of outputs", 0, 100000);
    int const id = static_cast<int>(vc_int("output", 0, 100000));
    vcs::files_opened = 0;
    vcs::files_closed = 0;
    using Record = std::vector<std::pair<int, double>>;
#ifdef VC_NATIVE
    Record const record(static_cast<std::size_t>(nout % 7));
#else
    alignas(Record) char room[sizeof(Record)];
    Record const& record = *reinterpret_cast<Record*>(room);
    auto const store = vc_in<KVH_double_1d>("record", 0, 2 * nout + 2);
    double* const first = &store(0);
    double* const past = first + 2 * nout;
    void** const w = reinterpret_cast<void**>(room);
    w[0] = first; w[1] = past; w[2] = past;
#endif
    XmlWriter const writer(dir, prefix, NFX);
    long const cells[3] = {grid.Nx_glob_ng[0], grid.Nx_glob_ng[1], grid.Nx_glob_ng[2]};
    vcs::cells = cells;
#ifndef VC_NATIVE
    vcs::times = first;
#endif
    vcs::ntimes = 0;
    described_prefix = &prefix;
    first_described = id + 1 - static_cast<long>(record.size());
    vcs::names = named;
    bool failed = false;
    try {
        writer(grid, id, record, x0.const_view(), x1.const_view(), x2.const_view());
    } catch (std::exception const&) {
        failed = true;
    }
    vc_assert("the light data are written to the end", !failed);
    vc_assert("the light data are written by the first process, to one file", vcs::files_opened == (grid.mpi_rank == 0 ? 1 : 0) && vcs::files_closed == vcs::files_opened);
    if (grid.mpi_rank == 0) vc_assert("light data: every output of the record is described, once", vcs::ntimes == static_cast<long>(record.size()));
    if (grid.mpi_rank == 0) vc_cover("the light data are written");
#endif
}
