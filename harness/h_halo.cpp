// C18: halo exchange.  Every process runs the real exchange; a message goes to the first receive of its destination with its source
// and tag, in program order (contract of MPI_Sendrecv_replace and MPI_Cart_shift); a message of a process that is not followed is arbitrary.
// PART 0: a process and its neighbours in the directions of SIDES (bit d: 1 = towards larger indices), diagonal ones included:
//   each ghost cell of that corner holds the interior cell of the process owning it.
// PART 1: two processes along TD, each the neighbour of the other on both sides.
// PART 2: one process, its own neighbour everywhere: each ghost cell holds its periodic image.
// requires: arrays of the local extents, at least Nghost interior cells along every direction, a message count that fits an int
#include <hydro_common.hpp>
#include <limits>
#include <memory>
#include <range.cpp>
#include <any_param.hpp>
#include <boundary_distribute.cpp>
#include <boundary.hpp>
#ifndef PART
#define PART 0
#endif
#ifndef SIDES
#define SIDES 7
#endif
#ifndef TD
#define TD 0
#endif
#ifndef NFX
#define NFX 1
#endif
using namespace hclpp;
namespace {
using Buf = Kokkos::View<double****, Kokkos::LayoutLeft, Kokkos::SharedHostPinnedSpace>;
// a process is known by its offset from the process of interest, along the direction of SIDES
struct Offset { int o[3]; };
int rank_of(Offset const& x) { return 1000 + (x.o[0] + 3) + 10 * (x.o[1] + 3) + 100 * (x.o[2] + 3); }
Offset next(Offset x, int dim, int disp)
{
    if (PART == 2) return x; // its own neighbour
    if (PART == 1 && dim == TD) { x.o[dim] = 1 - x.o[dim]; return x; } // the other process, on both sides
    x.o[dim] += ((SIDES >> dim) & 1) != 0 ? disp : -disp;
    return x;
}
struct Msg { int from, dst, tag; long h; bool taken; };
Msg sent[64];
int nsent, ncalls, nmatched;
Offset current;
} // namespace
extern "C" {
int MPI_Cart_shift(MPI_Comm c, int dim, int disp, int* src, int* dst)
{
    vc_assert("neighbours are those of the process grid", c == vcmpi::comm_cart && dim >= 0 && dim < ndim && (disp == 1 || disp == -1));
    *src = rank_of(next(current, dim, -disp));
    *dst = rank_of(next(current, dim, disp));
    return 0;
}
int MPI_Sendrecv_replace(void* p, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status*)
{
    vc_assert("halo messages are doubles between processes of the process grid", t == MPI_DOUBLE && c == vcmpi::comm_cart);
    long const h = __vk_from_data(p);
    vc_assert("the message is an array", h != 0);
    Buf const v(Buf::HandleTag {}, h);
    vc_assert("the message is the whole array", n == static_cast<long>(v.extent_int(0)) * v.extent_int(1) * v.extent_int(2) * v.extent_int(3));
    ncalls = ncalls + 1;
    Buf const copy("message", v.extent_int(0), v.extent_int(1), v.extent_int(2), v.extent_int(3));
    Kokkos::deep_copy(copy, v);
    int const me = rank_of(current);
    vc_assert("no more messages than followed", nsent < 64);
    sent[nsent] = Msg {me, dst, stag, copy.m_h, false};
    nsent = nsent + 1;
    bool found = false;
    for (int m = 0; m < nsent; ++m) {
        if (found || sent[m].taken || sent[m].from != src || sent[m].dst != me || sent[m].tag != rtag) continue;
        found = true;
        sent[m].taken = true;
        nmatched = nmatched + 1;
        if (src == me) continue;
        Buf const other(Buf::HandleTag {}, sent[m].h);
        for (int d = 0; d < 4; ++d) vc_assert("both processes exchange messages of the same shape", v.extent_int(d) == other.extent_int(d));
        Kokkos::deep_copy(v, other);
    }
    if (!found) { // from a process that is not followed
        auto const any = vc_in<Buf>("received", 0, v.extent_int(0), v.extent_int(1), v.extent_int(2), v.extent_int(3));
        Kokkos::deep_copy(v, any);
    }
    return 0;
}
}
namespace {
struct Bc final : IBoundaryCondition<AbsGravity>
{
    Bc() : IBoundaryCondition<AbsGravity>(0, 0) {}
    void execute(Grid const&, AbsGravity const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) const override {}
};
struct Process
{
    Box b;
    AnyGrid ag;
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
    explicit Process(Box const& bx)
        : b(bx), ag(bx)
        , rho(vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]))
        , E(vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]))
        , rhou(vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim))
        , fx(vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], NFX))
    {
        for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) ag.grid.is_border[d][s] = false;
        for (int d = 0; d < ndim; ++d) {
            long e[3] = {b.n[0], b.n[1], b.n[2]};
            e[d] = b.ng;
            vc_assume(e[0] * e[1] * e[2] * (ndim + 2 + NFX) <= std::numeric_limits<int>::max());
        }
    }
    void exchange(Param const& p, Offset const& who)
    {
        AbsGravity const g;
        std::array<std::unique_ptr<IBoundaryCondition<AbsGravity>>, nfaces> bcs;
        for (auto& x : bcs) x = std::make_unique<Bc>();
        DistributedBoundaryCondition const halo(ag.grid, p);
        current = who;
        ncalls = 0;
        halo(bcs, ag.grid, g, rho, rhou, E, fx);
        vc_assert("every side is exchanged once", ncalls == 2 * ndim);
        ag.unchanged();
    }
};
void same_cell(char const* rho, char const* rhou, char const* E, char const* fx, Process const& P, long const (&c)[3], Process const& Q, long const (&s)[3], bool old)
{
#define NEW(a, ...) a(s[0], s[1], s[2] __VA_OPT__(, ) __VA_ARGS__)
#define OLD(a, ...) vc_old(a, s[0], s[1], s[2] __VA_OPT__(, ) __VA_ARGS__)
    vc_eq(rho, P.rho(c[0], c[1], c[2]), old ? OLD(Q.rho) : NEW(Q.rho));
    for (int d = 0; d < ndim; ++d) vc_eq(rhou, P.rhou(c[0], c[1], c[2], d), old ? OLD(Q.rhou, d) : NEW(Q.rhou, d));
    vc_eq(E, P.E(c[0], c[1], c[2]), old ? OLD(Q.E) : NEW(Q.E));
    for (int f = 0; f < NFX; ++f) vc_eq(fx, P.fx(c[0], c[1], c[2], f), old ? OLD(Q.fx, f) : NEW(Q.fx, f));
}
// index of the same cell in the frame of the process one step further on that side
long shifted(long x, bool right, long n, long nq, long ng) { return right ? x - (n - ng) + ng : x + nq - 2 * ng; }
#define GHOST "ghost density is the owner's", "ghost momentum is the owner's", "ghost energy is the owner's", "ghost scalars are the owner's"
#define KEPT "interior density is not written", "interior momentum is not written", "interior energy is not written", "interior scalars are not written"
} // namespace
VC_HARNESS
{
    nsent = 0; ncalls = 0; nmatched = 0;
    Box const b = make_box(0, 1000);
    for (int d = 0; d < ndim; ++d) vc_assume(b.in[d] >= b.ng);
    AnyParam ap;
    ap.p.nfx = NFX;
    ap.p.mpi_device_aware = vc_bool("device_aware");
    Process R(b);
    Offset const here {{0, 0, 0}};
    long c[3], s[3];
    char const* nm[] = {"i", "j", "k"};
    for (int d = 0; d < 3; ++d) { c[d] = vc_int(nm[d], 0, b.n[d] - 1); s[d] = c[d]; }
    bool interior = true;
    for (int d = 0; d < ndim; ++d) interior = interior && c[d] >= b.ng && c[d] < b.n[d] - b.ng;
    if (PART == 2) {
        R.exchange(ap.p, here);
        vc_assert("every message is received", nmatched == 2 * ndim);
        if (interior) {
            same_cell(KEPT, R, c, R, c, true);
            vc_cover("interior");
            return;
        }
        for (int d = 0; d < ndim; ++d) s[d] = c[d] < b.ng ? c[d] + b.in[d] : c[d] >= b.n[d] - b.ng ? c[d] - b.in[d] : c[d];
        same_cell(GHOST, R, c, R, s, true);
        vc_cover("ghost");
        return;
    }
    if (PART == 1) {
        Box bs = b;
        bs.in[TD] = vc_int("Ns", 1, 100000);
        vc_assume(bs.in[TD] >= b.ng);
        bs.n[TD] = bs.in[TD] + 2 * b.ng;
        Process S(bs);
        Offset there = here;
        there.o[TD] = 1;
        S.exchange(ap.p, there);
        R.exchange(ap.p, here);
        vc_assert("every message of the other process is received", nmatched == 2);
        if (interior) {
            same_cell(KEPT, R, c, R, c, true);
            vc_cover("interior");
            return;
        }
        bool in_others = true;
        for (int d = 0; d < ndim; ++d) in_others = in_others && (d == TD || (c[d] >= b.ng && c[d] < b.n[d] - b.ng));
        if (!in_others) return;
        s[TD] = shifted(c[TD], c[TD] >= b.n[TD] - b.ng, b.n[TD], bs.n[TD], b.ng);
        same_cell(GHOST, R, c, S, s, true);
        vc_cover("ghost");
        return;
    }
    // the processes further on every side first: what they send does not depend on this one for the cells of interest
    Box far = b;
    char const* nN[] = {"M0", "M1", "M2"};
    for (int d = 0; d < ndim; ++d) {
        far.in[d] = vc_int(nN[d], 1, 100000);
        vc_assume(far.in[d] >= b.ng);
        far.n[d] = far.in[d] + 2 * b.ng;
    }
    std::unique_ptr<Process> others[8];
    for (int mask = (1 << ndim) - 1; mask > 0; --mask) {
        Box bq = b;
        Offset who = here;
        for (int d = 0; d < ndim; ++d)
            if (((mask >> d) & 1) != 0) { bq.in[d] = far.in[d]; bq.n[d] = far.n[d]; who.o[d] = 1; }
        others[mask] = std::make_unique<Process>(bq);
        others[mask]->exchange(ap.p, who);
    }
    R.exchange(ap.p, here);
    vc_assert("the messages of the followed processes are received", nmatched == ndim * (1 << (ndim - 1)));
    if (interior) {
        same_cell(KEPT, R, c, R, c, true);
        vc_cover("interior");
        return;
    }
    for (int mask = (1 << ndim) - 1; mask > 0; --mask) {
        bool mine = true;
        for (int d = 0; d < ndim; ++d) {
            bool const right = ((SIDES >> d) & 1) != 0;
            if (((mask >> d) & 1) != 0) {
                mine = mine && (right ? c[d] >= b.n[d] - b.ng : c[d] < b.ng);
                s[d] = shifted(c[d], right, b.n[d], far.n[d], b.ng);
            } else {
                mine = mine && c[d] >= b.ng && c[d] < b.n[d] - b.ng;
                s[d] = c[d];
            }
        }
        if (mine) {
            same_cell(GHOST, R, c, *others[mask], s, true);
            vc_cover("ghost");
        }
    }
}
