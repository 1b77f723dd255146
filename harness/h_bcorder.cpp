// C18: order of the physical boundary conditions.  High priority overwrites: the faces listed first are processed last.
// PART 0: every priority list that names each face once (and no list); PART 1: every list of words, accepted or refused.
#include <hydro_common.hpp>
#include <memory>
#include <sstream>
#include <range.cpp>
#include <any_param.hpp>
#include <boundary_distribute.cpp>
#include <boundary.hpp>
#ifndef PART
#define PART 0
#endif
#ifndef FIRST
#define FIRST -1
#endif
using namespace hclpp;
namespace {
char const* const face_names[] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"};
#ifdef VC_NATIVE
void set_words(std::string const*, int) {}
#else
void set_words(std::string const* w, int n)
{
    for (int i = 0; i < n; ++i) vcs::words[i] = &w[i];
    vcs::n_words = n;
    vcs::trailing_blank = vc_bool("trailing_blank");
}
#endif
int nexchanges, nexecuted;
int order[16];
} // namespace
extern "C" {
int MPI_Cart_shift(MPI_Comm, int, int, int* src, int* dst) { *src = 0; *dst = 0; return 0; }
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*)
{
    vc_assert("halos are exchanged before the boundary conditions", nexecuted == 0);
    nexchanges = nexchanges + 1;
    return 0;
}
}
namespace {
long h_rho, h_rhou, h_E, h_fx;
Grid const* the_grid;
AbsGravity const* the_gravity;
struct Bc final : IBoundaryCondition<AbsGravity>
{
    int face;
    explicit Bc(int f) : IBoundaryCondition<AbsGravity>(f / 2, f % 2), face(f) {}
    void execute(Grid const& grid, AbsGravity const& g, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const override
    {
        vc_assert("a condition is applied to the variables", rho.m_h == h_rho && rhou.m_h == h_rhou && E.m_h == h_E && fx.m_h == h_fx);
        vc_assert("a condition is applied to the local grid", &grid == the_grid && &g == the_gravity);
        vc_assert("a condition is applied on the border of the domain only", grid.is_border[face / 2][face % 2]);
        vc_assert("no condition is applied after every face was processed", nexecuted < 16);
        order[nexecuted] = face;
        nexecuted = nexecuted + 1;
    }
};
// border: bit f is set when face f is on the border of the domain; expected: the faces in processing order
void check_order(Param const& p, Box const& b, AnyGrid& ag, int const* expected, int border)
{
    for (int f = 0; f < 6; ++f) ag.grid.is_border[f / 2][f % 2] = f < nfaces ? ((border >> f) & 1) != 0 : false;
    auto rho = vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]);
    auto rhou = vc_in<KV_double_4d>("rhou", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto E = vc_in<KV_double_3d>("E", 0, b.n[0], b.n[1], b.n[2]);
    auto fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], 0);
    AbsGravity const g;
    h_rho = rho.m_h; h_rhou = rhou.m_h; h_E = E.m_h; h_fx = fx.m_h; the_grid = &ag.grid; the_gravity = &g;
    nexchanges = 0; nexecuted = 0;
    std::array<std::unique_ptr<IBoundaryCondition<AbsGravity>>, nfaces> bcs;
    for (int f = 0; f < nfaces; ++f) bcs[f] = std::make_unique<Bc>(f);
    DistributedBoundaryCondition const halo(ag.grid, p);
    halo(bcs, ag.grid, g, rho, rhou, E, fx);
    int n = 0;
    for (int i = 0; i < nfaces; ++i) {
        int const f = expected[i];
        if (((border >> f) & 1) == 0) continue;
        vc_assert("the face of next higher priority is processed next", n < nexecuted && order[n] == f);
        n = n + 1;
    }
    vc_assert("each border face is processed once", n == nexecuted);
}
bool anything(void const*, double) { return true; }
} // namespace
VC_HARNESS
{
    Box const b = make_box(0, 3);
    for (int d = 0; d < ndim; ++d) vc_assume(b.in[d] >= b.ng && b.in[d] <= 100);
    AnyGrid ag(b);
    AnyParam ap;
    constexpr int all = (1 << nfaces) - 1;
#if PART == 0
    int const N = nfaces;
    vc_use_contract("ghost_sync", nullptr, &anything); // its effect is decided by h_halo.cpp
    int def[6] = {0, 1, 2, 3, 4, 5};
    if (FIRST < 0) {
        for (int border = 0; border <= all; ++border) check_order(ap.p, b, ag, def, border); // no list: in the order of the faces
        vc_cover("default");
        if (FIRST == -2) return;
    }
    // every permutation
    int total = 1;
    for (int i = 2; i <= N; ++i) total *= i;
    for (int q = 0; q < total; ++q) {
        int list[6] = {}, rest[6] = {0, 1, 2, 3, 4, 5}, x = q, left = N;
        for (int i = 0; i < N; ++i) {
            int fact = 1;
            for (int m = 2; m < left; ++m) fact *= m;
            int const at = x / fact;
            x %= fact;
            list[i] = rest[at];
            for (int m = at; m + 1 < left; ++m) rest[m] = rest[m + 1];
            --left;
        }
        if (FIRST >= 0 && (list[0] != FIRST / 10 || list[1] != FIRST % 10)) continue;
        std::string words[6];
        std::string text;
        int expected[6];
        for (int i = 0; i < N; ++i) {
            words[i] = face_names[list[i]];
            text += (i == 0 ? "" : " ") + words[i];
            expected[i] = list[N - 1 - i];
        }
        ap.p.bc_priority = text;
        set_words(words, N);
        check_order(ap.p, b, ag, expected, all);
        if (N == 2) check_order(ap.p, b, ag, expected, 2);
    }
    vc_cover("permutations");
#else
    // NWORDS arbitrary words
    std::string words[NWORDS + 1], text = "";
    char const* nm[] = {"word0", "word1", "word2", "word3", "word4", "word5", "word6"};
    for (int i = 0; i < NWORDS; ++i) {
        vc_string(&words[i], nm[i]);
        text += (i == 0 ? "" : " ") + words[i];
    }
    ap.p.bc_priority = text;
    vc_assume(!text.empty());
    set_words(words, NWORDS);
    bool each = true;
    for (int f = 0; f < nfaces; ++f) {
        bool found = false;
        for (int i = 0; i < NWORDS && i < nfaces; ++i) found = found || words[i] == face_names[f];
        each = each && found;
    }
    bool const refused = vc_throws([&] { DistributedBoundaryCondition const halo(ag.grid, ap.p); });
    vc_assert("a list that does not name every face is refused, any other is accepted", refused == !each);
    vc_cover("decided");
#endif
}
