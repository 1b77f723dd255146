// C07: limited linear face reconstruction
#include <grid_common.hpp>
#include <range.cpp>
#include <face_reconstruction.cpp>
using namespace hclpp;
// contract of a slope limiter: some function of the two slopes that vanishes when both do (postcondition of C06)
struct AbsLimiter
{
    double operator()(double r, double l) const noexcept { return r == 0 && l == 0 ? 0 : vc_f("limiter", r, l); }
};
template <class L> static bool is(IFaceReconstruction const* p) { return dynamic_cast<LimitedLinearReconstruction<L> const*>(p) != nullptr; }
VC_HARNESS
{
    {
        std::string s;
        vc_string(&s, "slope");
        bool thrown = false;
        try {
            std::unique_ptr<IFaceReconstruction> p = factory_face_reconstruction(s);
            vc_assert("the limiter is the one that was named", (s == "Constant" && is<Constant>(p.get())) || (s == "VanLeer" && is<VanLeer>(p.get())) || (s == "Minmod" && is<Minmod>(p.get())) || (s == "VanAlbada" && is<VanAlbada>(p.get())));
            vc_cover("named limiter");
        } catch (std::runtime_error const&) { thrown = true; vc_cover("unknown limiter"); }
        if (thrown) vc_assert("a known limiter does not throw", !(s == "Constant" || s == "VanLeer" || s == "Minmod" || s == "VanAlbada"));
    }
    Box b = make_box(1);
    long g = vc_int("ghosts", 0, b.ng - 1);
    AnyGrid ag(b);
    auto var = vc_in<KV_double_3d>("var", 0, b.n[0], b.n[1], b.n[2]);
    auto rec = vc_in<KV_double_5d>("rec", 0, b.n[0], b.n[1], b.n[2], 2, ndim);
    AbsLimiter lim;
    LimitedLinearReconstruction<AbsLimiter> const r(lim);
    r.execute(b.range.with_ghosts(static_cast<int>(g)), ag.grid, var, rec);
    ag.unchanged();
    vc_same("the cell values are not modified", var);
    Cell c = any_cell(b);
    long d = vc_int("dir", 0, ndim - 1);
    if (in_range(b, c, g)) {
        long m[3] = {c.i, c.j, c.k}, p[3] = {c.i, c.j, c.k};
        m[d] -= 1; p[d] += 1;
        KV_double_1d const dx = d == 0 ? ag.grid.dx0 : d == 1 ? ag.grid.dx1 : ag.grid.dx2;
        long x = d == 0 ? c.i : d == 1 ? c.j : c.k;
        double w = dx(x), wl = dx(x - 1), wr = dx(x + 1);
        double v = vc_old(var, AT(c)), vl = vc_old(var, m[0], m[1], m[2]), vr = vc_old(var, p[0], p[1], p[2]);
        double s = lim((vr - v) / ((w + wr) / 2), (v - vl) / ((w + wl) / 2));
        vc_eq("left face value = cell value - half width * slope", rec(AT(c), 0, d), v - w / 2 * s);
        vc_eq("right face value = cell value + half width * slope", rec(AT(c), 1, d), v + w / 2 * s);
        vc_eq("the mean of the face values is the cell value", rec(AT(c), 0, d) + rec(AT(c), 1, d), 2 * v);
        if (vl == v && vr == v) {
            vc_eq("a uniform field is reproduced (left)", rec(AT(c), 0, d), v);
            vc_eq("a uniform field is reproduced (right)", rec(AT(c), 1, d), v);
            vc_cover("uniform");
        }
        vc_cover("inside");
    } else {
        vc_eq("outside the range nothing is written (left)", rec(AT(c), 0, d), vc_old(rec, AT(c), 0, d));
        vc_eq("outside the range nothing is written (right)", rec(AT(c), 1, d), vc_old(rec, AT(c), 1, d));
        vc_cover("outside");
    }
}
