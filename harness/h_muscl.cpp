// C08, C10: the reconstruction hands to the half-step extrapolation, for every field, the face values of that field
#include <hydro_common.hpp>
#include <memory>
#include <range.cpp>
#include <face_reconstruction.cpp>
#include <extrapolation_reconstruction.hpp>
#include <hydro_reconstruction.hpp>
using namespace hclpp;
#ifndef PROP
#define PROP 8
#endif
struct AbsLimiter
{
    double operator()(double r, double l) const noexcept { return r == 0 && l == 0 ? 0 : vc_f("limiter", r, l); }
};
static long ncalls;
static bool args_ok;
static double the_dt;
static Grid const* the_grid;
static KV_double_6d the_u;
static KV_double_5d the_P;
static Rec* the_rec;
static long g_ng;
// contract of the extrapolation: called once, with the face states of the reconstruction (its own effect is specified in h_hancock)
struct RecordExtrapolation : IExtrapolationReconstruction<AbsGravity>
{
    void execute(Range const& range, Grid const& grid, AbsGravity const&, double dt, KV_cdouble_6d const& u_rec, KV_cdouble_5d const& P_rec, KV_double_5d const& rho_rec, KV_double_6d const& rhou_rec, KV_double_5d const& E_rec, KV_double_6d const& fx_rec) const final
    {
        ++ncalls;
        args_ok = vc_same_storage(u_rec.m_h, the_u.m_h) && vc_same_storage(P_rec.m_h, the_P.m_h) && vc_same_storage(rho_rec.m_h, the_rec->rho.m_h) && vc_same_storage(rhou_rec.m_h, the_rec->rhou.m_h) && vc_same_storage(E_rec.m_h, the_rec->E.m_h) && vc_same_storage(fx_rec.m_h, the_rec->fx.m_h) && dt == the_dt && &grid == the_grid && range.NgEff == static_cast<int>(g_ng);
    }
};
VC_HARNESS
{
    AbsEoS eos;
    Box b = make_box(1);
    long g = vc_int("ghosts", 0, b.ng - 1);
    long nfx = PROP == 10 ? vc_int("nfx", 1, 1000) : 0;
    AnyGrid ag(b);
    Grid const& grid = ag.grid;
    AbsGravity grav;
    double dt = vc_real("dt");
    auto rho = vc_in<KV_double_3d>("rho", 1, b.n[0], b.n[1], b.n[2]);
    auto u = vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim);
    auto P = vc_in<KV_double_3d>("P", 1, b.n[0], b.n[1], b.n[2]);
    auto fx = vc_in<KV_double_4d>("fx", 4, b.n[0], b.n[1], b.n[2], nfx);
    Rec rec(b, nfx);
    KV_double_6d u_rec("u_rec", b.n[0], b.n[1], b.n[2], 2, ndim, ndim);
    KV_double_5d P_rec("P_rec", b.n[0], b.n[1], b.n[2], 2, ndim);
    AbsLimiter lim;
    ncalls = 0; args_ok = false; the_dt = dt; the_grid = &grid; the_u = u_rec; the_P = P_rec; the_rec = &rec; g_ng = g;
    MUSCLHancockHydroReconstruction<AbsEoS, AbsGravity> const r(std::make_unique<LimitedLinearReconstruction<AbsLimiter>>(lim), std::make_unique<RecordExtrapolation>(), eos, P_rec, u_rec);
    r.execute(b.range.with_ghosts(static_cast<int>(g)), grid, grav, dt, rho, u, P, fx, rec.rho, rec.rhou, rec.E, rec.fx);
    vc_assert("the extrapolation is applied exactly once, to all the face states, on the same range and with the given step", ncalls == 1 && args_ok);
    vc_same("the density is not modified", rho);
    vc_same("the velocity is not modified", u);
    vc_same("the pressure is not modified", P);
    vc_same("the scalars are not modified", fx);
    Cell c = any_cell(b);
    if (in_range(b, c, g)) {
        for (int d = 0; d < ndim; ++d) {
            long m[3] = {c.i, c.j, c.k}, p[3] = {c.i, c.j, c.k};
            m[d] -= 1; p[d] += 1;
            KV_double_1d const dx = d == 0 ? grid.dx0 : d == 1 ? grid.dx1 : grid.dx2;
            long x = d == 0 ? c.i : d == 1 ? c.j : c.k;
            double const w = dx(x), hl = (w + dx(x - 1)) / 2, hr = (w + dx(x + 1)) / 2;
            auto face = [&](double vl, double v, double vr, int side) { return v + (side == 0 ? -1 : 1) * (w / 2) * lim((vr - v) / hr, (v - vl) / hl); };
            for (int s = 0; s < 2; ++s) {
#if PROP == 8
                EulerPrim q;
                q.rho = face(rho(m[0], m[1], m[2]), rho(AT(c)), rho(p[0], p[1], p[2]), s);
                q.P = face(P(m[0], m[1], m[2]), P(AT(c)), P(p[0], p[1], p[2]), s);
                for (int e = 0; e < ndim; ++e) q.u[e] = face(u(m[0], m[1], m[2], e), u(AT(c), e), u(p[0], p[1], p[2], e), s);
                EulerCons const k = to_cons(q, eos);
                vc_eq("face pressure", P_rec(AT(c), s, d), q.P);
                for (int e = 0; e < ndim; ++e) vc_eq("face velocity", u_rec(AT(c), s, d, e), q.u[e]);
                vc_eq("face density", rec.rho(AT(c), s, d), k.rho);
                for (int e = 0; e < ndim; ++e) vc_eq("face momentum is the one of the reconstructed primitive state", rec.rhou(AT(c), s, d, e), k.rhou[e]);
                vc_eq("face energy is the one of the reconstructed primitive state", rec.E(AT(c), s, d), k.E);
#else
                long f = vc_int("ifx", 0, nfx - 1);
                vc_eq("face scalar", rec.fx(AT(c), s, d, f), face(fx(m[0], m[1], m[2], f), fx(AT(c), f), fx(p[0], p[1], p[2], f), s));
#endif
            }
        }
        vc_cover("inside");
    }
}
