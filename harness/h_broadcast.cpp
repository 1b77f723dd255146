// C25: broadcasting a profile (or a constant) fills the range and nothing else
#include <contracts.hpp>
#include <range.cpp>
#include <broadcast.cpp>
using namespace hclpp;
VC_HARNESS
{
    Box b = make_box(0);
    Range const range = b.range.no_ghosts();
    long const nf = vc_int("nf", 0, 1000);
    auto prof = vc_in<KV_double_1d>("profile", 0, b.in[0]);
    double const x = vc_real("constant");
    auto a3 = vc_in<KV_double_3d>("a3", 0, b.n[0], b.n[1], b.n[2]);
    auto a4 = vc_in<KV_double_4d>("a4", 0, b.n[0], b.n[1], b.n[2], nf);
    auto p3 = vc_in<KV_double_3d>("p3", 0, b.n[0], b.n[1], b.n[2]);
    auto p4 = vc_in<KV_double_4d>("p4", 0, b.n[0], b.n[1], b.n[2], nf);
    broadcast(range, x, a3);
    broadcast(range, x, a4);
    broadcast(range, prof, p3);
    broadcast(range, prof, p4);
    vc_same("the profile is not modified", prof);
    Cell c = any_cell(b);
    bool const in = in_range(b, c, 0);
    if (in) {
        long const f0 = c.i - b.ng;
        vc_eq("constant in a cell", a3(AT(c)), x);
        vc_eq("profile in a cell", p3(AT(c)), prof(f0));
        vc_cover("inside");
    } else {
        vc_eq("constant: cells outside are not written", a3(AT(c)), vc_old(a3, AT(c)));
        vc_eq("profile: cells outside are not written", p3(AT(c)), vc_old(p3, AT(c)));
        vc_cover("outside");
    }
    if (nf > 0) {
        long const f = vc_int("f", 0, nf - 1);
        if (in) {
            vc_eq("constant in a cell of a scalar", a4(AT(c), f), x);
            vc_eq("profile in a cell of a scalar", p4(AT(c), f), prof(c.i - b.ng));
            vc_cover("scalar inside");
        } else {
            vc_eq("scalars, constant: cells outside are not written", a4(AT(c), f), vc_old(a4, AT(c), f));
            vc_eq("scalars, profile: cells outside are not written", p4(AT(c), f), vc_old(p4, AT(c), f));
            vc_cover("scalar outside");
        }
    }
}
