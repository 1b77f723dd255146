// C06: slope limiters
#include <contracts.hpp>
#include <slope_limiters.hpp>
#include <type_traits>
using namespace hclpp;
#ifndef LIM
#define LIM VanLeer
#endif
static double ab(double x) { return x < 0 ? -x : x; }
VC_HARNESS
{
    LIM lim;
    double a = vc_real("a"), b = vc_real("b"), s = vc_real("s");
    double y = lim(a, b);
    bool const constant = std::is_same_v<LIM, Constant>;
    vc_eq("symmetric in its two slopes", lim(b, a), y);
    vc_eq("odd", lim(-a, -b), -y);
    vc_eq("homogeneous", lim(s * a, s * b), s * y);
    vc_eq("a common slope is returned unchanged", lim(a, a), constant ? 0 : a);
    if (constant) { vc_eq("the constant limiter is zero", y, 0); return; }
    if (a * b <= 0) {
        vc_eq("zero when the slopes disagree in sign or one vanishes", y, 0);
        vc_cover("disagree");
    } else {
        double m = ab(a) < ab(b) ? ab(a) : ab(b), M = ab(a) < ab(b) ? ab(b) : ab(a);
        vc_assert("has the common sign", y * a > 0);
        if (std::is_same_v<LIM, Minmod>) vc_le("minmod: at most the smaller slope", ab(y), m);
        if (std::is_same_v<LIM, VanLeer>) { vc_le("van Leer: at most twice the smaller slope", ab(y), 2 * m); vc_le("van Leer: at most the larger slope", ab(y), M); }
        if (std::is_same_v<LIM, VanAlbada>) { vc_le("van Albada: at most twice the smaller slope", ab(y), 2 * m); vc_le("van Albada: at most the larger slope", ab(y), M); }
        vc_cover("agree");
    }
}
