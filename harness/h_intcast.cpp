// C20: checked integer conversion, every pair of standard integer types
#include <vc.h>
#include <climits>
#include <limits>
#include <int_cast.hpp>
using hclpp::int_cast;
namespace {
typedef __int128 Z;
template <class T> T arbitrary()
{
#ifdef VC_NATIVE
    // the ends of the types and their neighbours are the interesting values
    Z const ends[] = {0, -1, SCHAR_MIN, SCHAR_MAX, UCHAR_MAX, SHRT_MIN, SHRT_MAX, USHRT_MAX, INT_MIN, INT_MAX, UINT_MAX, LONG_MIN, LONG_MAX, static_cast<Z>(ULONG_MAX)};
    return static_cast<T>(static_cast<unsigned long>(ends[vc_int("end", 0, 1000003) % 14] + vc_int("near", -2, 2)));
#else
    return static_cast<T>(vc_int("value", std::numeric_limits<long>::min(), std::numeric_limits<long>::max()));
#endif
}
template <class R, class T> void pair()
{
    T const t = arbitrary<T>();
    Z const z = t;
    bool const representable = z >= static_cast<Z>(std::numeric_limits<R>::min()) && z <= static_cast<Z>(std::numeric_limits<R>::max());
    bool thrown = false;
    Z r = 0;
    try {
        r = int_cast<R>(t);
    } catch (std::exception const&) {
        thrown = true;
    }
    if (representable) {
        vc_assert("a representable value is converted", !thrown);
        vc_assert("the value is preserved", thrown || r == z);
        vc_cover("representable");
    } else {
        vc_assert("a value that does not fit is reported", thrown);
    }
}
template <class R> void to()
{
    pair<R, signed char>(); pair<R, short>(); pair<R, int>(); pair<R, long>(); pair<R, long long>();
    pair<R, unsigned char>(); pair<R, unsigned short>(); pair<R, unsigned>(); pair<R, unsigned long>(); pair<R, unsigned long long>();
}
}
VC_HARNESS
{
    vc_opt("exact_ints", 1);
#if SHARD == 0
    to<int>(); to<unsigned>();
#elif SHARD == 1
    to<long>(); to<unsigned long>();
#elif SHARD == 2
    to<short>(); to<unsigned short>(); to<signed char>();
#else
    to<unsigned char>(); to<long long>(); to<unsigned long long>();
#endif
}
