// Native runtime of the contract language: runs a harness (the same text the VC generator interprets) on concrete inputs,
// to replay the verifier's counterexamples on the real code and to look for a failing input when it gives none.
#include "vc.h"
#include <ctime>
#include <csetjmp>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <cxxabi.h>

namespace vcn {
struct Storage { int rank, kind; long ext[6]; std::vector<unsigned char> data, init; std::string label; long size() const { long n = 1; for (int d = 0; d < rank; ++d) n *= ext[d]; return n; } };
struct View { int sto; int rank; long ext[6]; long stride[6]; long off; };
std::vector<Storage*> stos;
std::vector<View> views;
std::mt19937_64 rng;
std::map<std::string, double> over; // overriding values (from the verifier's model)
bool use_over = false;
std::string log_;
std::map<std::string, int> names;
jmp_buf jb;
std::string failure;
bool finite_only = true;
int kernel_depth = 0;
long covers = 0;
std::map<std::string, long> cov;
bool in_trial = false;
double maxin = 0; // largest input of the trial

double U() { return std::uniform_real_distribution<double>(0, 1)(rng); }
long I(long lo, long hi) { return std::uniform_int_distribution<long>(lo, hi)(rng); }
[[noreturn]] void fail(std::string const& what) { if (!in_trial) { std::fprintf(stderr, "%s\n", what.c_str()); _exit(4); } failure = what; longjmp(jb, 2); }
[[noreturn]] void reject() { longjmp(jb, 1); }
std::string uniq(char const* n) { int& k = names[n]; ++k; return k == 1 ? n : std::string(n) + "#" + std::to_string(k); }
void note(std::string const& n, std::string const& v) { if (log_.size() < 100000) log_ += "  " + n + " = " + v + "\n"; }
std::string num(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
int esize(int kind) { return kind == 0 ? 8 : kind == 1 ? 4 : kind == 2 ? 8 : 1; }
void put(int kind, unsigned char* p, double v)
{
    if (kind == 0) { std::memcpy(p, &v, 8); }
    else if (kind == 1) { int x = static_cast<int>(v); std::memcpy(p, &x, 4); }
    else if (kind == 2) { long x = static_cast<long>(v); std::memcpy(p, &x, 8); }
    else *p = v != 0;
}
double get(int kind, unsigned char const* p)
{
    if (kind == 0) { double v; std::memcpy(&v, p, 8); return v; }
    if (kind == 1) { int v; std::memcpy(&v, p, 4); return v; }
    if (kind == 2) { long v; std::memcpy(&v, p, 8); return static_cast<double>(v); }
    return *p;
}
double rnd(int flags)
{
    double r = U();
    double x;
    if (flags & 4) return r < 0.1 ? 0 : r < 0.2 ? 1 : U();
    maxin = maxin > 3 ? maxin : 3;
    if (r < 0.55) x = 0.25 + 1.75 * U();
    else if (r < 0.75) x = static_cast<double>(I(1, 4)) / static_cast<double>(I(1, 2));
    else if (r < 0.9) x = 0.01 + 10 * U();
    else x = std::pow(10., -2 + 4 * U());
    if (x > maxin) maxin = x;
    if (flags & 1) return x;
    if (U() < 0.08) return 0;
    if (flags & 2) return x;
    return U() < 0.5 ? -x : x;
}
long mk(char const* label, int rank, int kind, long const* e)
{
    auto* s = new Storage;
    s->rank = rank; s->kind = kind; s->label = label ? label : "";
    long n = 1;
    for (int d = 0; d < rank; ++d) { if (e[d] < 0 || e[d] > 100000) reject(); s->ext[d] = e[d]; n *= e[d]; }
    if (n > 2000000) reject();
    s->data.assign(static_cast<std::size_t>(n * esize(kind)) + 8, 0);
    stos.push_back(s);
    View v {};
    v.sto = static_cast<int>(stos.size()) - 1; v.rank = rank; v.off = 0;
    long st = 1;
    for (int d = rank - 1; d >= 0; --d) { v.ext[d] = e[d]; v.stride[d] = st; st *= e[d]; }
    views.push_back(v);
    return static_cast<long>(views.size());
}
View& V(long h) { if (h < 1 || h > static_cast<long>(views.size())) fail("access to an unallocated view"); return views[static_cast<std::size_t>(h - 1)]; }
unsigned char* at(long h, int rank, long const* i)
{
    View& v = V(h);
    long o = v.off;
    for (int d = 0; d < rank; ++d) {
        if (i[d] < 0 || i[d] >= v.ext[d]) fail("array access out of bounds: " + stos[v.sto]->label + " index " + std::to_string(i[d]) + " of dimension " + std::to_string(d) + ", extent " + std::to_string(v.ext[d]));
        o += i[d] * v.stride[d];
    }
    Storage& s = *stos[v.sto];
    if (o < 0 || o >= s.size()) { if (s.size() == 0 && rank == 0) fail("access to an empty array"); if (o < 0 || o >= s.size()) fail("array access out of bounds: " + s.label); }
    return s.data.data() + o * esize(s.kind);
}
template <class F> void loop(int rank, long const* lo, long const* hi, int order, F f)
{
    std::vector<std::array<long, 6>> it;
    std::array<long, 6> c {};
    for (int d = 0; d < rank; ++d) { if (lo[d] >= hi[d]) return; c[d] = lo[d]; }
    while (true) {
        it.push_back(c);
        if (it.size() > 4000000) reject();
        int d = rank - 1;
        while (d >= 0 && ++c[d] >= hi[d]) { c[d] = lo[d]; --d; }
        if (d < 0) break;
    }
    if (order == 1) std::reverse(it.begin(), it.end());
    if (order == 2) std::shuffle(it.begin(), it.end(), rng);
    for (auto const& x : it) f(x);
}
std::vector<std::vector<unsigned char>> snap() { std::vector<std::vector<unsigned char>> r; for (auto* s : stos) r.push_back(s->data); return r; }
void restore(std::vector<std::vector<unsigned char>> const& r) { for (std::size_t i = 0; i < r.size(); ++i) stos[i]->data = r[i]; }
bool close(double a, double b, double sc)
{
    if (a == b) return true;
    if (a != a || b != b) return a != a && b != b;
    double m = std::fabs(a) + std::fabs(b);
    return std::fabs(a - b) <= 1e-7 * m + 1e-8 * (sc != 0 ? std::fabs(sc) : 1 + maxin);
}
void fresh()
{
    for (auto* s : stos) delete s;
    stos.clear(); views.clear(); names.clear(); log_.clear(); failure.clear();
    finite_only = true; kernel_depth = 0; maxin = 0;
}
} // namespace vcn
using namespace vcn;

extern "C" {
double vc_real_flags(char const* name, int flags)
{
    std::string n = uniq(name);
    double x;
    auto it = over.find(n);
    if (use_over && it != over.end()) x = it->second;
    else if (!finite_only && U() < 0.4) { double s[] = {NAN, INFINITY, -INFINITY, 0, 1}; x = s[I(0, 4)]; }
    else x = rnd(flags);
    note(n, num(x));
    return x;
}
double vc_real(char const* name) { return vc_real_flags(name, 0); }
double vc_choose(char const* name, double lo, double hi)
{
    std::string n = uniq(name);
    auto it = over.find(n);
    double x = use_over && it != over.end() ? it->second : lo + (hi - lo) * U();
    if (!(x >= lo && x <= hi)) x = lo + (hi - lo) * U();
    note(n, num(x));
    return x;
}
long vc_int(char const* name, long lo, long hi)
{
    if (lo > hi) reject();
    std::string n = uniq(name);
    long x;
    auto it = over.find(n);
    if (use_over && it != over.end()) { x = static_cast<long>(it->second); if (x < lo || x > hi) reject(); }
    else {
        double r = U();
        long base = lo > 0 || hi < 0 ? lo : 0;
        if (r < 0.9) x = base + I(0, std::min(hi - base, 4L));
        else if (r < 0.96 && lo < 0) x = -I(1, std::min(-lo, 4L));
        else if (r < 0.99 || hi - lo < 12) x = lo + I(0, std::min(hi - lo, 12L));
        else x = I(lo, hi);
    }
    note(n, std::to_string(x));
    return x;
}
bool vc_bool(char const* name)
{
    std::string n = uniq(name);
    auto it = over.find(n);
    bool x = use_over && it != over.end() ? it->second != 0 : U() < 0.5;
    note(n, x ? "true" : "false");
    return x;
}
void vc_assume(bool c) { if (!c) reject(); }
void vc_assert(char const* name, bool c) { if (!c) fail(name); }
void vc_assert_eq(char const* name, double a, double b, double sc) { if (!close(a, b, sc)) fail(std::string(name) + ": " + num(a) + " is not " + num(b)); }
void vc_assert_le(char const* name, double a, double b, double sc) { if (!(a <= b) && !close(a, b, sc)) fail(std::string(name) + ": " + num(a) + " is not at most " + num(b)); }
void vc_cover(char const* name) { ++cov[name]; }
double vc_uf(char const* name, int n, double a0, double a1, double a2, double a3, double a4, double a5, double a6, double a7, double a8, double a9, double a10, double a11)
{
    double a[12] = {a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11};
    std::string s = name;
    // one concrete instance of the abstract equation of state (gamma = 3/2), exact in binary
    if (s == "evol_from_pres") return 2 * a[1];
    if (s == "pres_from_evol") return a[1] / 2;
    if (s == "sound") return std::sqrt(1.5 * a[1] / a[0]);
    if (s == "temp_from_evol") return a[1] / 2 / a[0] * 3;
    if (s == "temp_from_pres") return a[1] / a[0] * 3;
    if (s == "evol_from_temp") return 2 * a[1] * a[0] / 3;
    if (s == "pres_from_temp") return a[1] * a[0] / 3;
    if (s == "gamma") return 1.5;
    if (s == "mmw") return 1.25;
    // any other symbol: a fixed smooth function of its arguments
    unsigned long h = 1469598103934665603UL;
    for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211UL;
    double r = static_cast<double>(h % 1000) / 1000.;
    for (int k = 0; k < n; ++k) {
        h = h * 6364136223846793005UL + 1442695040888963407UL;
        double w = static_cast<double>((h >> 33) % 2000) / 1000. - 1;
        h = h * 6364136223846793005UL + 1442695040888963407UL;
        double q = static_cast<double>((h >> 33) % 2000) / 4000. - 0.25;
        r += w * a[k] + q * a[k] / (1 + a[k] * a[k]);
    }
    return r;
}
long vc_view(char const* name, int rank, int kind, int flags, long e0, long e1, long e2, long e3, long e4, long e5)
{
    long e[6] = {e0, e1, e2, e3, e4, e5};
    std::string n = uniq(name);
    long h = mk(n.c_str(), rank, kind, e);
    Storage& s = *stos.back();
    double acc = rnd(0);
    bool uni = U() < 0.1;
    double u0 = rnd(flags);
    std::string t;
    for (long i = 0; i < s.size(); ++i) {
        double v;
        if (flags & 8) { acc += 0.1 + U(); v = acc; if (flags & 1) v = acc = acc <= 0 ? 0.05 + U() : acc; }
        else if (kind == 1 || kind == 2) v = static_cast<double>(I(-3, 3));
        else if (kind == 3) v = U() < 0.5;
        else v = uni ? u0 : rnd(flags);
        put(kind, s.data.data() + i * esize(kind), v);
        if (i < 64) t += (i ? ", " : "") + num(v);
    }
    s.init = s.data;
    note(n + "[" + std::to_string(s.size()) + "]", "{" + t + (s.size() > 64 ? ", ..." : "") + "}");
    return h;
}
void vc_focus(int, long, long, long) {}
void vc_loop_contract(char const*, void const*, bool (*)(void const*, double)) {}
void vc_use_contract(char const*, void const*, bool (*)(void const*, double)) {}
void vc_definite(long) {}
long vc_loop_count() { return 1000; }
long vc_opt(char const* n, long v) { if (!std::strcmp(n, "finite")) { finite_only = v != 0; } return 0; }
long vc_reduce_count() { return 0; }
int vc_native() { return 1; }
void vc_uf_contract(char const*, int) {}
void vc_array_eq(char const* name, long h1, long h2)
{
    View a = V(h1), b = V(h2);
    long z[6] = {}, hi[6] = {1, 1, 1, 1, 1, 1};
    for (int d = 0; d < a.rank; ++d) { if (a.ext[d] != b.ext[d]) fail(std::string(name) + ": extents differ"); hi[d] = a.ext[d]; }
    loop(a.rank, z, hi, 0, [&](std::array<long, 6> const& i) {
        double x = get(stos[a.sto]->kind, at(h1, a.rank, i.data())), y = get(stos[b.sto]->kind, at(h2, b.rank, i.data()));
        if (!close(x, y, 0)) fail(std::string(name) + ": " + num(x) + " is not " + num(y));
    });
}
void vc_unchanged(char const* name, long h) { Storage& s = *stos[V(h).sto]; if (s.data != s.init) fail(std::string(name) + ": content of " + s.label + " changed"); }
double vc_init_at(long h, int rank, long i0, long i1, long i2, long i3, long i4, long i5)
{
    long i[6] = {i0, i1, i2, i3, i4, i5};
    unsigned char* p = at(h, rank, i);
    Storage& s = *stos[V(h).sto];
    return get(s.kind, s.init.data() + (p - s.data.data()));
}
bool vc_same_storage(long a, long b) { return V(a).sto == V(b).sto; }
void vc_string(void* p, char const* name);

long __vk_alloc(char const* label, int rank, int kind, long e0, long e1, long e2, long e3, long e4, long e5) { long e[6] = {e0, e1, e2, e3, e4, e5}; long h = mk(label, rank, kind, e); stos.back()->init = stos.back()->data; return h; }
void* __vk_ref(long h, int rank, long i0, long i1, long i2, long i3, long i4, long i5)
{
    long i[6] = {i0, i1, i2, i3, i4, i5};
    if (rank < 0) { View& v = V(h); return stos[v.sto]->data.data() + v.off * esize(stos[v.sto]->kind); }
    return at(h, rank, i);
}
long __vk_from_data(void* p)
{
    // the largest view starting there (a view of no element may alias another)
    long best = 0, size = -1;
    for (std::size_t k = views.size(); k-- > 0;) {
        View& v = views[k];
        Storage& s = *stos[v.sto];
        if (v.rank <= 0 || static_cast<unsigned char*>(p) != s.data.data() + v.off * esize(s.kind)) continue;
        long n = 8 + v.rank;
        for (int d = 0; d < v.rank; ++d) n *= v.ext[d];
        if (n > size) { size = n; best = static_cast<long>(k + 1); }
    }
    return best;
}
long __vk_extent(long h, int d) { if (h == 0) return 0; return V(h).ext[d]; }
long __vk_subview(long h, int n, int const* kinds, long const* a, long const* b)
{
    View v = V(h), r {};
    r.sto = v.sto; r.off = v.off;
    for (int d = 0; d < n; ++d) {
        if (kinds[d] == 1) { if (a[d] < 0 || a[d] >= v.ext[d]) fail("subview index out of bounds"); r.off += a[d] * v.stride[d]; continue; }
        long lo = kinds[d] == 0 ? 0 : a[d], hi = kinds[d] == 0 ? v.ext[d] : b[d];
        if (lo < 0 || hi > v.ext[d] || lo > hi) fail("subview bounds outside the array");
        r.off += lo * v.stride[d]; r.ext[r.rank] = hi - lo; r.stride[r.rank++] = v.stride[d];
    }
    views.push_back(r);
    return static_cast<long>(views.size());
}
void __vk_deep_copy(long dst, long src)
{
    if (dst == 0 && src == 0) return;
    View a = V(dst), b = V(src);
    long z[6] = {}, hi[6] = {1, 1, 1, 1, 1, 1};
    for (int d = 0; d < a.rank; ++d) { if (a.ext[d] != b.ext[d]) fail("deep_copy between arrays of different extents"); hi[d] = a.ext[d]; }
    std::vector<double> t;
    loop(a.rank, z, hi, 0, [&](std::array<long, 6> const& i) { t.push_back(get(stos[b.sto]->kind, at(src, b.rank, i.data()))); });
    std::size_t k = 0;
    loop(a.rank, z, hi, 0, [&](std::array<long, 6> const& i) { put(stos[a.sto]->kind, at(dst, a.rank, i.data()), t[k++]); });
}
void __vk_fill(long dst, double x)
{
    View a = V(dst);
    long z[6] = {}, hi[6] = {1, 1, 1, 1, 1, 1};
    for (int d = 0; d < a.rank; ++d) hi[d] = a.ext[d];
    loop(a.rank, z, hi, 0, [&](std::array<long, 6> const& i) { put(stos[a.sto]->kind, at(dst, a.rank, i.data()), x); });
}
char const* __vk_label(long h) { return h ? stos[V(h).sto]->label.c_str() : ""; }
void __vk_parallel_for(char const* name, int rank, long const* lo, long const* hi, void const* f, void (*tramp)(void const*, long, long, long, long, long, long))
{
    auto run = [&](int order) { loop(rank, lo, hi, order, [&](std::array<long, 6> const& i) { tramp(f, i[0], i[1], i[2], i[3], i[4], i[5]); }); };
    auto s = snap();
    run(0);
    auto r1 = snap();
    for (int order = 1; order < 3; ++order) {
        restore(s);
        run(order);
        for (std::size_t q = 0; q < r1.size(); ++q) if (stos[q]->data != r1[q]) fail("the result of kernel '" + std::string(name) + "' on array " + stos[q]->label + " depends on the execution order");
    }
}
void __vk_reduce(char const* name, int rank, long const* lo, long const* hi, void const* f, void (*tramp)(void const*, double*, long, long, long, long, long, long), int nred, int const* ops, double* results)
{
    double acc[8];
    for (int k = 0; k < nred; ++k) acc[k] = ops[k] == 0 ? 0 : ops[k] == 1 ? std::numeric_limits<double>::max() : std::numeric_limits<double>::lowest();
    // as a parallel reduction: partial results per half, then joined
    double part[2][8];
    for (auto& p : part) for (int k = 0; k < nred; ++k) p[k] = acc[k];
    long cnt = 0;
    loop(rank, lo, hi, 0, [&](std::array<long, 6> const& i) { tramp(f, part[cnt++ & 1], i[0], i[1], i[2], i[3], i[4], i[5]); });
    for (int k = 0; k < nred; ++k) results[k] = ops[k] == 0 ? part[0][k] + part[1][k] : ops[k] == 1 ? std::min(part[0][k], part[1][k]) : std::max(part[0][k], part[1][k]);
    (void)name;
}
void __vk_scan(char const*, long lo, long hi, void const* f, void (*tramp)(void const*, long, double*, int))
{
    double u = 0;
    for (long i = lo; i < hi; ++i) {
        double probe = u;
        tramp(f, i, &probe, 0);
        tramp(f, i, &u, 1);
        if (!close(probe, u, 0)) fail("scan: the two passes disagree");
    }
}
bool __vc_isfinite(double x) { return std::isfinite(x); }
bool __vc_isnan(double x) { return std::isnan(x); }
void __vc_assert_fail(char const* e, char const* file, int line) { fail(std::string("assertion in the code failed: ") + e + " (" + file + ":" + std::to_string(line) + ")"); }
void vc_main();
}
static std::vector<std::string> const& pool()
{
    static std::vector<std::string> p;
    if (p.empty()) {
        char const* e = std::getenv("VC_STRINGS");
        std::string s = e ? e : "", t;
        for (char c : s + "|") { if (c == '|') { if (!t.empty()) p.push_back(t); t.clear(); } else t += c; }
        p.push_back("");
        p.push_back("no such name");
    }
    return p;
}
extern "C" void vc_string(void* p, char const* name)
{
    std::string n = uniq(name);
    std::string v = pool()[static_cast<std::size_t>(I(0, static_cast<long>(pool().size()) - 1))];
    note(n, "\"" + v + "\"");
    new (p) std::string(v);
}
static void on_signal(int s)
{
    std::printf("FAIL crash: signal %d\n%s", s, log_.c_str());
    std::fflush(stdout);
    _exit(3);
}
// usage: prog SEED MAXTRIALS SECONDS [model-file]  ->  exit 0: no failing input, 3: failing input (printed), 5: no trial satisfied the preconditions
int main(int argc, char** argv)
{
    unsigned long seed = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 1;
    long maxt = argc > 2 ? std::atol(argv[2]) : 1000;
    double secs = argc > 3 ? std::atof(argv[3]) : 5;
    if (argc > 4) {
        if (FILE* f = std::fopen(argv[4], "r")) {
            char nm[512]; double v;
            while (std::fscanf(f, " %511[^\t]\t%lf", nm, &v) == 2) over[nm] = v;
            std::fclose(f);
        }
    }
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) signal(s, on_signal);
    std::set_terminate([] { std::printf("FAIL std::terminate: an exception left a function that may not throw\n%s", log_.c_str()); std::fflush(stdout); _exit(3); });
    auto wall = [] { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec); };
    double const t0 = wall();
    volatile long done = 0, rejected = 0;
    for (volatile long t = 0; t < maxt; t = t + 1) {
        if (wall() - t0 > secs) break;
        rng.seed(seed * 1000003UL + static_cast<unsigned long>(t));
        fresh();
        use_over = !over.empty() && (t % 3 == 0);
        in_trial = true;
        int r = setjmp(jb);
        if (r == 0) {
            try { vc_main(); done = done + 1; }
            catch (std::exception const& e) { failure = std::string("uncaught exception: ") + e.what(); r = 2; }
            catch (...) { failure = "uncaught exception"; r = 2; }
        }
        in_trial = false;
        if (r == 1) rejected = rejected + 1;
        if (r == 2) {
            std::printf("FAIL %s\ntrial %ld (seed %lu)\n%s", failure.c_str(), static_cast<long>(t), seed, log_.c_str());
            std::fflush(stdout);
            _exit(3);
        }
    }
    std::printf("trials %ld rejected %ld\n", static_cast<long>(done), static_cast<long>(rejected));
    for (auto const& [k, v] : cov) std::printf("cover %s %ld\n", k.c_str(), v);
    std::fflush(stdout);
    _exit(done > 0 ? 0 : 5);
}
