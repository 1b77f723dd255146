// C19: mirrored host/device arrays; every operation from every state
// The state is whatever the modification counters hold (arbitrary values), restricted to the invariant: at most one side is
// out of date, and the contents agree when none is.  Each operation must re-establish it, so it holds after every sequence.
#include <contracts.hpp>
#include <dual_view.hpp>
using namespace hclpp;
namespace {
enum Op { sync_d, sync_h, read_d, read_h, rw_d, rw_h, dw_d, dw_h, clear_, N_OPS };
template <class DV>
long apply(DV const& v, int op, int how)
{
    switch (op) {
    case sync_d: v.synchronize(device); return -1;
    case sync_h: v.synchronize(host); return -1;
    case read_d: return how == 1 ? v(device, read_only).m_h : v(device_read_only).m_h;
    case read_h: return how == 1 ? v(host, read_only).m_h : v(host_read_only).m_h;
    case rw_d: return how == 0 ? v(device).m_h : how == 1 ? v(device, read_write).m_h : v(device_read_write).m_h;
    case rw_h: return how == 0 ? v(host).m_h : how == 1 ? v(host, read_write).m_h : v(host_read_write).m_h;
    case dw_d: return how == 1 ? v(device, discard_write).m_h : v(device_discard_write).m_h;
    case dw_h: return how == 1 ? v(host, discard_write).m_h : v(host_discard_write).m_h;
    case clear_: v.clear_synchronization_state(); return -1;
    }
    return -1;
}
template <class DV>
long apply_const(DV const& v, int op)
{
    auto const c = v.const_view();
    switch (op) {
    case sync_d: c.synchronize(device); return -1;
    case sync_h: c.synchronize(host); return -1;
    case read_d: return c(device_read_only).m_h;
    case read_h: return c(host_read_only).m_h;
    case clear_: c.clear_synchronization_state(); return -1;
    }
    return -1;
}
// state: 0 nothing pending, 1 the device has modifications not yet transferred, 2 the host has
template <class DV, bool SHARED, class... N>
void step(int state, int op, int how, N... n)
{
    DV const v("array", n...);
    vc_assert("a new array has nothing pending", !v.need_synchronization(device) && !v.need_synchronization(host));
    auto const d = v(device_discard_write);
    auto const h = v(host_discard_write);
    vc_assert("shared memory is one array, distinct memory is two", vc_same_storage(d.m_h, h.m_h) == SHARED);
    auto const A = vc_in<typename DV::view_host_type>("A", 0, n...);
    auto const B = vc_in<typename DV::view_host_type>("B", 0, n...);
    Kokkos::deep_copy(d, A);
    if (!SHARED) {
        if (state == 0) Kokkos::deep_copy(h, A);
        else Kokkos::deep_copy(h, B);
    }
    // arbitrary modification counters: every array held by the object besides the two sides
    long const* const words = reinterpret_cast<long const*>(&v);
    int tries = 0;
again:
    for (unsigned w = 0; w < sizeof(DV) / sizeof(long); ++w) {
        if (words[w] == d.m_h || words[w] == h.m_h) continue;
        Kokkos::View<unsigned, Kokkos::LayoutLeft, Kokkos::HostSpace> const counter(typename Kokkos::View<unsigned, Kokkos::LayoutLeft, Kokkos::HostSpace>::HandleTag {}, words[w]);
        counter() = static_cast<unsigned>(vc_int("counter", 0, vc_native() ? 2 : 1000000000));
    }
    if (vc_native() && ++tries < 1000 && (v.need_synchronization(device) != (state == 2) || v.need_synchronization(host) != (state == 1))) goto again;
    bool const nd = v.need_synchronization(device), nh = v.need_synchronization(host);
    vc_assume(nd == (state == 2) && nh == (state == 1));
    vc_assert("at most one side is out of date", !(nd && nh));
    // the operation, on the object itself or on a copy (copies share one state)
    DV const copy(v);
    long const r = how == 3 ? apply_const(v, op) : how == 2 ? apply(copy, op, how) : apply(v, op, how);
    bool const on_d = op == sync_d || op == read_d || op == rw_d || op == dw_d;
    bool const reads = op == sync_d || op == sync_h || op == read_d || op == read_h || op == rw_d || op == rw_h;
    bool const writes = op == rw_d || op == rw_h || op == dw_d || op == dw_h;
    bool const transfers = reads && (on_d ? state == 2 : state == 1);
    int after = transfers ? 0 : state;
    if (op == clear_) after = 0;
    if (writes) after = on_d ? 1 : 2;
    vc_assert("the device is out of date exactly when the host was modified last", v.need_synchronization(device) == (after == 2));
    vc_assert("the host is out of date exactly when the device was modified last", v.need_synchronization(host) == (after == 1));
    vc_assert("a copy shares the state", copy.need_synchronization(device) == (after == 2) && copy.need_synchronization(host) == (after == 1));
    if (r != -1) vc_assert("the array of the requested side is handed out", vc_same_storage(r, on_d ? d.m_h : h.m_h));
    if (SHARED) {
        vc_array_eq("shared memory keeps its content", d.m_h, A.m_h);
    } else {
        vc_array_eq("device content: transferred exactly when it was out of date", d.m_h, transfers && on_d ? B.m_h : A.m_h);
        vc_array_eq("host content: transferred exactly when it was out of date", h.m_h, state != 0 && !(transfers && !on_d) ? B.m_h : A.m_h);
    }
    vc_cover("one operation");
}
}
VC_HARNESS
{
    int const n0 = static_cast<int>(vc_int("n0", 0, 100000)), n1 = static_cast<int>(vc_int("n1", 0, 100000));
    for (int how = 0; how < 4; ++how) {
        for (int op = 0; op < N_OPS; ++op) {
            if (how == 3 && op >= rw_d && op <= dw_h) continue; // a view of constant data has no write access
            for (int state = 0; state < 3; ++state) {
                step<DualView<double*>, false>(state, op, how, n0);
                step<DualView<double*, Kokkos::LayoutLeft, Kokkos::SharedHostPinnedSpace>, true>(state, op, how, n0);
                if (how == 0) step<DualView<double**, Kokkos::LayoutLeft>, false>(state, op, how, n0, n1);
            }
        }
    }
}
