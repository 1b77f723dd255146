// contract of PDI: an event shares data by name, each with its direction
#pragma once
#include <vc.h>
#include <paraconf.h>
typedef enum PDI_inout_e { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
typedef int PDI_status_t;
#define PDI_OK 0
namespace vcpdi {
void event(char const* name); // defined by the harness
void shared(char const* name, void const* data, PDI_inout_t dir);
void done(char const* name);
inline void share_all(decltype(nullptr)) {}
template <class... A> void share_all(char const* name, void const* data, PDI_inout_t dir, A... rest)
{
    shared(name, data, dir);
    share_all(rest...);
}
} // namespace vcpdi
template <class... A> PDI_status_t PDI_multi_expose(char const* ev, A... rest)
{
    vcpdi::event(ev);
    vcpdi::share_all(rest...);
    vcpdi::done(ev);
    return PDI_OK;
}
inline PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t dir) { vcpdi::event(name); vcpdi::shared(name, data, dir); vcpdi::done(name); return PDI_OK; }
inline PDI_status_t PDI_event(char const* name) { vcpdi::event(name); vcpdi::done(name); return PDI_OK; }
inline PDI_status_t PDI_init(PC_tree_t) { return PDI_OK; }
inline PDI_status_t PDI_finalize() { return PDI_OK; }
