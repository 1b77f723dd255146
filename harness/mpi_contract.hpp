// contracts of the MPI callees (assumed): a reduction combines this process's value with an arbitrary contribution of the others
#pragma once
#include <vc.h>
#include <mpi.h>
#include <kokkos_shortcut.hpp>
extern "C" long __vk_from_data(void*); // handle of the array whose data() this is, 0 for ordinary memory
namespace vcmpi {
inline constexpr int comm_cart = 91, comm_horizontal = 92;
struct Red { int op, comm, count; double local, others, result; };
inline int nred = 0;
inline Red red[8] = {};
inline double combine(int op, double a, double b) { return op == MPI_SUM ? a + b : op == MPI_MIN ? (b < a ? b : a) : (a < b ? b : a); }
// what an array reduction makes of one element; the contribution of the other ranks is an arbitrary function of communicator and element
inline double all_ranks(int op, int comm, double x) { return combine(op, x, vc_f("others", op, comm, x)); }
} // namespace vcmpi
extern "C" {
inline int MPI_Allreduce(void const* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    vc_assert("reductions are over doubles", t == MPI_DOUBLE);
    vc_assert("reductions use a valid communicator", c != MPI_COMM_NULL);
    vcmpi::Red& e = vcmpi::red[vcmpi::nred];
    vcmpi::nred = vcmpi::nred + 1;
    e.op = op; e.comm = c; e.count = n;
    long h = __vk_from_data(r);
    if (h == 0) {
        vc_assert("a scalar reduction has one element", n == 1);
        double* p = static_cast<double*>(r);
        if (s != MPI_IN_PLACE) *p = *static_cast<double const*>(s);
        e.local = *p;
        e.others = vc_real("others");
        e.result = vcmpi::combine(op, e.local, e.others);
        *p = e.result;
    } else {
        hclpp::KV_double_1d v(hclpp::KV_double_1d::HandleTag {}, h);
        vc_assert("array reductions are in place", s == MPI_IN_PLACE);
        vc_assert("an array reduction covers the whole array", n == v.extent_int(0));
        Kokkos::parallel_for("MPI_Allreduce", Kokkos::RangePolicy<>(0, n), [=](int i) { v(i) = vcmpi::all_ranks(op, c, v(i)); });
    }
    return 0;
}
inline int MPI_Barrier(MPI_Comm) { return 0; }
}
