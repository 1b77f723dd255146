// C27: the kernels of the shipped problem setups
#include <hydro_common.hpp>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <range.cpp>
#include <eos.hpp>
#include <perfect_gas.cpp>
#include <rad_gas.cpp>
#include <grid_type.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <boundary.cpp>
#include <default_user_step.hpp>
#define STR1(s) #s
#define STR(s) STR1(s)
#define FILE_OF(s) STR(setups/s/setup.hpp)
#include FILE_OF(SETUP)
using namespace hclpp;
int MPI_Bcast(void* d, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    vc_assert("broadcasts of a setup are made by every process of the grid, from its first process", root == 0 && t == MPI_DOUBLE && c != MPI_COMM_NULL);
    if (n > 16) vc_assert("broadcasts of a setup are short", false);
    for (int k = 0; k < n; ++k) static_cast<double*>(d)[k] = vc_real("broadcast value");
    return 0;
}
template <class B> concept HasBoundary = requires(B const& b, int i, EOS const& e, ParamSetup const& p) { B(i, i, e, p); };
VC_HARNESS
{
    AnyGrid ag(make_box(2));
    Grid const& grid = ag.grid;
    Box const& b = ag.b;
    vc_opt("div", 0);
    ag.grid.mpi_rank = vc_bool("first process") ? 0 : 1;
    long const NF = NFX;
    auto const rho = vc_in<KV_double_3d>("rho", 0, b.n[0], b.n[1], b.n[2]), P = vc_in<KV_double_3d>("P", 0, b.n[0], b.n[1], b.n[2]);
    auto const u = vc_in<KV_double_4d>("u", 0, b.n[0], b.n[1], b.n[2], ndim), fx = vc_in<KV_double_4d>("fx", 0, b.n[0], b.n[1], b.n[2], NF);
    union U { ParamSetup p; U() {} ~U() {} } ps;
    double* const w = reinterpret_cast<double*>(&ps);
    for (unsigned k = 0; k < sizeof(ParamSetup) / sizeof(double); ++k) w[k] = vc_real("parameter");
    EOS const eos(1.4, 1.);
    InitializationSetup<AbsGravity> const init(eos, ps.p, AbsGravity {});
    init.execute(grid.range.no_ghosts(), grid, rho, u, P, fx);
    vc_cover("after the initialisation");
    ag.unchanged();
    if constexpr (!std::is_abstract_v<BoundarySetup<AbsGravity>> && HasBoundary<BoundarySetup<AbsGravity>>) {
        for (int dim = 0; dim < ndim; ++dim)
            for (int face = 0; face < 2; ++face) {
                try {
                    BoundarySetup<AbsGravity> const bc(dim, face, eos, ps.p);
                    bc.execute(grid, AbsGravity {}, rho, u, P, fx);
                    vc_cover("after the boundary");
                } catch (std::exception const&) {}
            }
        ag.unchanged();
    }
}
