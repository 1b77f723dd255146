// contracts of the MPI topology functions: an arbitrary process grid D and an arbitrary process C of it
#pragma once
#include <mpi_contract.hpp>
#include <ndim.hpp>
namespace vcmpi {
inline long D[3], C[3];
inline bool cart_made = false;
inline void choose_process_grid()
{
    char const* nd[] = {"D0", "D1", "D2"};
    for (int d = 0; d < 3; ++d) D[d] = d < hclpp::ndim ? vc_int(nd[d], 1, vc_native() ? 4 : 100000) : 1;
    cart_made = false;
}
inline void choose_process()
{
    char const* nc[] = {"C0", "C1", "C2"};
    for (int d = 0; d < 3; ++d) C[d] = vc_int(nc[d], 0, D[d] - 1);
}
} // namespace vcmpi
extern "C" {
inline int MPI_Comm_size(MPI_Comm c, int* n)
{
    vc_assert("the size of a valid communicator is asked", c == MPI_COMM_WORLD || c == vcmpi::comm_cart);
    *n = static_cast<int>(vcmpi::D[0] * vcmpi::D[1] * vcmpi::D[2]);
    return 0;
}
inline int MPI_Comm_rank(MPI_Comm c, int* r)
{
    vc_assert("the rank in a valid communicator is asked", c == vcmpi::comm_cart);
    *r = static_cast<int>((vcmpi::C[0] * vcmpi::D[1] + vcmpi::C[1]) * vcmpi::D[2] + vcmpi::C[2]);
    return 0;
}
// chooses the dimensions left open so that their product is the number of processes
inline int MPI_Dims_create(int n, int nd, int* dims)
{
    vc_assert("the whole world is distributed", n == vcmpi::D[0] * vcmpi::D[1] * vcmpi::D[2]);
    vc_assert("the active dimensions are distributed", nd == hclpp::ndim);
    for (int d = 0; d < hclpp::ndim; ++d) {
        vc_assert("a dimension is open or as configured", dims[d] == 0 || dims[d] == vcmpi::D[d]);
        dims[d] = static_cast<int>(vcmpi::D[d]);
    }
    return 0;
}
inline int MPI_Cart_create(MPI_Comm c, int nd, int const* dims, int const* periods, int, MPI_Comm* out)
{
    vc_assert("the process grid covers the world", c == MPI_COMM_WORLD && nd == 3);
    for (int d = 0; d < 3; ++d) {
        vc_assert("the process grid has one cell per process", dims[d] == vcmpi::D[d]);
        vc_assert("the process grid is periodic", periods[d] != 0);
    }
    vcmpi::cart_made = true;
    *out = vcmpi::comm_cart;
    return 0;
}
inline int MPI_Cart_coords(MPI_Comm c, int rank, int nd, int* coords)
{
    vc_assert("coordinates in the process grid are asked", c == vcmpi::comm_cart && vcmpi::cart_made && nd == 3);
    vc_assert("the coordinates are those of this process", rank == (vcmpi::C[0] * vcmpi::D[1] + vcmpi::C[1]) * vcmpi::D[2] + vcmpi::C[2]);
    for (int d = 0; d < 3; ++d) coords[d] = static_cast<int>(vcmpi::C[d]);
    return 0;
}
inline int MPI_Cart_sub(MPI_Comm c, int const* remain, MPI_Comm* out)
{
    vc_assert("the horizontal communicator joins the processes of one shell", c == vcmpi::comm_cart && remain[0] == 0 && remain[1] != 0 && remain[2] != 0);
    *out = vcmpi::comm_horizontal;
    return 0;
}
inline int MPI_Comm_free(MPI_Comm* c)
{
    vc_assert("a valid communicator is freed", *c == vcmpi::comm_cart || *c == vcmpi::comm_horizontal);
    *c = MPI_COMM_NULL;
    return 0;
}
}
