// MPI as its callers see it; the contracts (definitions) are in harness/mpi_contract.hpp
#pragma once
#include <cstddef>
extern "C" {
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; };
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 90
#define MPI_COMM_SELF 89
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_PROC_NULL (-2)
#define MPI_DOUBLE 1
#define MPI_INT 2
#define MPI_CXX_BOOL 3
#define MPI_FLOAT 4
#define MPI_LONG 5
#define MPI_SUM 0
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_LAND 3
#define MPI_LOR 4
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Barrier(MPI_Comm);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Dims_create(int, int, int*);
int MPI_Cart_create(MPI_Comm, int, int const*, int const*, int, MPI_Comm*);
int MPI_Cart_coords(MPI_Comm, int, int, int*);
int MPI_Cart_rank(MPI_Comm, int const*, int*);
int MPI_Cart_sub(MPI_Comm, int const*, MPI_Comm*);
int MPI_Cart_shift(MPI_Comm, int, int, int*, int*);
int MPI_Allreduce(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
}
