// Declarations of the part of MPI the repository uses.  A witness unit defines the calls it models; the others stay
// external.
#ifndef QLV_MPI_H
#define QLV_MPI_H
#include <cstddef>
typedef struct qlv_comm_ *MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef struct qlv_request_ *MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
typedef ptrdiff_t MPI_Aint;
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 16
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-32766)
#define MPI_MAX_ERROR_STRING 256
enum { MPI_INT = 101, MPI_DOUBLE, MPI_CXX_DOUBLE_COMPLEX, MPI_UNSIGNED_LONG_LONG, MPI_UNSIGNED_LONG, MPI_UNSIGNED, MPI_LONG, MPI_LONG_LONG, MPI_FLOAT, MPI_CXX_FLOAT_COMPLEX, MPI_BYTE, MPI_CHAR, MPI_CXX_BOOL, MPI_C_BOOL, MPI_DOUBLE_INT, MPI_C_DOUBLE_COMPLEX, MPI_UINT64_T, MPI_INT64_T, MPI_LONG_DOUBLE };
enum { MPI_SUM = 201, MPI_MAX, MPI_MIN, MPI_BOR, MPI_BAND, MPI_LOR, MPI_LAND, MPI_PROD, MPI_MAXLOC, MPI_MINLOC };
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Abort(MPI_Comm, int);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Error_string(int, char *, int *);
#endif
