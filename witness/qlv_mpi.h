// Environment model of MPI for one rank: `qlv_mpi` fixes rank and size; a collective delivers what the other ranks
// contribute (arbitrary values set by the obligation) and records how it was called.
#ifndef QLV_MPI_MODEL_H
#define QLV_MPI_MODEL_H
#include "qlv.h"
#include "qlv_std.h"
#include "mpi.h"
extern "C" void qlv_bad_mpi_call() noexcept __attribute__((noreturn));   // a call no correct program makes: a violation
#ifndef QLV_MPI_SLOTS
#define QLV_MPI_SLOTS 8
#endif
namespace qlv {
struct MpiEnv {
  int rank, size; MPI_Comm comm;
  double remote[3][QLV_MPI_SLOTS];            // what rank 1, 2, (3) contribute: rank r slot k  (numbers)
  int n_coll;                                  // collectives entered
  int sent; double sent_v[QLV_MPI_SLOTS];      // last numeric contribution of this rank
};
static MpiEnv me;
static inline void StartMpi(int rank, int size, MPI_Comm c) { me.rank = rank; me.size = size; me.comm = c; me.n_coll = 0; me.sent = -1; }
static inline int WordsOf(MPI_Datatype t) { return t == MPI_DOUBLE ? 1 : t == MPI_CXX_DOUBLE_COMPLEX ? 2 : 0; }
}  // namespace qlv
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (c != qlv::me.comm) qlv_bad_mpi_call(); *r = qlv::me.rank; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm c, int *r) { if (c != qlv::me.comm) qlv_bad_mpi_call(); *r = qlv::me.size; return MPI_SUCCESS; }
#endif
