#ifndef QLV_QLTEN_MPI_FUN_H
#define QLV_QLTEN_MPI_FUN_H
#include <complex>
#include "mpi.h"
// the tensor library's macro ends the process on an MPI error
#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(x) do { const int qlv_mpi_err = (x); (void)qlv_mpi_err; } while (0)
#endif
namespace qlten {
template <class T> struct RealTypeTrait { typedef T type; };
template <class T> struct RealTypeTrait<std::complex<T>> { typedef T type; };
namespace hp_numeric {
const int kMPIMasterRank = 0;
template <class T> inline MPI_Datatype GetMPIDataType();
template <> inline MPI_Datatype GetMPIDataType<double>() { return MPI_DOUBLE; }
template <> inline MPI_Datatype GetMPIDataType<float>() { return MPI_FLOAT; }
template <> inline MPI_Datatype GetMPIDataType<std::complex<double>>() { return MPI_CXX_DOUBLE_COMPLEX; }
template <> inline MPI_Datatype GetMPIDataType<std::complex<float>>() { return MPI_CXX_FLOAT_COMPLEX; }
}  // namespace hp_numeric
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
}  // namespace qlten
#endif
