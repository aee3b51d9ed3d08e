// The MPI environment wrapper.  Never run: it is only parsed.
#include <cstddef>
#include <string>
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/error.hpp"

namespace nfprobe
{
using NeoFOAM::mpi::MPIEnvironment;
using NeoFOAM::mpi::MPIInit;
inline MPIEnvironment makeEnv(MPI_Comm c) { return MPIEnvironment(c); }
inline MPIEnvironment makeWorld() { return MPIEnvironment(); }
inline MPI_Comm nullComm() { return MPI_COMM_NULL; }
inline int threadMultiple() { return MPI_THREAD_MULTIPLE; }
inline MPI_Comm worldComm() { return MPI_COMM_WORLD; }
inline std::size_t rankOf(const MPIEnvironment& e) { return e.rank(); }
inline std::size_t sizeOf(const MPIEnvironment& e) { return e.sizeRank(); }
inline MPI_Comm commOf(const MPIEnvironment& e) { return e.comm(); }
inline MPIEnvironment copyOf(const MPIEnvironment& e) { return MPIEnvironment(e); }
inline void errorExit(const std::string& m) { NF_ERROR_EXIT(m); }
inline void initScope(int argc, char** argv) { MPIInit guard(argc, argv); }
}
