// Probe instantiations of the MPI wrappers.  Never run: only parsed.
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include "NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"

namespace nfprobe
{
using namespace NeoFOAM;
using mpi::FullDuplexCommBuffer;
using mpi::HalfDuplexCommBuffer;
using mpi::ReduceOp;

template<typename T>
void halfUse(HalfDuplexCommBuffer& b, const HalfDuplexCommBuffer& c, std::vector<size_t> n)
{
    b.setCommRankSize<T>(n);
    b.initComm<T>("x");
    (void)b.get<T>(0);
    (void)c.get<T>(0);
}
template<typename T>
void fullUse(FullDuplexCommBuffer& b, const FullDuplexCommBuffer& c)
{
    b.initComm<T>("x");
    (void)b.getSend<T>(0);
    (void)b.getReceive<T>(0);
    (void)c.getSend<T>(0);
    (void)c.getReceive<T>(0);
}
template<typename T>
void commUse(Communicator& c, Field<T>& f)
{
    c.startComm(f, "x");
    (void)c.isComplete("x");
    c.finaliseComm(f, "x");
}
void half(HalfDuplexCommBuffer& b, const HalfDuplexCommBuffer& c, std::vector<size_t> n)
{
    halfUse<double>(b, c, n);
    halfUse<int>(b, c, n);
    halfUse<char>(b, c, n);
}
void full(FullDuplexCommBuffer& b, const FullDuplexCommBuffer& c)
{
    fullUse<double>(b, c);
    fullUse<int>(b, c);
}
void comm(Communicator& c, Field<scalar>& s, Field<Vector>& v, Field<int>& i)
{
    commUse(c, s);
    commUse(c, v);
    commUse(c, i);
}
Communicator makeComm(mpi::MPIEnvironment e, CommMap s, CommMap r) { return Communicator(e, s, r); }

// the tables
template<typename T>
MPI_Datatype typeOf()
{
    return mpi::getType<T>();
}
#define NFP_TYPE(name, T, M)                                                                        \
    MPI_Datatype type_##name() { return typeOf<T>(); }                                              \
    MPI_Datatype want_##name() { return M; }
NFP_TYPE(char, char, MPI_CHAR)
NFP_TYPE(wchar, wchar_t, MPI_WCHAR)
NFP_TYPE(short, short, MPI_SHORT)
NFP_TYPE(int, int, MPI_INT)
NFP_TYPE(long, long, MPI_LONG)
NFP_TYPE(llong, long long, MPI_LONG_LONG)
NFP_TYPE(ushort, unsigned short, MPI_UNSIGNED_SHORT)
NFP_TYPE(uint, unsigned, MPI_UNSIGNED)
NFP_TYPE(ulong, unsigned long, MPI_UNSIGNED_LONG)
NFP_TYPE(ullong, unsigned long long, MPI_UNSIGNED_LONG_LONG)
NFP_TYPE(float, float, MPI_FLOAT)
NFP_TYPE(double, double, MPI_DOUBLE)
NFP_TYPE(ldouble, long double, MPI_LONG_DOUBLE)
NFP_TYPE(bool, bool, MPI_CXX_BOOL)
NFP_TYPE(cfloat, std::complex<float>, MPI_CXX_FLOAT_COMPLEX)
NFP_TYPE(cdouble, std::complex<double>, MPI_CXX_DOUBLE_COMPLEX)
NFP_TYPE(cldouble, std::complex<long double>, MPI_CXX_LONG_DOUBLE_COMPLEX)
MPI_Op opOf(ReduceOp o) { return mpi::getOp(o); }
#define NFP_OP(name, M)                                                                             \
    ReduceOp op_##name() { return ReduceOp::name; }                                                 \
    MPI_Op want_op_##name() { return M; }
NFP_OP(Max, MPI_MAX)
NFP_OP(Min, MPI_MIN)
NFP_OP(Sum, MPI_SUM)
NFP_OP(Prod, MPI_PROD)
NFP_OP(Land, MPI_LAND)
NFP_OP(Band, MPI_BAND)
NFP_OP(Lor, MPI_LOR)
NFP_OP(Bor, MPI_BOR)
NFP_OP(Maxloc, MPI_MAXLOC)
NFP_OP(Minloc, MPI_MINLOC)
void* inPlace() { return MPI_IN_PLACE; }
MPI_Request nullRequest() { return MPI_REQUEST_NULL; }

template<typename T>
void reduceT(T& v, ReduceOp o, MPI_Comm c)
{
    mpi::allReduce(v, o, c);
}
void reduce_double(double& v, ReduceOp o, MPI_Comm c) { reduceT(v, o, c); }
void reduce_int(int& v, ReduceOp o, MPI_Comm c) { reduceT(v, o, c); }
void reduce_ulong(unsigned long& v, ReduceOp o, MPI_Comm c) { reduceT(v, o, c); }
void reduce_Vector(Vector& v, ReduceOp o, MPI_Comm c) { reduceT(v, o, c); }
void isend_double(const double* b, int n, int r, int t, MPI_Comm c, MPI_Request* q) { mpi::isend<double>(b, n, r, t, c, q); }
void irecv_double(double* b, int n, int r, int t, MPI_Comm c, MPI_Request* q) { mpi::irecv<double>(b, n, r, t, c, q); }
bool testOf(MPI_Request* q) { return mpi::test(q); }
int tagOf(const std::string& s) { return mpi::bufferHash(s); }
}
