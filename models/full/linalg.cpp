#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
namespace nfprobe
{
template<typename T>
void linearOps(const NeoFOAM::Executor& exec, NeoFOAM::la::CSRMatrix<T, NeoFOAM::localIdx>& m, const NeoFOAM::la::CSRMatrix<T, NeoFOAM::localIdx>& cm, NeoFOAM::la::LinearSystem<T, NeoFOAM::localIdx>& ls, const NeoFOAM::la::LinearSystem<T, NeoFOAM::localIdx>& cls, const NeoFOAM::Field<T>& v, const NeoFOAM::Field<NeoFOAM::localIdx>& i)
{
    NeoFOAM::la::CSRMatrix<T, NeoFOAM::localIdx> a(v, i, i);
    (void)m.exec();
    (void)m.nRows();
    (void)m.nNonZeros();
    (void)m.values();
    (void)m.colIdxs();
    (void)m.rowPtrs();
    (void)cm.values();
    (void)cm.colIdxs();
    (void)cm.rowPtrs();
    (void)m.view();
    (void)cm.view();
    (void)cm.copyToExecutor(exec);
    (void)cm.copyToHost();
    NeoFOAM::la::LinearSystem<T, NeoFOAM::localIdx> l1(cm, v);
    NeoFOAM::la::LinearSystem<T, NeoFOAM::localIdx> l2(cls);
    NeoFOAM::la::CSRMatrix<T, NeoFOAM::localIdx> me(exec);
    NeoFOAM::la::CSRMatrix<T, NeoFOAM::localIdx> mc(cm);
    NeoFOAM::la::LinearSystem<T, NeoFOAM::localIdx> l3(exec);
    (void)ls.matrix();
    (void)ls.rhs();
    (void)cls.matrix();
    (void)cls.rhs();
    (void)cls.copyToHost();
    ls.reset();
    (void)ls.view();
    (void)cls.view();
    (void)ls.exec();
    auto e = m.view();
    (void)e.entry(0, 0);
    auto ce = cm.view();
    (void)ce.entry(0, 0);
    (void)e.entry(0);
    (void)ce.entry(0);
}
template void linearOps<NeoFOAM::scalar>(const NeoFOAM::Executor&, NeoFOAM::la::CSRMatrix<NeoFOAM::scalar, NeoFOAM::localIdx>&, const NeoFOAM::la::CSRMatrix<NeoFOAM::scalar, NeoFOAM::localIdx>&, NeoFOAM::la::LinearSystem<NeoFOAM::scalar, NeoFOAM::localIdx>&, const NeoFOAM::la::LinearSystem<NeoFOAM::scalar, NeoFOAM::localIdx>&, const NeoFOAM::Field<NeoFOAM::scalar>&, const NeoFOAM::Field<NeoFOAM::localIdx>&);
template void linearOps<NeoFOAM::Vector>(const NeoFOAM::Executor&, NeoFOAM::la::CSRMatrix<NeoFOAM::Vector, NeoFOAM::localIdx>&, const NeoFOAM::la::CSRMatrix<NeoFOAM::Vector, NeoFOAM::localIdx>&, NeoFOAM::la::LinearSystem<NeoFOAM::Vector, NeoFOAM::localIdx>&, const NeoFOAM::la::LinearSystem<NeoFOAM::Vector, NeoFOAM::localIdx>&, const NeoFOAM::Field<NeoFOAM::Vector>&, const NeoFOAM::Field<NeoFOAM::localIdx>&);
// a sparsity pattern whose parts are the checker's
struct ProbeMesh
{
    const NeoFOAM::Executor& exec() const;
};
struct ProbeSparsity
{
    const ProbeMesh& mesh() const;
    NeoFOAM::localIdx rows() const;
    NeoFOAM::localIdx nnz() const;
    const NeoFOAM::Field<NeoFOAM::localIdx>& colIdxs() const;
    const NeoFOAM::Field<NeoFOAM::localIdx>& rowPtrs() const;
};
NeoFOAM::la::LinearSystem<NeoFOAM::scalar, NeoFOAM::localIdx> emptyScalar(const ProbeSparsity& s)
{
    return NeoFOAM::la::createEmptyLinearSystem<NeoFOAM::scalar, NeoFOAM::localIdx, ProbeSparsity>(s);
}
NeoFOAM::la::LinearSystem<NeoFOAM::Vector, NeoFOAM::localIdx> emptyVector(const ProbeSparsity& s)
{
    return NeoFOAM::la::createEmptyLinearSystem<NeoFOAM::Vector, NeoFOAM::localIdx, ProbeSparsity>(s);
}
NeoFOAM::la::CSRMatrix<NeoFOAM::scalar, int> converted(const NeoFOAM::Executor& exec, const NeoFOAM::la::CSRMatrix<NeoFOAM::scalar, NeoFOAM::localIdx>& m)
{
    auto r = NeoFOAM::la::convert<NeoFOAM::scalar, NeoFOAM::localIdx, NeoFOAM::scalar, int>(exec, m.view());
    (void)r.values();
    (void)r.colIdxs();
    (void)r.rowPtrs();
    return r;
}
NeoFOAM::Field<NeoFOAM::scalar> product(NeoFOAM::la::LinearSystem<NeoFOAM::scalar, NeoFOAM::localIdx>& ls, NeoFOAM::Field<NeoFOAM::scalar>& x)
{
    return NeoFOAM::la::spmv(ls, x);
}
}
