// Probe uses of the linear solvers.  Never run: only parsed.
namespace NeoFOAM::finiteVolume::cellCentred {} // petsc.hpp relies on it having been declared
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
#include "NeoFOAM/linearAlgebra/petsc.hpp"
namespace nfprobe
{
using namespace NeoFOAM;
void solvePetsc(const la::petsc::petscSolver& s, const la::LinearSystem<scalar, localIdx>& sys, Field<scalar>& x) { s.solve(sys, x); }
void solveGinkgo(const la::ginkgo::GinkgoSolver& s, const la::LinearSystem<scalar, localIdx>& sys, Field<scalar>& x) { s.solve(sys, x); }
la::Solver make(const Executor& exec, const Dictionary& d) { return la::Solver(exec, d); }
la::LinearSystem<scalar, localIdx> makeSystem(const Field<scalar>& v, const Field<localIdx>& c, const Field<localIdx>& r, const Field<scalar>& b)
{
    return la::LinearSystem<scalar, localIdx>(la::CSRMatrix<scalar, localIdx>(v, c, r), b);
}
la::ginkgo::GinkgoSolver ginkgo(const Executor& exec, const Dictionary& d) { return la::ginkgo::GinkgoSolver(exec, d); }
gko::config::pnode parsed(const Dictionary& d) { return la::ginkgo::parse(d); }
Dictionary withString(const std::string& k, const std::string& v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withChars(const std::string& k, const char* v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withInt(const std::string& k, int v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withUnsigned(const std::string& k, unsigned int v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withDouble(const std::string& k, double v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withFloat(const std::string& k, float v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withOther(const std::string& k, std::pair<int, int> v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withDict(const std::string& k, const Dictionary& v) { Dictionary d; d.insert(k, v); return d; }
Dictionary withTwo(const std::string& k, int v, const std::string& l, const std::string& w) { Dictionary d; d.insert(k, v); d.insert(l, w); return d; }
}
