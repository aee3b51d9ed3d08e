// Instantiates the interface to SUNDIALS (vectors, right-hand side, Runge-Kutta) for the analysis.
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"

using namespace NeoFOAM;

namespace nfprobe
{
using SK = NeoFOAM::sundials::SKVector<scalar>;
void skExecutor(SK& v, const Executor& exec) { v.setExecutor(exec); }
void skInit(SK& v, size_t n, std::shared_ptr<SUNContext> ctx) { v.initNVector(n, ctx); }
N_Vector skVector(SK& v) { return v.sunNVector(); }
N_Vector skConstVector(const SK& v) { return v.sunNVector(); }
SK skCopy(const SK& v) { return SK(v); }
SK skMove(SK& v) { return SK(std::move(v)); }
void toVector(const Field<scalar>& f, N_Vector& v) { NeoFOAM::sundials::fieldToSunNVector(f, v); }
void toField(const N_Vector& v, Field<scalar>& f) { NeoFOAM::sundials::sunNVectorToField(v, f); }
using VF = finiteVolume::cellCentred::VolumeField<scalar>;
int rhs(scalar t, N_Vector y, N_Vector ydot, void* user) { return NeoFOAM::sundials::explicitRKSolve<VF>(t, y, ydot, user); }
int rkTable(const std::string& key) { return NeoFOAM::sundials::stringToERKTable(key); }
using RK = timeIntegration::RungeKutta<VF>;
std::unique_ptr<timeIntegration::TimeIntegratorBase<VF>> rkClone(const RK& rk) { return rk.clone(); }
}
