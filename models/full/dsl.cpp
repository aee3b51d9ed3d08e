// Instantiates the expression algebra on a probe operator whose effects are reported to functions that exist nowhere.
#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"

using namespace NeoFOAM;

namespace nfprobe
{
using LS = la::LinearSystem<scalar, localIdx>;
void sawExplicit(int id, Field<scalar>& source, const dsl::Coeff& c);
void sawImplicit(int id, LS& ls, const dsl::Coeff& c);
void sawExplicitT(int id, Field<scalar>& source, scalar t, scalar dt, const dsl::Coeff& c);
void sawImplicitT(int id, LS& ls, scalar t, scalar dt, const dsl::Coeff& c);
void sawBuild(int id, const Input& input);

struct Base
{
    using FieldValueType = scalar;
    Base(const Executor& exec, int id, dsl::Operator::Type type, const dsl::Coeff& c)
        : exec_(exec), id_(id), type_(type), coeffs_(c)
    {}
    std::string getName() const { return "probe"; }
    dsl::Operator::Type getType() const { return type_; }
    dsl::Coeff& getCoefficient() { return coeffs_; }
    const dsl::Coeff& getCoefficient() const { return coeffs_; }
    const Executor& exec() const { return exec_; }
    void build(const Input& input) { sawBuild(id_, input); }
    const Executor exec_;
    int id_;
    dsl::Operator::Type type_;
    dsl::Coeff coeffs_;
};

struct Spatial : Base
{
    using Base::Base;
    void explicitOperation(Field<scalar>& source) { sawExplicit(id_, source, coeffs_); }
    void implicitOperation(LS& ls) { sawImplicit(id_, ls, coeffs_); }
};

struct Temporal : Base
{
    using Base::Base;
    void explicitOperation(Field<scalar>& source, scalar t, scalar dt)
    {
        sawExplicitT(id_, source, t, dt, coeffs_);
    }
    void implicitOperation(LS& ls, scalar t, scalar dt) { sawImplicitT(id_, ls, t, dt, coeffs_); }
};

using SO = dsl::SpatialOperator<scalar>;
using TO = dsl::TemporalOperator<scalar>;
using EX = dsl::Expression<scalar>;

SO spatial(const Executor& exec, int id, dsl::Operator::Type type, const dsl::Coeff& c)
{
    return SO(Spatial(exec, id, type, c));
}
TO temporal(const Executor& exec, int id, dsl::Operator::Type type, const dsl::Coeff& c)
{
    return TO(Temporal(exec, id, type, c));
}
EX exprPlusExpr(const EX& a, const EX& b) { return a + b; }
EX exprMinusExpr(const EX& a, const EX& b) { return a - b; }
EX exprPlusOp(const EX& a, const SO& b) { return a + b; }
EX exprMinusOp(const EX& a, const SO& b) { return a - b; }
EX opPlusOp(const SO& a, const SO& b) { return a + b; }
EX opMinusOp(const SO& a, const SO& b) { return a - b; }
EX tempPlusOp(const TO& a, const SO& b) { return a + b; }
EX tempMinusOp(const TO& a, const SO& b) { return a - b; }
EX scaleExpr(scalar s, const EX& a) { return s * a; }
SO scaleOp(scalar s, const SO& a) { return s * a; }
TO scaleTemp(scalar s, const TO& a) { return s * a; }
SO coeffOp(const dsl::Coeff& s, const SO& a) { return s * a; }
TO coeffTemp(const dsl::Coeff& s, const TO& a) { return s * a; }
SO fieldOp(const Field<scalar>& s, const SO& a) { return s * a; }
TO fieldTemp(const Field<scalar>& s, const TO& a) { return s * a; }
SO copyOp(const SO& a) { return a; }
TO copyTemp(const TO& a) { return a; }
void assignOp(SO& a, const SO& b) { a = b; }
dsl::Coeff coeffTimes(const dsl::Coeff& a, const dsl::Coeff& b) { return a * b; }
scalar coeffAt(const dsl::Coeff& a, size_t i) { return a[i]; }

using VF = finiteVolume::cellCentred::VolumeField<scalar>;
void solve(EX& e, VF& phi, scalar t, scalar dt, const Dictionary& schemes, const Dictionary& solution)
{
    dsl::solve(e, phi, t, dt, schemes, solution);
}
void integrate(EX& e, VF& phi, scalar t, scalar dt, const Dictionary& schemes, const Dictionary& solution)
{
    timeIntegration::TimeIntegration<VF> ti(schemes, solution);
    timeIntegration::TimeIntegration<VF> copy(ti);
    copy.solve(e, phi, t, dt);
}
TO impDdt(VF& phi) { return dsl::imp::ddt(phi); }
SO impSource(VF& c, VF& phi) { return dsl::imp::source(c, phi); }
SO impDiv(finiteVolume::cellCentred::SurfaceField<scalar>& f, VF& phi) { return dsl::imp::div(f, phi); }
SO impLaplacian(finiteVolume::cellCentred::SurfaceField<scalar>& g, VF& phi)
{
    return dsl::imp::laplacian(g, phi);
}
} // namespace nfprobe

template class NeoFOAM::dsl::Expression<scalar>;
template class NeoFOAM::timeIntegration::TimeIntegration<nfprobe::VF>;
