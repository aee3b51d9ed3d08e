// Probe uses of the front ends that select schemes and operators.  Never run: only parsed.
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/faceNormalGradient.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"

namespace nfprobe
{
namespace cc = NeoFOAM::finiteVolume::cellCentred;
namespace dsl = NeoFOAM::dsl;
using namespace NeoFOAM;

template<typename T>
void selectSchemes(
    const Executor& exec, const UnstructuredMesh& mesh, const Input& in, const cc::SurfaceField<scalar>& flux,
    const cc::VolumeField<T>& src, cc::SurfaceField<T>& dst, cc::SurfaceField<scalar>& w
)
{
    cc::SurfaceInterpolation<T> s(exec, mesh, in);
    cc::SurfaceInterpolation<T> t(exec, mesh, std::unique_ptr<cc::SurfaceInterpolationFactory<T>>());
    cc::SurfaceInterpolation<T> u(s);
    cc::SurfaceInterpolation<T> v(std::move(s));
    u.interpolate(src, dst);
    u.interpolate(flux, src, dst);
    u.weight(src, w);
    u.weight(flux, src, w);
    cc::FaceNormalGradient<T> a(exec, mesh, in);
    cc::FaceNormalGradient<T> b(exec, mesh, std::unique_ptr<cc::FaceNormalGradientFactory<T>>());
    cc::FaceNormalGradient<T> c(a);
    cc::FaceNormalGradient<T> d(std::move(a));
    b.faceNormalGrad(src, dst);
    (void)b.deltaCoeffs();
}
template void selectSchemes<scalar>(
    const Executor&, const UnstructuredMesh&, const Input&, const cc::SurfaceField<scalar>&,
    const cc::VolumeField<scalar>&, cc::SurfaceField<scalar>&, cc::SurfaceField<scalar>&
);
template void selectSchemes<Vector>(
    const Executor&, const UnstructuredMesh&, const Input&, const cc::SurfaceField<scalar>&,
    const cc::VolumeField<Vector>&, cc::SurfaceField<Vector>&, cc::SurfaceField<scalar>&
);

void selectOperators(
    dsl::Operator::Type type, const Input& in, cc::SurfaceField<scalar>& flux, cc::VolumeField<scalar>& phi,
    Field<scalar>& field, la::LinearSystem<scalar, localIdx>& ls
)
{
    cc::DivOperator<scalar> a(type, flux, phi);
    cc::DivOperator<scalar> b(type, flux, phi, in);
    cc::DivOperator<scalar> c(type, flux, phi, std::unique_ptr<cc::DivOperatorFactory<scalar>>());
    a.build(in);
    a.explicitOperation(field);
    a.implicitOperation(ls);
    a.div(field);
    a.div(ls);
    a.div(phi);
    cc::LaplacianOperator<scalar> d(type, flux, phi);
    cc::LaplacianOperator<scalar> e(type, flux, phi, in);
    cc::LaplacianOperator<scalar> f(type, flux, phi, std::unique_ptr<cc::LaplacianOperatorFactory<scalar>>());
    d.build(in);
    d.explicitOperation(field);
    d.implicitOperation(ls);
    d.laplacian(phi);
    (void)dsl::exp::div(flux, phi);
    (void)dsl::exp::div(flux);
    (void)dsl::exp::source(phi, phi);
    (void)dsl::imp::ddt(phi);
    (void)dsl::imp::source(phi, phi);
    (void)dsl::imp::div(flux, phi);
    (void)dsl::imp::laplacian(flux, phi);
}

void selectSolver(const Executor& exec, const Dictionary& dict, const la::LinearSystem<scalar, localIdx>& ls, Field<scalar>& x)
{
    la::Solver s(exec, dict);
    la::Solver t(exec, std::unique_ptr<la::SolverFactory>());
    la::Solver u(s);
    la::Solver v(std::move(s));
    s.solve(ls, x);
}
}
