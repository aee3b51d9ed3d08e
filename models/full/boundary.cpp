#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/fields/domainField.hpp"
namespace nfprobe
{
template<typename T>
void boundaryOps(const NeoFOAM::Executor& exec, NeoFOAM::BoundaryFields<T>& b, const NeoFOAM::BoundaryFields<T>& d, NeoFOAM::DomainField<T>& f, const NeoFOAM::DomainField<T>& g, std::vector<NeoFOAM::localIdx> offs, const NeoFOAM::UnstructuredMesh& mesh, const NeoFOAM::Field<T>& in)
{
    NeoFOAM::BoundaryFields<T> b1(exec, d);
    NeoFOAM::BoundaryFields<T> b2(d);
    NeoFOAM::BoundaryFields<T> b4(exec, offs);
    (void)b.value();
    (void)b.refValue();
    (void)b.valueFraction();
    (void)b.refGrad();
    (void)d.value();
    (void)d.refValue();
    (void)d.valueFraction();
    (void)d.refGrad();
    (void)b.boundaryTypes();
    (void)d.boundaryTypes();
    (void)b.offset();
    (void)d.offset();
    (void)b.nBoundaries();
    (void)b.nBoundaryFaces();
    (void)b.exec();
    (void)b.range(0);
    NeoFOAM::DomainField<T> f1(exec, 3, offs);
    NeoFOAM::DomainField<T> f2(exec, in, d);
    NeoFOAM::DomainField<T> f3(exec, in, offs);
    NeoFOAM::DomainField<T> f4(exec, mesh);
    NeoFOAM::DomainField<T> f5(g);
    NeoFOAM::DomainField<T> f6(std::move(f5));
    f = std::move(f6);
    f = g;
    (void)f.internalField();
    (void)g.internalField();
    (void)f.boundaryField();
    (void)g.boundaryField();
    (void)f.exec();
}
template void boundaryOps<NeoFOAM::scalar>(const NeoFOAM::Executor&, NeoFOAM::BoundaryFields<NeoFOAM::scalar>&, const NeoFOAM::BoundaryFields<NeoFOAM::scalar>&, NeoFOAM::DomainField<NeoFOAM::scalar>&, const NeoFOAM::DomainField<NeoFOAM::scalar>&, std::vector<NeoFOAM::localIdx>, const NeoFOAM::UnstructuredMesh&, const NeoFOAM::Field<NeoFOAM::scalar>&);
template void boundaryOps<NeoFOAM::Vector>(const NeoFOAM::Executor&, NeoFOAM::BoundaryFields<NeoFOAM::Vector>&, const NeoFOAM::BoundaryFields<NeoFOAM::Vector>&, NeoFOAM::DomainField<NeoFOAM::Vector>&, const NeoFOAM::DomainField<NeoFOAM::Vector>&, std::vector<NeoFOAM::localIdx>, const NeoFOAM::UnstructuredMesh&, const NeoFOAM::Field<NeoFOAM::Vector>&);
}
