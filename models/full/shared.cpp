// Probe uses of what meshes share.  Never run: only parsed.
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"

namespace nfprobe
{
namespace cc = NeoFOAM::finiteVolume::cellCentred;
void sharedBCs(const NeoFOAM::UnstructuredMesh& mesh)
{
    (void)cc::createCalculatedBCs<cc::VolumeBoundary<NeoFOAM::scalar>>(mesh);
    (void)cc::createCalculatedBCs<cc::VolumeBoundary<NeoFOAM::Vector>>(mesh);
    (void)cc::createCalculatedBCs<cc::SurfaceBoundary<NeoFOAM::scalar>>(mesh);
    (void)cc::createCalculatedBCs<cc::SurfaceBoundary<NeoFOAM::Vector>>(mesh);
    (void)cc::createExtrapolatedBCs<cc::VolumeBoundary<NeoFOAM::scalar>>(mesh);
    (void)cc::createExtrapolatedBCs<cc::VolumeBoundary<NeoFOAM::Vector>>(mesh);
}
}
