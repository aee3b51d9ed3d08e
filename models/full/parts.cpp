#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"

namespace cc = NeoFOAM::finiteVolume::cellCentred;

template class cc::VolumeField<NeoFOAM::scalar>;
template class cc::VolumeField<NeoFOAM::Vector>;
template class cc::GeometricFieldMixin<NeoFOAM::scalar>;
template class cc::GeometricFieldMixin<NeoFOAM::Vector>;
