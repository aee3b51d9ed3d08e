#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/fields/segmentedField.hpp"
template class NeoFOAM::SegmentedField<NeoFOAM::label, NeoFOAM::localIdx>;
template class NeoFOAM::SegmentedFieldView<NeoFOAM::label, NeoFOAM::localIdx>;
template class NeoFOAM::SegmentedField<NeoFOAM::localIdx, NeoFOAM::localIdx>;
template class NeoFOAM::SegmentedFieldView<NeoFOAM::localIdx, NeoFOAM::localIdx>;
