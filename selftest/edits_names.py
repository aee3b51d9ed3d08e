"""Edits for C44."""
F = "include/NeoFOAM/finiteVolume/cellCentred/"
UP = F + "interpolation/upwind.hpp"
LI = F + "interpolation/linear.hpp"
UC = F + "faceNormalGradient/uncorrected.hpp"
BH = F + "boundary.hpp"
FG = F + "boundary/volume/fixedGradient.hpp"
GL = F + "operators/gaussGreenLaplacian.hpp"
BE = "include/NeoFOAM/timeIntegration/backwardEuler.hpp"
TI = "src/timeIntegration/timeIntegration.cpp"
RS = "include/NeoFOAM/core/runtimeSelectionFactory.hpp"
EDITS = [
    ("nam-same", [(FG, 'name() { return "fixedGradient"; }', 'name() { return "fixedValue"; }')], ["C44"]),
    ("nam-linear", [(UP, 'name() { return "upwind"; }', 'name() { return "linear"; }')], ["C44"]),
    ("nam-case", [(BE, 'name() { return "backwardEuler"; }', 'name() { return "BackwardEuler"; }')], ["C44"]),
    ("nam-novec", [(UC, "template class Uncorrected<Vector>;", "")], ["C44"]),
    ("nam-noempty", [(BH, "template class fvcc::volumeBoundary::Empty<Vector>;", "")], ["C44"]),
    ("nam-noback", [(TI, "template class BackwardEuler<fvcc::VolumeField<scalar>>;", "")], ["C44"]),
    ("nam-base", [(GL, '''    public LaplacianOperatorFactory<ValueType>::template Register<GaussGreenLaplacian<ValueType>>
''', '''    public LaplacianOperatorFactory<ValueType>
'''), (GL, '''    using Base =
        LaplacianOperatorFactory<ValueType>::template Register<GaussGreenLaplacian<ValueType>>;''', '''    using Base = LaplacianOperatorFactory<ValueType>;''')], ["C44"]),
    ("nam-factory", [(F + "operators/laplacianOperator.hpp", 'name() { return "LaplacianOperatorFactory"; }', 'name() { return "DivOperatorFactory"; }')], ["C44"]),
    ("nam-ok-const", [(LI, '''    static std::string name() { return "linear"; }''', '''    static constexpr const char* schemeName = "linear";

    static std::string name() { return schemeName; }''')], []),
    ("nam-ok-moved", [(UC, "template class Uncorrected<scalar>;\ntemplate class Uncorrected<Vector>;\n", ""),
                      ("src/finiteVolume/cellCentred/faceNormalGradient/uncorrected.cpp", "} // namespace NeoFOAM", "template class Uncorrected<scalar>;\ntemplate class Uncorrected<Vector>;\n\n} // namespace NeoFOAM")], []),
]
