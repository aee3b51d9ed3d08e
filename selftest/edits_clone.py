"""Edits for C29."""
FVP = "include/NeoFOAM/finiteVolume/cellCentred/"
SO = "include/NeoFOAM/dsl/spatialOperator.hpp"
TO = "include/NeoFOAM/dsl/temporalOperator.hpp"
DIV = FVP + "operators/divOperator.hpp"
LAP = FVP + "operators/laplacianOperator.hpp"
SI = FVP + "operators/surfaceIntegrate.hpp"
EX = "include/NeoFOAM/dsl/expression.hpp"
BF = "include/NeoFOAM/fields/boundaryFields.hpp"
DF = "include/NeoFOAM/fields/domainField.hpp"
VF = FVP + "fields/volumeField.hpp"
RK = "src/timeIntegration/rungeKutta.cpp"
EDITS = [
    ("clone-div-null", [(DIV, "divOp.divOperatorStrategy_ ? divOp.divOperatorStrategy_->clone() : nullptr", "nullptr")], ["C29"]),
    ("clone-div-if-ok", [(DIV, "          divOperatorStrategy_(\n              divOp.divOperatorStrategy_ ? divOp.divOperatorStrategy_->clone() : nullptr\n          ) {};",
                          "          divOperatorStrategy_()\n    {\n        if (divOp.divOperatorStrategy_ != nullptr)\n        {\n            divOperatorStrategy_ = divOp.divOperatorStrategy_->clone();\n        }\n    }")], []),
    ("clone-div-coeff", [(DIV, "            divOp.exec_, divOp.coeffs_, divOp.field_, divOp.type_\n", "            divOp.exec_, dsl::Coeff(1.0), divOp.field_, divOp.type_\n")], ["C29"]),
    ("clone-div-type", [(DIV, "            divOp.exec_, divOp.coeffs_, divOp.field_, divOp.type_\n", "            divOp.exec_, divOp.coeffs_, divOp.field_, dsl::Operator::Type::Explicit\n")], ["C29"]),
    ("clone-lap-type", [(LAP, "            lapOp.exec_, lapOp.coeffs_, lapOp.field_, lapOp.type_\n", "            lapOp.exec_, lapOp.coeffs_, lapOp.field_, dsl::Operator::Type::Implicit\n")], ["C29"]),
    ("clone-si-coeff", [(SI, "type_(surfaceIntegrate.type_),\n          coeffs_(surfaceIntegrate.coeffs_) {};", "type_(surfaceIntegrate.type_),\n          coeffs_() {};")], ["C29"]),
    ("clone-expr-spatial", [(EX, ": exec_(exp.exec_), temporalOperators_(exp.temporalOperators_),\n          spatialOperators_(exp.spatialOperators_)", ": exec_(exp.exec_), temporalOperators_(exp.temporalOperators_),\n          spatialOperators_()")], ["C29"]),
    ("clone-expr-loop-ok", [(EX, ": exec_(exp.exec_), temporalOperators_(exp.temporalOperators_),\n          spatialOperators_(exp.spatialOperators_)\n    {}", ": exec_(exp.exec_), temporalOperators_(),\n          spatialOperators_()\n    {\n        spatialOperators_ = exp.spatialOperators_;\n        temporalOperators_ = exp.temporalOperators_;\n    }")], []),
    ("clone-bf-swap", [(BF, "valueFraction_(rhs.valueFraction_), refGrad_(rhs.refGrad_),\n          boundaryTypes_(rhs", "valueFraction_(rhs.valueFraction_), refGrad_(rhs.refValue_),\n          boundaryTypes_(rhs")], ["C29"]),
    ("clone-bf-n", [(BF, "offset_(rhs.offset_), nBoundaries_(rhs.nBoundaries_),\n          nBoundaryFaces_(rhs.nBoundaryFaces_)\n    {}", "offset_(rhs.offset_), nBoundaries_(rhs.nBoundaryFaces_),\n          nBoundaryFaces_(rhs.nBoundaryFaces_)\n    {}")], ["C29"]),
    ("clone-df-assign", [(DF, "        boundaryFields_ = rhs.boundaryFields_;\n", "")], ["C29"]),
    ("clone-df-copy", [(DF, ": exec_(rhs.exec_), internalField_(rhs.internalField_), boundaryFields_(rhs.boundaryFields_)", ": exec_(rhs.exec_), internalField_(rhs.exec_, rhs.internalField_.size()), boundaryFields_(rhs.boundaryFields_)")], ["C29"]),
    ("clone-vf-key", [(VF, "key(other.key),\n          fieldCollectionName(other.fieldCollectionName),", "key(other.key),\n          fieldCollectionName(other.key),")], ["C29"]),
    ("clone-vf-db", [(VF, "boundaryConditions_(other.boundaryConditions_), db_(other.db_)\n    {}\n\n    /**\n     * @brief Corr", "boundaryConditions_(other.boundaryConditions_), db_(std::nullopt)\n    {}\n\n    /**\n     * @brief Corr")], ["C29"]),
    ("clone-sf-bc", [(FVP + "fields/surfaceField.hpp", ": GeometricFieldMixin<ValueType>(other), boundaryConditions_(other.boundaryConditions_)\n", ": GeometricFieldMixin<ValueType>(other), boundaryConditions_()\n")], ["C29"]),
    ("clone-so-helper-ok", [(SO, "        model_ = eqnOperator.model_->clone();\n        return *this;", "        auto copy = eqnOperator.model_->clone();\n        model_ = std::move(copy);\n        return *this;")], []),
    ("clone-so-assign", [(SO, "        model_ = eqnOperator.model_->clone();\n        return *this;", "        if (model_ == nullptr) model_ = eqnOperator.model_->clone();\n        return *this;")], ["C29"]),
    ("clone-fg-zero", [(FVP + "boundary/volume/fixedGradient.hpp", "        return std::make_unique<FixedGradient>(*this);", "        Dictionary d;\n        d.insert(\"fixedGradient\", ValueType {});\n        return std::make_unique<FixedGradient>(this->mesh_, d, this->patchID_);")], ["C29"]),
    ("clone-fg-rebuild-ok", [(FVP + "boundary/volume/fixedGradient.hpp", "        return std::make_unique<FixedGradient>(*this);", "        auto copy = std::make_unique<FixedGradient>(*this);\n        return copy;")], []),
    ("clone-ls-rhs", [("include/NeoFOAM/linearAlgebra/linearSystem.hpp", "LinearSystem(const LinearSystem& ls) : matrix_(ls.matrix_), rhs_(ls.rhs_) {};", "LinearSystem(const LinearSystem& ls) : matrix_(ls.matrix_), rhs_(ls.rhs_.exec(), ls.rhs_.size()) {};")], ["C29", "C34"]),
    ("clone-be-conf", [("include/NeoFOAM/timeIntegration/backwardEuler.hpp", "        return std::make_unique<BackwardEuler>(*this);", "        return std::make_unique<BackwardEuler>(Dictionary {}, this->solutionDict_);")], ["C29"]),
    ("clone-rk-base", [(RK, ": Base(other), context_(other.context_)", ": Base(other.schemeDict_, Dictionary {}), context_(other.context_)")], ["C29"]),
    ("clone-rk-expr", [(RK, ": Base(other), context_(other.context_)", ": Base(other), context_(other.context_),\n      pdeExpr_(other.pdeExpr_ ? std::make_unique<dsl::Expression<ValueType>>(other.pdeExpr_->exec()) : nullptr)")], ["C29"]),
    ("clone-up-interp", [(FVP + "interpolation/surfaceInterpolation.hpp", "interpolationKernel_(surfInterp.interpolationKernel_->clone()) {};", "interpolationKernel_(SurfaceInterpolationFactory<ValueType>::create(surfInterp.exec_, surfInterp.mesh_, TokenList({std::string(\"linear\")}))) {};")], ["C29"]),
]
