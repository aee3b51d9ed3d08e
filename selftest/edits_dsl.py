"""Edits for C30, C31 and C32 (expressions, coefficients, time integration)."""
X = "include/NeoFOAM/dsl/expression.hpp"
SP = "include/NeoFOAM/dsl/spatialOperator.hpp"
TP = "include/NeoFOAM/dsl/temporalOperator.hpp"
CF = "src/dsl/coeff.cpp"
CH = "include/NeoFOAM/dsl/coeff.hpp"
FE = "include/NeoFOAM/timeIntegration/forwardEuler.hpp"
BE = "include/NeoFOAM/timeIntegration/backwardEuler.hpp"
SO = "include/NeoFOAM/dsl/solver.hpp"
SUBE = "    lhs.addExpression(-1.0 * rhs);"
ADDE = "        for (auto& oper : equation.temporalOperators_)\n        {\n            temporalOperators_.push_back(oper);\n        }\n"
SCAL = "    for (const auto& oper : es.temporalOperators())\n    {\n        expr.addOperator(scale * oper);\n    }\n"
BUILDT = "        for (auto& op : temporalOperators_)\n        {\n            op.build(input);\n        }\n"
CMULF = "    if (!hasView_ && rhs.hasView_)\n    {\n        // Take over the span\n        view_ = rhs.view_;\n        hasView_ = true;\n    }\n\n"
EXPL = "        for (auto& op : spatialOperators_)\n        {\n            if (op.getType() == Operator::Type::Explicit)\n            {\n                op.explicitOperation(source);\n            }\n        }\n        return source;"
EDITS = [
    ("dsl-sub-expr-plus", [(X, SUBE, "    lhs.addExpression(rhs);")], ["C30"]),
    ("dsl-sub-expr-two", [(X, SUBE, "    lhs.addExpression(-2.0 * rhs);")], ["C30"]),
    ("dsl-sub-op-plus", [(X, "    lhs.addOperator(-1.0 * rhs);", "    lhs.addOperator(1.0 * rhs);")], ["C30"]),
    ("dsl-sub-pair-plus", [(X, "expr.addOperator(Coeff(-1) * rhs);", "expr.addOperator(rhs);")], ["C30"]),
    ("dsl-sub-pair-lhs", [(X, "    expr.addOperator(lhs);\n    expr.addOperator(Coeff(-1) * rhs);", "    expr.addOperator(Coeff(-1) * lhs);\n    expr.addOperator(rhs);")], ["C30"]),
    ("dsl-add-expr-notemporal", [(X, ADDE, "")], ["C30"]),
    ("dsl-add-expr-self", [(X, ADDE, ADDE.replace("equation.temporalOperators_", "equation.temporalOperators_").replace("            temporalOperators_.push_back(oper);", "            if (temporalOperators_.empty()) temporalOperators_.push_back(oper);"))], ["C30"]),
    ("dsl-scale-notemporal", [(X, SCAL, "")], ["C30"]),
    ("dsl-scale-unscaled", [(X, SCAL, SCAL.replace("scale * oper", "oper"))], ["C30"]),
    ("dsl-scale-inplace-ok", [(X, SCAL, SCAL.replace("        expr.addOperator(scale * oper);\n", "        auto scaled = oper;\n        scaled.getCoefficient() *= scale;\n        expr.addOperator(scaled);\n"))], []),
    ("dsl-copy-notemporal", [(X, "temporalOperators_(exp.temporalOperators_)", "temporalOperators_()")], ["C30"]),
    ("dsl-copy-body-ok", [(X, "temporalOperators_(exp.temporalOperators_),\n          spatialOperators_(exp.spatialOperators_)\n    {}", "temporalOperators_(),\n          spatialOperators_()\n    {\n        addExpression(exp);\n    }")], []),
    ("dsl-build-notemporal", [(X, BUILDT, "")], ["C30"]),
    ("dsl-build-first", [(X, BUILDT, BUILDT.replace("            op.build(input);\n", "            op.build(input);\n            break;\n"))], ["C30"]),
    ("dsl-expl-all", [(X, EXPL, EXPL.replace("== Operator", "!= Operator"))], ["C30"]),
    ("dsl-expl-first", [(X, EXPL, EXPL.replace("op.explicitOperation(source);", "op.explicitOperation(source);\n                return source;"))], ["C30"]),
    ("dsl-expl-index-ok", [(X, EXPL, "        for (std::size_t k = 0; k < spatialOperators_.size(); ++k)\n        {\n            const auto& op = spatialOperators_[k];\n            if (op.getType() != Operator::Type::Explicit) continue;\n            op.explicitOperation(source);\n        }\n        return source;")], []),
    ("dsl-expl-index-last", [(X, EXPL, "        for (std::size_t k = 0; k + 1 < spatialOperators_.size(); ++k)\n        {\n            const auto& op = spatialOperators_[k];\n            if (op.getType() != Operator::Type::Explicit) continue;\n            op.explicitOperation(source);\n        }\n        return source;")], ["C30"]),
    ("dsl-expl-noinit", [(X, "Field<ValueType> source(exec_, nCells, zero<ValueType>());", "Field<ValueType> source(exec_, nCells);")], ["C30"]),
    ("dsl-impl-t-expl", [(X, "            if (op.getType() == Operator::Type::Implicit)\n            {\n                op.implicitOperation(ls, t, dt);", "            if (op.getType() == Operator::Type::Explicit)\n            {\n                op.implicitOperation(ls, t, dt);")], ["C30"]),
    ("dsl-impl-t-swap", [(X, "op.implicitOperation(ls, t, dt);", "op.implicitOperation(ls, dt, t);")], ["C30"]),
    ("dsl-size-spatial", [(X, "return temporalOperators_.size() + spatialOperators_.size();", "return spatialOperators_.size();")], ["C30"]),
    ("dsl-op-scale-lhs", [(SP, "operator*(scalar scalarCoeff, SpatialOperator<ValueType> rhs)\n{\n    SpatialOperator<ValueType> result = rhs;\n    result.getCoefficient() *= scalarCoeff;", "operator*(scalar scalarCoeff, SpatialOperator<ValueType> rhs)\n{\n    SpatialOperator<ValueType> result = rhs;\n    rhs.getCoefficient() *= scalarCoeff;")], ["C30"]),
    ("dsl-op-scale-move-ok", [(SP, "operator*(scalar scalarCoeff, SpatialOperator<ValueType> rhs)\n{\n    SpatialOperator<ValueType> result = rhs;\n    result.getCoefficient() *= scalarCoeff;\n    return result;", "operator*(scalar scalarCoeff, SpatialOperator<ValueType> rhs)\n{\n    rhs.getCoefficient() *= scalarCoeff;\n    return rhs;")], []),
    ("dsl-op-assign-alias", [(SP, "        model_ = eqnOperator.model_->clone();\n        return *this;", "        if (!model_) model_ = eqnOperator.model_->clone();\n        return *this;")], ["C30"]),
    ("dsl-op-shared", [(SP, "    std::unique_ptr<OperatorConcept> model_;", "    std::shared_ptr<OperatorConcept> model_;"), (SP, "SpatialOperator(const SpatialOperator& eqnOperator) : model_(eqnOperator.model_->clone()) {}", "SpatialOperator(const SpatialOperator& eqnOperator) : model_(eqnOperator.model_) {}")], ["C30"]),
    ("dsl-op-shared-clone-ok", [(SP, "    std::unique_ptr<OperatorConcept> model_;", "    std::shared_ptr<OperatorConcept> model_;")], []),
    ("dsl-model-expl-none", [(SP, "                concreteOp_.explicitOperation(source);\n", "                ConcreteOperatorType op = concreteOp_;\n                op.getCoefficient() = Coeff(1.0);\n                op.explicitOperation(source);\n")], ["C30"]),
    ("dsl-top-scale-none", [(TP, "    result.getCoefficient() *= scalarCoeff;", "    result.getCoefficient() *= 1.0;")], ["C30"]),
    ("dsl-coeff-mul-set", [(CF, "    coeff_ *= rhs;", "    coeff_ = rhs;")], ["C31"]),
    ("dsl-coeff-mul-explicit-ok", [(CF, "    coeff_ *= rhs;", "    coeff_ = rhs * coeff_;")], []),
    ("dsl-coeff-field-drop", [(CF, CMULF, "")], ["C31"]),
    ("dsl-coeff-field-noflag", [(CF, CMULF, CMULF.replace("        hasView_ = true;\n", ""))], ["C31"]),
    ("dsl-coeff-field-noscale", [(CF, "    return this->operator*=(rhs.coeff_);", "    return *this;")], ["C31"]),
    ("dsl-coeff-field-early", [(CF, CMULF, CMULF.replace("        hasView_ = true;\n", "        hasView_ = true;\n        coeff_ = rhs.coeff_;\n        return *this;\n"))], ["C31"]),
    ("dsl-coeff-ctor-scale", [(CF, ": coeff_(coeff), view_(field.view()), hasView_(true)", ": coeff_(1.0), view_(field.view()), hasView_(true)")], ["C31"]),
    ("dsl-coeff-ctor-flag", [(CF, "Coeff::Coeff(const Field<scalar>& field) : coeff_(1.0), view_(field.view()), hasView_(true) {}", "Coeff::Coeff(const Field<scalar>& field) : coeff_(1.0), view_(field.view()), hasView_(false) {}")], ["C31"]),
    ("dsl-coeff-default-zero", [(CF, "Coeff::Coeff() : coeff_(1.0)", "Coeff::Coeff() : coeff_(0.0)")], ["C31"]),
    ("dsl-tofield-half", [(CF, "        fill(rhs, 1.0);\n", "        fill(rhs, coeff[0]);\n")], ["C31"]),
    ("dsl-tofield-direct-ok", [(CF, "        fill(rhs, 1.0);\n", ""), (CF, "rhsView[i] *= coeff[i];", "rhsView[i] = coeff[i];")], []),
    ("dsl-tofield-nofill", [(CF, "        fill(rhs, 1.0);\n", "")], ["C31"]),
    ("dsl-tofield-one", [(CF, "        fill(rhs, coeff[0]);\n", "        fill(rhs, 1.0);\n")], ["C31"]),
    ("dsl-fe-plus", [(FE, "oldSolutionField.internalField() - source * dt;", "oldSolutionField.internalField() + source * dt;")], ["C32"]),
    ("dsl-fe-nodt", [(FE, "oldSolutionField.internalField() - source * dt;", "oldSolutionField.internalField() - source;")], ["C32"]),
    ("dsl-fe-new", [(FE, "oldSolutionField.internalField() - source * dt;", "solutionField.internalField() - source * dt;")], ["C32"]),
    ("dsl-fe-noold", [(FE, "        oldSolutionField.internalField() = solutionField.internalField();\n", "")], ["C32"]),
    ("dsl-fe-split-ok", [(FE, "        solutionField.internalField() = oldSolutionField.internalField() - source * dt;", "        auto change = source * dt;\n        solutionField.internalField() = oldSolutionField.internalField() - change;")], []),
    ("dsl-fe-late", [(FE, "        auto source = eqn.explicitOperation(solutionField.size());\n", ""), (FE, "        solutionField.internalField() = oldSolutionField.internalField() - source * dt;", "        oldSolutionField.internalField() = solutionField.internalField();\n        auto source = eqn.explicitOperation(solutionField.size());\n        solutionField.internalField() = oldSolutionField.internalField() - source * dt;")], ["C32"]),
    ("dsl-be-plus", [(BE, "rhs[i] -= expSource[i] * vol[i];", "rhs[i] += expSource[i] * vol[i];")], ["C32"]),
    ("dsl-be-novol", [(BE, "rhs[i] -= expSource[i] * vol[i];", "rhs[i] -= expSource[i];")], ["C32"]),
    ("dsl-be-nospatial", [(BE, "        eqn.implicitOperation(ls);\n\n        auto values", "        auto values")], ["C32"]),
    ("dsl-be-swap", [(BE, "eqn.implicitOperation(ls, t, dt);", "eqn.implicitOperation(ls, dt, t);")], ["C32"]),
    ("dsl-be-order-ok", [(BE, "        eqn.implicitOperation(ls);\n\n        auto values = ls.matrix().values();\n        eqn.implicitOperation(ls, t, dt);\n", "        eqn.implicitOperation(ls, t, dt);\n        eqn.implicitOperation(ls);\n")], []),
    ("dsl-be-dict", [(BE, "this->solutionDict_)", "this->schemeDict_)")], ["C32"]),
    ("dsl-be-noold", [(BE, "        oldSolutionField.internalField() = solutionField.internalField();\n", "")], ["C32"]),
    ("dsl-solve-nobuild", [(SO, "    exp.build(fvSchemes);\n", "")], ["C32"]),
    ("dsl-solve-guard", [(SO, "    if (exp.temporalOperators().size() > 0)", "    if (exp.temporalOperators().size() > 1)")], ["C32"]),
    ("dsl-solve-empty-ok", [(SO, "    if (exp.temporalOperators().size() == 0 && exp.spatialOperators().size() == 0)", "    if (exp.size() == 0)")], []),
    ("dsl-solve-empty-or", [(SO, "    if (exp.temporalOperators().size() == 0 && exp.spatialOperators().size() == 0)", "    if (exp.temporalOperators().size() == 0 || exp.spatialOperators().size() == 0)")], ["C32"]),
    ("dsl-solve-nosrc", [(SO, "KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }", "KOKKOS_LAMBDA(const size_t i) { rhs[i] -= 0 * expSource[i] * vol[i]; }")], ["C32"]),
    ("dsl-solve-range", [(SO, "            {0, rhs.size()},", "            {1, rhs.size()},")], ["C32"]),
    ("dsl-solve-temps-ok", [(SO, "{ rhs[i] -= expSource[i] * vol[i]; }", "{ const auto s = vol[i] * expSource[i]; rhs[i] = rhs[i] - s; }")], []),
]
