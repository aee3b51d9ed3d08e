"""Edits for C42."""
H = "include/NeoFOAM/timeIntegration/sundials.hpp"
R = "src/timeIntegration/rungeKutta.cpp"
EDITS = [
    ("sun-sign", [(H, "pdeExpre->explicitOperation(size) * -1.0;", "pdeExpre->explicitOperation(size) * 1.0;")], ["C42"]),
    ("sun-old", [(R, "fieldToSunNVector(oldSolutionField.internalField(), solution_", "fieldToSunNVector(solutionField.internalField(), solution_")], []),
    ("sun-init-phi", [(R, "initSUNERKSolver(exp, oldSolutionField, t);", "initSUNERKSolver(exp, solutionField, t);")], ["C42"]),
    ("sun-noold", [(R, "    oldSolutionField.internalField() = solutionField.internalField();\n", "")], ["C42"]),
    ("sun-oldout", [(R, "solution_.sunNVector(), solutionField.internalField());\n    oldSolutionField.internalField() = solutionField.internalField();",
                     "solution_.sunNVector(), oldSolutionField.internalField());")], ["C42"]),
    ("sun-nostep", [(R, "    ARKodeSetFixedStep(ark, dt);\n", "")], ["C42"]),
    ("sun-steponce", [(R, "    if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);", "    const bool first = pdeExpr_ == nullptr;\n    if (first) initSUNERKSolver(exp, oldSolutionField, t);"),
                       (R, "    ARKodeSetFixedStep(ark, dt);\n", "    if (first) ARKodeSetFixedStep(ark, dt);\n")], ["C42"]),
    ("sun-reinit-never", [(R, "        t,\n        initialConditions_", "        0.0,\n        initialConditions_")], ["C42"]),
    ("sun-sol-init", [(R, "        initialConditions_.sunNVector(),\n        *context_", "        solution_.sunNVector(),\n        *context_")], ["C42"]),

    ("sun-nouser", [(R, "    ARKodeSetUserData(ark, pdeExpr_.get());\n", "")], ["C42"]),
    ("sun-dictswap", [(R, "this->schemeDict_.template", "this->solutionDict_.template")], ["C42"]),
    ("sun-key", [(R, '"Runge-Kutta-Method"', '"Runge-Kutta"')], ["C42"]),
    ("sun-heun", [(H, '''    if (key == "Heun")
    {
        NF_ERROR_EXIT("Currently unsupported until field time step-stage indexing resolved.");
''', '''    if (key == "Heun")
    {
''')], ["C42"]),
    ("sun-fallback", [(H, "    return ARKODE_ERK_NONE; // avoids", "    return ARKODE_FORWARD_EULER_1_1; // avoids"),
                      (H, '''    NF_ERROR_EXIT(
        "Unsupported Runge-Kutta time integration method selectied: " + key + ".\\n"
        + "Supported methods are: Forward-Euler, Heun, Midpoint."
    );
''', '''    NF_INFO("Unsupported Runge-Kutta time integration method selectied: " + key + ".");
''')], ["C42"]),
    ("sun-kind-swap", [(H, '''        fieldToSunNVectorImpl<::sundials::kokkos::Vector<Kokkos::Serial>>(field, vector);''',
                        '''        fieldToSunNVectorImpl<::sundials::kokkos::Vector<Kokkos::DefaultHostExecutionSpace>>(field, vector);''')], ["C42"]),
    ("sun-emplace-gpu", [(H, '''        if (std::holds_alternative<NeoFOAM::GPUExecutor>(exec))
        {
            vector_.template emplace<SKDefaultVectorV>();''', '''        if (std::holds_alternative<NeoFOAM::GPUExecutor>(exec))
        {
            vector_.template emplace<SKVectorHostDefaultV>();''')], ["C42"]),
    ("sun-copy-short", [(H, '''field.exec(), field.range(), KOKKOS_LAMBDA(const size_t i) { view(i) = fieldView[i]; }''',
                         '''field.exec(), {size_t(1), field.size()}, KOKKOS_LAMBDA(const size_t i) { view(i) = fieldView[i]; }''')], ["C42"]),
    ("sun-clone-shared", [(R, "    : Base(other), context_(other.context_)\n", "    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_), context_(other.context_)\n")], []),
    ("sun-clone-expr", [(R, '''    // own, for the expression, field and time it is given, when it first solves.
''', '''    // own, for the expression, field and time it is given, when it first solves.
    if (other.pdeExpr_) pdeExpr_ = std::make_unique<dsl::Expression<ValueType>>(*other.pdeExpr_);
''')], ["C42"]),
    ("sun-init-drop", [(R, "    initSUNInitialConditions(field);\n", "")], ["C42"]),
    ("sun-init-order", [(R, "    initSUNVector(field.exec(), field.internalField().size());\n    initSUNInitialConditions(field);\n    initODEMemory(t);",
                         "    initSUNVector(field.exec(), field.internalField().size());\n    initODEMemory(t);\n    initSUNInitialConditions(field);")], ["C42"]),
    ("sun-init-size", [(R, "initialConditions_.initNVector(size, context_);", "initialConditions_.initNVector(1, context_);")], ["C42"]),
    ("sun-null-expr", [(R, "    pdeExpr_ = std::make_unique<dsl::Expression<ValueType>>(exp);", "    pdeExpr_ = std::make_unique<dsl::Expression<ValueType>>(exp.exec());")], ["C42"]),
    # refactorings
    ("sun-r-helper", [(R, '''    NeoFOAM::sundials::fieldToSunNVector(
        solutionField.internalField(), initialConditions_.sunNVector()
    );''', '''    const auto& values = solutionField.internalField();
    N_Vector& target = initialConditions_.sunNVector();
    NeoFOAM::sundials::fieldToSunNVector(values, target);''')], []),
    ("sun-r-neg", [(H, "pdeExpre->explicitOperation(size) * -1.0; // compute spatial", "pdeExpre->explicitOperation(size);\n    source *= -1.0;")], []),
    ("sun-r-loop", [(H, '''field.exec(), field.range(), KOKKOS_LAMBDA(const size_t i) { fieldData[i] = view(i); }''',
                     '''field.exec(), {size_t(0), field.size()}, KOKKOS_LAMBDA(const size_t i) { const auto v = view(i); fieldData[i] = v; }''')], []),
    ("sun-r-order", [(H, '''    if (std::holds_alternative<NeoFOAM::GPUExecutor>(field.exec()))
    {
        sunNVectorToFieldImpl<::sundials::kokkos::Vector<Kokkos::DefaultExecutionSpace>>(
            vector, field
        );
        return;
    }
    if (std::holds_alternative<NeoFOAM::CPUExecutor>(field.exec()))
    {
        sunNVectorToFieldImpl<::sundials::kokkos::Vector<Kokkos::DefaultHostExecutionSpace>>(
            vector, field
        );
        return;
    }
    if''', '''    const Executor& exec = field.exec();
    if (std::holds_alternative<NeoFOAM::CPUExecutor>(exec))
    {
        sunNVectorToFieldImpl<::sundials::kokkos::Vector<Kokkos::DefaultHostExecutionSpace>>(
            vector, field
        );
        return;
    }
    else if (std::holds_alternative<NeoFOAM::GPUExecutor>(exec))
    {
        sunNVectorToFieldImpl<::sundials::kokkos::Vector<Kokkos::DefaultExecutionSpace>>(
            vector, field
        );
        return;
    }
    if''')], []),
    ("sun-r-visit", [(H, '''        std::visit(
            [size, &context](auto& vec) { detail::initNVector(size, context, vec); }, vector_
        );''', '''        if (auto* host = std::get_if<SKVectorHostDefaultV>(&vector_)) host->initNVector(size, context);
        else if (auto* serial = std::get_if<SKVectorSerialV>(&vector_)) serial->initNVector(size, context);
        else std::get<SKDefaultVectorV>(vector_).initNVector(size, context);''')], []),
    ("sun-r-reset", [(R, "if (pdeExpr_ == nullptr) initSUNERKSolver(exp, oldSolutionField, t);", "if (!pdeExpr_)\n    {\n        initSUNERKSolver(exp, oldSolutionField, t);\n    }")], []),
]
