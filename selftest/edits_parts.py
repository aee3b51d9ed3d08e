B = "include/NeoFOAM/fields/boundaryFields.hpp"
D = "include/NeoFOAM/fields/domainField.hpp"
G = "include/NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp"
V = "include/NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
S = "include/NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
M = "include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp"
C = ["C45"]
EDITS = [
    ("parts-bnd-exec", [(B, ": exec_(exec), value_(exec, rhs.value_)", ": exec_(rhs.exec_), value_(exec, rhs.value_)")], C),
    ("parts-bnd-refvalue", [(B, "refValue_(exec, rhs.refValue_)", "refValue_(exec, rhs.value_)")], C),
    ("parts-bnd-front", [(B, "nBoundaryFaces_(offsets.back())", "nBoundaryFaces_(offsets.front())")], C),
    ("parts-bnd-types", [(B, "boundaryTypes_(exec, offsets.size() - 1)", "boundaryTypes_(exec, offsets.size())")], C),
    ("parts-bnd-count", [(B, "nBoundaries_(offsets.size() - 1)", "nBoundaries_(offsets.size())")], C),
    ("parts-bnd-grad", [(B, "valueFraction_(exec, offsets.back()), refGrad_(exec, offsets.back())", "valueFraction_(exec, offsets.back()), refGrad_(exec, offsets.size())")], C),
    ("parts-range-end", [(B, "hostOffset.data()[patchId + 1]", "hostOffset.data()[patchId] + 1")], C),
    ("parts-range-swap", [(B, "{hostOffset.data()[patchId], hostOffset.data()[patchId + 1]}", "{hostOffset.data()[patchId + 1], hostOffset.data()[patchId]}")], C),
    ("parts-dom-bnd", [(D, "internalField_(exec, internalField), boundaryFields_(exec, boundaryFields)", "internalField_(exec, internalField), boundaryFields_(boundaryFields)")], C),
    ("parts-dom-int", [(D, "internalField_(exec, internalField), boundaryFields_(exec, offsets)", "internalField_(internalField), boundaryFields_(exec, offsets)")], C),
    ("parts-dom-mesh", [(D, "internalField_(exec, mesh.nCells())", "internalField_(exec, mesh.nFaces())")], C),
    ("parts-dom-size", [(D, "internalField_(exec, nCells), boundaryFields_(exec, offsets)", "internalField_(exec, offsets.back()), boundaryFields_(exec, offsets)")], C),
    ("parts-patch-start", [(M, "start_(static_cast<label>(mesh.boundaryMesh().offset()[patchID_]))", "start_(static_cast<label>(mesh.boundaryMesh().offset()[0]))")], C),
    ("parts-patch-end", [(M, "offset()[patchID_ + 1]", "offset().back()")], C),
    ("parts-patch-size", [(M, "static_cast<size_t>(end_ - start_)", "static_cast<size_t>(end_ - start_ + 1)")], C),
    ("parts-geo-size", [(G, "if (mesh.nCells() != internalField.size())", "if (mesh.nCells() > internalField.size())")], C),
    ("parts-geo-size-never", [(G, "if (mesh.nCells() != internalField.size())", "if (mesh.nCells() != field_.internalField().size() && internalField.size() == 0)")], C),
    ("parts-geo-exec", [(G, "field_(exec, field.internalField(), field.boundaryField())", "field_(field)")], C),
    ("parts-vol-throw", [(V, "        if (!db_.has_value())\n", "        if (db_.has_value() && !*db_)\n")], C),
    ("parts-vol-registered", [(V, 'key != "" && fieldCollectionName != "" && db_.has_value()', 'key != "" && db_.has_value()')], C),
    ("parts-vol-registered2", [(V, 'key != "" && fieldCollectionName != "" && db_.has_value()', 'key != "" && fieldCollectionName != ""')], C),
    ("parts-vol-key", [(V, "key(dbKey),\n          fieldCollectionName(collectionName)", "key(dbKey),\n          fieldCollectionName(dbKey)")], C),
    ("parts-vol-bcs", [(V, "boundaryConditions_(boundaryConditions),\n          db_(std::nullopt)\n    {}\n\n\n    /**\n     * @brief Constructor for a VolumeField with a given internal field\n", "boundaryConditions_(),\n          db_(std::nullopt)\n    {}\n\n\n    /**\n     * @brief Constructor for a VolumeField with a given internal field\n")], C),
    ("parts-vol-null", [(V, "boundaryConditions_(boundaryConditions), db_(std::nullopt)\n    {}\n\n    /**\n     * @brief Constructor for a VolumeField with a given internal field and database", "boundaryConditions_(boundaryConditions), db_(nullptr)\n    {}\n\n    /**\n     * @brief Constructor for a VolumeField with a given internal field and database")], C),
    ("parts-surf-size", [(S, "mesh.nInternalFaces() + mesh.nBoundaryFaces()", "mesh.nInternalFaces()")], C),
    # behaviour kept
    ("parts-ok-surf", [(S, "mesh.nInternalFaces() + mesh.nBoundaryFaces()", "mesh.nBoundaryFaces() + mesh.nInternalFaces()")], []),
    ("parts-ok-size", [(G, "if (mesh.nCells() != internalField.size())\n        {", "const auto expected = mesh.nCells();\n        if (!(field_.internalField().size() == expected))\n        {")], []),
    ("parts-ok-registered", [(V, 'return key != "" && fieldCollectionName != "" && db_.has_value();', 'if (!hasDatabase() || key.empty()) return false;\n        return !fieldCollectionName.empty();')], []),
    ("parts-ok-patch", [(M, ": patchID_(patchID), start_(static_cast<label>(mesh.boundaryMesh().offset()[patchID_])),\n          end_(static_cast<label>(mesh.boundaryMesh().offset()[patchID_ + 1]))\n    {}", ": patchID_(patchID)\n    {\n        const auto& offs = mesh.boundaryMesh().offset();\n        start_ = static_cast<label>(offs[patchID]);\n        end_ = static_cast<label>(offs[patchID + 1]);\n    }")], []),
    ("parts-ok-bnd", [(B, "nBoundaries_(offsets.size() - 1), nBoundaryFaces_(offsets.back())", "nBoundaries_(boundaryTypes_.size()), nBoundaryFaces_(value_.size())")], []),
    ("parts-ok-dom", [(D, "        : exec_(exec), internalField_(exec, mesh.nCells()),\n          boundaryFields_(exec, mesh.boundaryMesh().offset())\n    {}", "        : DomainField(exec, mesh.nCells(), mesh.boundaryMesh().offset())\n    {}")], []),
    ("parts-ok-db", [(V, "        return *db_.value();\n    }\n\n    /**\n     * @brief Retrieves the database.\n     *\n     * @return const", "        Database* p = *db_;\n        return *p;\n    }\n\n    /**\n     * @brief Retrieves the database.\n     *\n     * @return const")], []),
]
EDITS += [
    ("parts-copy-exec", [("include/NeoFOAM/fields/domainField.hpp", ": exec_(rhs.exec_), internalField_(rhs.internalField_)", ": exec_(), internalField_(rhs.internalField_)")], ["C29"]),
]

RK, SI, SO = "src/timeIntegration/rungeKutta.cpp", "include/NeoFOAM/finiteVolume/cellCentred/interpolation/surfaceInterpolation.hpp", "include/NeoFOAM/linearAlgebra/solver.hpp"
DF = "include/NeoFOAM/fields/domainField.hpp"
EDITS += [
    ("mv-dom-int", [(DF, "internalField_ = std::move(rhs.internalField_);", "(void)rhs.internalField_;")], ["C29"]),
    ("mv-dom-bnd", [(DF, "          boundaryFields_(std::move(rhs.boundaryFields_))\n", "          boundaryFields_(rhs.exec_, std::vector<localIdx> {0})\n")], ["C29"]),
    ("mv-rk-ctx", [(RK, "      initialConditions_(std::move(other.initialConditions_)), context_(std::move(other.context_)),\n", "      initialConditions_(std::move(other.initialConditions_)),\n")], ["C29"]),
    ("mv-rk-dict", [(RK, "    : Base(std::move(other)), solution_(std::move(other.solution_)),", "    : Base(Dictionary {}, Dictionary {}), solution_(std::move(other.solution_)),")], ["C29"]),
    ("mv-si-drop", [(SI, "          interpolationKernel_(std::move(surfInterp.interpolationKernel_)) {};", "          interpolationKernel_(nullptr) {};")], ["C29"]),
    ("mv-so-exec", [(SO, "        : exec_(solver.exec_), solverInstance_(std::move(solver.solverInstance_)) {};", "        : exec_(SerialExecutor {}), solverInstance_(std::move(solver.solverInstance_)) {};")], ["C29"]),
    ("mv-q-dom", [(DF, "internalField_ = std::move(rhs.internalField_);", "internalField_ = rhs.internalField_;")], []),
]
