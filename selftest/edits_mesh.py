"""Edits for C28."""
M = "src/mesh/unstructured/unstructuredMesh.cpp"
B = "src/mesh/unstructured/boundaryMesh.cpp"
SUB = "    auto end = static_cast<size_t>(offsets[i + 1]);\n    return field.view({start, end});"
EDITS = [
    ("mesh-acc-swap", [(M, "UnstructuredMesh::faceCentres() const { return faceCentres_; }", "UnstructuredMesh::faceCentres() const { return faceAreas_; }")], ["C28"]),
    ("mesh-ctor-swap", [(M, "faceAreas_(faceAreas), faceCentres_(faceCentres)", "faceAreas_(faceCentres), faceCentres_(faceAreas)")], ["C28"]),
    ("mesh-ctor-num", [(M, "nBoundaryFaces_(nBoundaryFaces), nBoundaries_(nBoundaries),", "nBoundaryFaces_(nBoundaryFaces), nBoundaries_(nBoundaryFaces),")], ["C28"]),
    ("mesh-sub-len", [(B, SUB, "    return field.view({start, static_cast<size_t>(offsets.back())});")], ["C28"]),
    ("mesh-sub-helper-ok", [(B, SUB, "    const auto next = i + 1;\n    const auto end = static_cast<size_t>(offsets[next]);\n    return field.view().subspan(start, end - start);")], []),
    ("mesh-bacc-swap", [(B, "    return extractSubSpan(weights_, offset_, i);", "    return extractSubSpan(deltaCoeffs_, offset_, i);")], ["C28"]),
    ("mesh-bctor-swap", [(B, "Cf_(cf), Cn_(cn), Sf_(sf)", "Cf_(cf), Cn_(cn), Sf_(nf)")], ["C28"]),
    ("mesh-1d-own", [(M, "faceOwnerHostSpan[nCells] = static_cast<label>(nCells) - 1;", "faceOwnerHostSpan[nCells] = static_cast<label>(nCells - 1) / 2 * 2;")], ["C28"]),
    ("mesh-1d-area", [(M, "    faceAreasHostView[nCells - 1] = {-1.0, 0.0, 0.0}; // left boundary face\n", "")], ["C28"]),
    ("mesh-1d-delta", [(M, "rightBoundary[0] - cellCentersHostSpan[nCells - 1][0], 0.0, 0.0};", "cellCentersHostSpan[nCells - 1][0] - rightBoundary[0], 0.0, 0.0};")], ["C28"]),
    ("mesh-1d-range", [(M, "        {0, nCells},\n        KOKKOS_LAMBDA(const size_t i) {\n            cellCentersSpan", "        {1, nCells},\n        KOKKOS_LAMBDA(const size_t i) {\n            cellCentersSpan")], ["C28"]),
    ("mesh-1d-centre-ok", [(M, "cellCentersSpan[i][0] = 0.5 * meshSpacing + meshSpacing * static_cast<scalar>(i);", "cellCentersSpan[i][0] = (static_cast<scalar>(i) + 0.5) * meshSpacing;")], []),
    ("mesh-1d-fc", [(M, "{exec, {0, static_cast<int>(nCells) - 1}},", "{exec, {0, static_cast<int>(nCells)}},")], ["C28"]),
    ("mesh-1d-coef", [(M, "deltaCoeffsHostSpan[1] = 1 / mag(deltaHostSpan[1]);", "deltaCoeffsHostSpan[1] = mag(deltaHostSpan[1]);")], ["C28"]),
    ("mesh-1d-order-ok", [(M, "    scalarField cellVolumes(exec, nCells, meshSpacing);\n", "    scalarField cellVolumes(exec, nCells, 0.0);\n    fill(cellVolumes, meshSpacing);\n")], []),
    ("mesh-cell-delta", [(M, "{0.5, 0.0, 0.0}, {0.0, -0.5, 0.0}}}, // delta", "{0.5, 0.0, 0.0}, {0.0, 0.5, 0.0}}}, // delta")], ["C28"]),
    ("mesh-cell-off", [(M, "{0, 1, 2, 3, 4}", "{0, 1, 2, 4, 4}")], ["C28"]),
    ("mesh-1d-intern", [(M, "        nCells - 1,\n        2,\n        2,", "        nCells,\n        2,\n        2,")], ["C28"]),
]
