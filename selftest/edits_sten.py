"""Edits for C35."""
ST = "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp"
SP = "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
SWAP = '''            size_t segIdxOwn = Kokkos::atomic_fetch_add(
                &nFacesPerCellSpan[owner], 1
            ); // hit on performance on serial
            size_t segIdxNei = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);

            size_t startSegOwn = segment[owner];
            size_t startSegNei = segment[neighbour];
            Kokkos::atomic_assign(&stencilValues[startSegOwn + segIdxOwn], facei);
            Kokkos::atomic_assign(&stencilValues[startSegNei + segIdxNei], facei);
'''
SWAPPED = '''            const size_t neiPos = segment[neighbour] + Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);
            stencilValues[neiPos] = facei;
            const size_t ownPos = segment[owner] + Kokkos::atomic_fetch_add(&nFacesPerCellSpan[owner], 1);
            stencilValues[ownPos] = facei;
'''
BND = '''        {nInternalFaces, nInternalFaces + faceFaceCells.size()},
        KOKKOS_LAMBDA(const size_t facei) {
            size_t owner = static_cast<size_t>(faceFaceCells[facei - nInternalFaces]);
            // return the oldValues
            size_t segIdxOwn = Kokkos::atomic_fetch_add(
                &nFacesPerCellSpan[owner], 1
            ); // hit on performance on serial
            size_t startSegOwn = segment[owner];
            Kokkos::atomic_assign(&stencilValues[startSegOwn + segIdxOwn], facei);
'''
BND_B = '''        {0, faceFaceCells.size()},
        KOKKOS_LAMBDA(const size_t bfacei) {
            size_t owner = static_cast<size_t>(faceFaceCells[bfacei]);
            size_t slot = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[owner], 1);
            Kokkos::atomic_assign(&stencilValues[segment[owner] + slot], %s);
'''
COUNT2 = '''            Kokkos::atomic_increment(&nFacesPerCellSpan[static_cast<size_t>(faceOwner[i])]
            ); // hit on performance on serial
            Kokkos::atomic_increment(&nFacesPerCellSpan[static_cast<size_t>(faceNeighbour[i])]);
'''
CNT = "            Kokkos::atomic_increment(&nFacesPerCellSpan[owner]);\n            Kokkos::atomic_increment(&nFacesPerCellSpan[neighbour]);\n"
MAP = '''    map(
        nFacesPerCell,
        KOKKOS_LAMBDA(const size_t celli) {
            size_t nFaces = nFacesPerCellSpan[static_cast<size_t>(celli)];
            diagOffsetSpan[celli] = static_cast<uint8_t>(nFaces);
            sColIdx[rowPtrs[celli] + nFaces] = celli;
            return nFaces + 1;
        }
    );
'''
LOW = '''            size_t segIdxNei = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);
            neighbourOffsetSpan[facei] = static_cast<uint8_t>(segIdxNei);
'''
EDITS = [
    ("sten-swap-ok", [(ST, SWAP, SWAPPED)], []),
    ("sten-swap-cell", [(ST, SWAP, SWAPPED.replace("segment[neighbour] + ", "segment[owner] + "))], ["C35"]),
    ("sten-bnd-ok", [(ST, BND, BND_B % "nInternalFaces + bfacei")], []),
    ("sten-bnd-local", [(ST, BND, BND_B % "bfacei")], ["C35"]),
    ("sten-bnd-count", [(ST, "            Kokkos::atomic_increment(&nFacesPerCellSpan[faceFaceCells[i]]);", "            if (faceFaceCells[i] > 0) Kokkos::atomic_increment(&nFacesPerCellSpan[faceFaceCells[i]]);")], ["C35"]),
    ("sten-count-first", [(ST, COUNT2, COUNT2.replace("faceNeighbour[i])]);", "faceOwner[i])]);"))], ["C35"]),
    ("sten-noreset", [(ST, "    fill(nFacesPerCell, 0); // reset nFacesPerCell\n", "")], ["C35"]),
    ("sten-reset-part", [(ST, "    fill(nFacesPerCell, 0); // reset nFacesPerCell\n", "    fill(nFacesPerCell, 0, {0, nCells - 1});\n")], ["C35"]),
    ("sten-init-one", [(ST, "Field<localIdx> nFacesPerCell(exec, nCells, 0);", "Field<localIdx> nFacesPerCell(exec, nCells, 1);")], ["C35"]),
    ("sten-reset-new-ok", [(ST, "    fill(nFacesPerCell, 0); // reset nFacesPerCell\n", "    Field<localIdx> slots(exec, nCells, 0);\n    nFacesPerCellSpan = slots.view();\n")], []),
    ("sten-range", [(ST, "        {0, nInternalFaces},\n        KOKKOS_LAMBDA(const size_t facei) {", "        {1, nInternalFaces},\n        KOKKOS_LAMBDA(const size_t facei) {")], ["C35"]),
    ("pat-updown-ok", [(SP, LOW, "            const auto slot = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[neighbour], 1);\n            const size_t segIdxNei = slot;\n            neighbourOffsetSpan[facei] = static_cast<uint8_t>(slot);\n")], []),
    ("pat-noff-swap", [(SP, LOW, LOW.replace("neighbourOffsetSpan", "ownerOffsetSpan"))], ["C35"]),
    ("pat-colidx-nei", [(SP, "&sColIdx[startSegNei + segIdxNei], owner)", "&sColIdx[startSegNei + segIdxNei], neighbour)")], ["C35"]),
    ("pat-diag-noinc", [(SP, "            return nFaces + 1;", "            return nFaces;")], ["C35"]),
    ("pat-diag-first", [(SP, "            sColIdx[rowPtrs[celli] + nFaces] = celli;", "            sColIdx[rowPtrs[celli]] = celli;")], ["C35"]),
    ("pat-diag-off", [(SP, "static_cast<uint8_t>(nFaces);", "static_cast<uint8_t>(nFaces + 1);")], ["C35"]),
    ("pat-init-zero", [(SP, "Field<localIdx> nFacesPerCell(exec, nCells, 1);", "Field<localIdx> nFacesPerCell(exec, nCells, 0);")], ["C35"]),
    ("pat-noreset", [(SP, "    fill(nFacesPerCell, 0); // reset nFacesPerCell\n", "")], ["C35"]),
    ("pat-count-own", [(SP, CNT, CNT.replace("[neighbour]", "[owner]"))], ["C35"]),
    ("pat-diag-fetch-ok", [(SP, MAP, '''    parallelFor(
        exec,
        {0, nCells},
        KOKKOS_LAMBDA(const size_t celli) {
            const size_t slot = Kokkos::atomic_fetch_add(&nFacesPerCellSpan[celli], 1);
            diagOffsetSpan[celli] = static_cast<uint8_t>(slot);
            sColIdx[rowPtrs[celli] + slot] = celli;
        }
    );
''')], []),
    ("pat-diag-par-ok", [(SP, MAP, '''    parallelFor(
        exec,
        {0, nCells},
        KOKKOS_LAMBDA(const size_t celli) {
            const size_t slot = nFacesPerCellSpan[celli];
            diagOffsetSpan[celli] = static_cast<uint8_t>(slot);
            sColIdx[rowPtrs[celli] + slot] = celli;
            nFacesPerCellSpan[celli] = slot + 1;
        }
    );
''')], []),
    ("pat-size", [(SP, "mesh.nCells() + 2 * mesh.nInternalFaces(), 0)", "mesh.nCells() + 2 * mesh.nInternalFaces() + 1, 0)")], ["C35"]),
    ("pat-oo-nei", [(SP, "            size_t startSegOwn = rowPtrs[owner];", "            size_t startSegOwn = rowPtrs[neighbour];")], ["C35"]),
    ("pat-upper-range", [(SP, "        {0, nInternalFaces},\n        KOKKOS_LAMBDA(const size_t facei) {\n            size_t neighbour", "        {0, nInternalFaces - 1},\n        KOKKOS_LAMBDA(const size_t facei) {\n            size_t neighbour")], ["C35"]),
    ("pat-acc-swap", [(SP, "SparsityPattern::ownerOffset() const { return ownerOffset_; }", "SparsityPattern::ownerOffset() const { return neighbourOffset_; }")], ["C35"]),
]
