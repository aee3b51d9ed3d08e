"""Edits for C34 and later properties."""
M = "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp"
LS = "include/NeoFOAM/linearAlgebra/linearSystem.hpp"
ENT = '''        const IndexType rowSize = rowOffs[i + 1] - rowOffs[i];
        for (std::remove_const_t<IndexType> ic = 0; ic < rowSize; ++ic)
        {
            const IndexType localCol = rowOffs[i] + ic;
            if (colIdxs[localCol] == j)
            {
                return values[localCol];
            }
            if (colIdxs[localCol] > j) break;
        }
'''
SPL = '''            IndexType rowStart = rowPtrs[rowi];
            IndexType rowEnd = rowPtrs[rowi + 1];
            ValueType sum = 0.0;
            for (IndexType coli = rowStart; coli < rowEnd; coli++)
            {
                sum += values[coli] * x[colIdxs[coli]];
            }
            result[rowi] = sum - b[rowi];
'''
SG = "include/NeoFOAM/fields/segmentedField.hpp"
SCAN = "            update += inSpan[i];\n            if (final)\n            {\n                offsSpan[i] = update;\n            }\n"
EDITS = [
    ("seg-exclusive", [(SG, SCAN, "            if (final)\n            {\n                offsSpan[i] = update;\n            }\n            update += inSpan[i];\n")], ["C39"]),
    ("seg-shift", [(SG, "offsets.view().subspan(1)", "offsets.view().subspan(0)"), (SG, "{0, offsSpan.size()},", "{0, inSpan.size()},")], ["C39"]),
    ("seg-sum-minus", [(SG, "    return finalValue;", "    return finalValue - inSpan[0];")], ["C39"]),
    ("seg-scan-short", [(SG, "{0, offsSpan.size()},", "{0, offsSpan.size() - 1},")], ["C39"]),
    ("seg-scan-always-ok", [(SG, "            if (final)\n            {\n                offsSpan[i] = update;\n            }\n", "            if (final) offsSpan[i] = update;\n")], []),
    ("seg-loop-ok", [(SG, SCAN, "            const auto length = inSpan[i];\n            update = update + length;\n            if (!final) return;\n            offsSpan[i] = update;\n")], []),
    ("seg-nsegs", [(SG, "segments_(exec, numSegments + 1)", "segments_(exec, numSegments)")], ["C39"]),
    ("seg-nozero", [(SG, "intervals.size() + 1, IndexType(0))", "intervals.size() + 1)")], ["C39"]),
    ("seg-values-n", [(SG, "values_ = Field<ValueType>(intervals.exec(), valueSize);", "values_ = Field<ValueType>(intervals.exec(), intervals.size());")], ["C39"]),
    ("seg-values-resize-ok", [(SG, "values_ = Field<ValueType>(intervals.exec(), valueSize);", "values_.resize(valueSize);")], []),
    ("seg-range-end", [(SG, "segments[segI], segments[segI + 1] - segments[segI]", "segments[segI], segments[segI + 1]")], ["C39"]),
    ("seg-bounds-next", [(SG, "{segments[segI], segments[segI + 1]};", "{segments[segI], segments[segI] + segments[1]};")], ["C39"]),
    ("seg-span-ok", [(SG, "        auto [start, length] = range(segI);\n        return values.subspan(start, length);", "        const auto [start, end] = bounds(segI);\n        return values.subspan(start, end - start);")], []),
    ("seg-span-bad", [(SG, "        auto [start, length] = range(segI);", "        auto [start, length] = bounds(segI);")], ["C39"]),
    ("seg-numseg", [(SG, "return segments_.size() - 1;", "return segments_.size();")], ["C39"]),
    ("la-entry-ge", [(M, "if (colIdxs[localCol] > j) break;", "if (colIdxs[localCol] >= j - 1) break;")], ["C34"]),
    ("la-entry-short", [(M, ENT, ENT.replace("ic < rowSize;", "ic + 1 < rowSize;"))], ["C34"]),
    ("la-entry-long", [(M, ENT, ENT.replace("ic < rowSize;", "ic <= rowSize;"))], ["C34"]),
    ("la-entry-from1", [(M, ENT, ENT.replace("ic = 0;", "ic = 1;"))], ["C34"]),
    ("la-entry-idx", [(M, ENT, ENT.replace("return values[localCol];", "return values[ic];"))], ["C34"]),
    ("la-entry-near", [(M, ENT, ENT.replace("if (colIdxs[localCol] == j)", "if (colIdxs[localCol] >= j)"))], ["C34"]),
    ("la-entry-nobreak-ok", [(M, "            if (colIdxs[localCol] > j) break;\n", "")], []),
    ("la-entry-while-ok", [(M, ENT, '''        auto k = rowOffs[i];
        const auto end = rowOffs[i + 1];
        while (k < end && colIdxs[k] < j) ++k;
        if (k < end && colIdxs[k] == j) return values[k];
''')], []),
    ("la-entry-while-bad", [(M, ENT, '''        std::remove_const_t<IndexType> k = rowOffs[i];
        const auto end = rowOffs[i + 1];
        while (k < end && colIdxs[k] < j) ++k;
        if (k < end) return values[k];
''')], ["C34"]),
    ("la-nrows", [(M, "             - static_cast<IndexType>(static_cast<bool>(rowOffs_.size()));", "             ;")], ["C34"]),
    ("la-nrows-cond-ok", [(M, "        return static_cast<IndexType>(rowOffs_.size())\n             - static_cast<IndexType>(static_cast<bool>(rowOffs_.size()));", "        return rowOffs_.size() > 0 ? static_cast<IndexType>(rowOffs_.size() - 1) : IndexType(0);")], []),
    ("la-nrows-minus", [(M, "             - static_cast<IndexType>(static_cast<bool>(rowOffs_.size()));", "             - 1;")], ["C34"]),
    ("la-ctor-swap", [(M, ": values_(values), colIdxs_(colIdxs), rowOffs_(rowOffs)\n", ": values_(values), colIdxs_(colIdxs), rowOffs_(colIdxs)\n")], ["C34"]),
    ("la-view-swap", [(M, "        return CSRMatrixView(values_.view(), colIdxs_.view(), rowOffs_.view());\n    }\n\n    /**\n     * @brief Get a const", "        return CSRMatrixView(values_.view(), rowOffs_.view(), colIdxs_.view());\n    }\n\n    /**\n     * @brief Get a const")], ["C34"]),
    ("la-copy-host", [(M, "            values_.copyToExecutor(dstExec),", "            values_.copyToHost(),")], ["C34"]),
    ("la-reset-norhs", [(LS, "        fill(rhs_, zero<ValueType>());\n", "")], ["C34"]),
    ("la-reset-range", [(LS, "        fill(matrix_.values(), zero<ValueType>());", "        fill(matrix_.values(), zero<ValueType>(), {0, matrix_.nRows()});")], ["C34"]),
    ("la-reset-assign-ok", [(LS, "        fill(rhs_, zero<ValueType>());\n", "        rhs_ = zero<ValueType>();\n")], []),
    ("la-lscopy-share", [(LS, "LinearSystem(const LinearSystem& ls) : matrix_(ls.matrix_), rhs_(ls.rhs_) {};", "LinearSystem(const LinearSystem& ls) : matrix_(ls.matrix_), rhs_(ls.rhs_.exec(), ls.rhs_.size(), zero<ValueType>()) {};")], ["C34"]),
    ("la-host-norhs", [(LS, "return LinearSystem(matrix_.copyToHost(), rhs_.copyToHost());", "return LinearSystem(matrix_.copyToHost(), Field<ValueType>(SerialExecutor(), rhs_.size()));")], ["C34"]),
    ("la-empty-ones", [(LS, "Field<ValueType>(exec, nnzs, zero<ValueType>())", "Field<ValueType>(exec, nnzs)")], ["C34"]),
    ("la-empty-rows", [(LS, "Field<ValueType> {exec, rows, zero<ValueType>()}", "Field<ValueType> {exec, nnzs, zero<ValueType>()}")], ["C34"]),
    ("la-spmv-nob", [(LS, SPL, SPL.replace("sum - b[rowi]", "sum"))], ["C34"]),
    ("la-spmv-col", [(LS, SPL, SPL.replace("x[colIdxs[coli]]", "x[coli]"))], ["C34"]),
    ("la-spmv-le", [(LS, SPL, SPL.replace("coli < rowEnd", "coli <= rowEnd"))], ["C34"]),
    ("la-spmv-row", [(LS, SPL, SPL.replace("rowPtrs[rowi + 1]", "rowPtrs[rowi] + rowPtrs[1]"))], ["C34"]),
    ("la-spmv-range", [(LS, "        {0, ls.matrix().nRows()},", "        {1, ls.matrix().nRows()},")], ["C34"]),
    ("la-spmv-init-ok", [(LS, SPL, SPL.replace("ValueType sum = 0.0;", "ValueType sum = -b[rowi];").replace("sum - b[rowi]", "sum"))], []),
    ("la-spmv-while-ok", [(LS, SPL, SPL.replace("for (IndexType coli = rowStart; coli < rowEnd; coli++)", "for (IndexType k = 0; k < rowEnd - rowStart; ++k)").replace("                sum +=", "                const IndexType coli = rowStart + k;\n                sum +="))], []),
    ("la-conv-swap", [(M, "return IndexTypeOut(in.rowOffs[i]);", "return IndexTypeOut(in.colIdxs[i]);")], ["C34"]),
    ("la-conv-size", [(M, "Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());", "Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size() - 1);")], ["C34"]),
]
