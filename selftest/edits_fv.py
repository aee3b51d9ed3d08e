B = "src/finiteVolume/cellCentred/"
H = "include/NeoFOAM/finiteVolume/cellCentred/"
DIV, LAP, GRAD, SI = (B + "operators/" + x + ".cpp" for x in ("gaussGreenDiv", "gaussGreenLaplacian", "gaussGreenGrad", "surfaceIntegrate"))
SRC, DDT = B + "operators/sourceTerm.cpp", B + "operators/ddtOperator.cpp"
CO, FNG = B + "auxiliary/coNum.cpp", B + "faceNormalGradient/uncorrected.cpp"
UP, LIN, GEO = B + "interpolation/upwind.cpp", B + "interpolation/linear.cpp", B + "stencil/basicGeometryScheme.cpp"
VB, SB, PM = H + "boundary/volume/", H + "boundary/surface/", H + "boundary/boundaryPatchMixin.hpp"

EDITS = [
    # ---------------------------------------------------------------- div explicit
    ("fv-div-sign", [(DIV, "Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux);", "Kokkos::atomic_add(&res[static_cast<size_t>(neighbour[i])], flux);")], ["C24"]),
    ("fv-div-serial-sign", [(DIV, "res[static_cast<size_t>(neighbour[i])] -= flux;", "res[static_cast<size_t>(neighbour[i])] += flux;")], ["C24"]),
    ("fv-div-ownnei", [(DIV, "Kokkos::atomic_add(&res[static_cast<size_t>(owner[i])], flux);\n                Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux);", "Kokkos::atomic_sub(&res[static_cast<size_t>(owner[i])], flux);\n                Kokkos::atomic_add(&res[static_cast<size_t>(neighbour[i])], flux);")], ["C24"]),
    ("fv-div-noatomic", [(DIV, "Kokkos::atomic_add(&res[own], valueOwn);", "res[own] += valueOwn;")], ["C23"]),
    ("fv-div-serial-bface", [(DIV, "auto own = static_cast<size_t>(faceCells[i - nInternalFaces]);\n            ValueType valueOwn = faceFlux[i] * phiF[i];", "auto own = static_cast<size_t>(faceCells[i - nInternalFaces]);\n            ValueType valueOwn = faceFlux[i - nInternalFaces] * phiF[i];")], ["C24"]),
    ("fv-div-vol", [(DIV, "res[celli] *= operatorScaling[celli] / v[celli]; },", "res[celli] *= operatorScaling[celli] * v[celli]; },")], ["C24"]),
    ("fv-div-scale0", [(DIV, "res[celli] *= operatorScaling[celli] / v[celli]; },", "res[celli] *= operatorScaling[0] / v[celli]; },")], ["C24"]),
    ("fv-div-range", [(DIV, "{nInternalFaces, nInternalFaces + nBoundaryFaces},", "{nInternalFaces, nBoundaryFaces},")], ["C24"]),
    ("fv-div-range-all", [(DIV, "            {0, nInternalFaces},\n            KOKKOS_LAMBDA(const size_t i) {\n                ValueType flux = faceFlux[i] * phiF[i];", "            {0, nInternalFaces + nBoundaryFaces},\n            KOKKOS_LAMBDA(const size_t i) {\n                ValueType flux = faceFlux[i] * phiF[i];")], ["C25", "C24"]),
    ("fv-div-bcell-oob", [(DIV, "auto own = static_cast<size_t>(faceCells[i - nInternalFaces]);\n                ValueType", "auto own = static_cast<size_t>(faceCells[i]);\n                ValueType")], ["C25"]),
    ("fv-div-args", [(DIV, "        mesh.faceNeighbour().view(),\n        mesh.faceOwner().view(),", "        mesh.faceOwner().view(),\n        mesh.faceNeighbour().view(),")], ["C24"]),
    ("fv-div-nofill", [(H + "operators/gaussGreenDiv.hpp", "fill(", "(void)(")], ["C24"]),
    # refactorings
    ("fv-div-helper", [(DIV, "template<typename ValueType>\nvoid computeDiv(", "template<typename ValueType>\nKOKKOS_INLINE_FUNCTION void scatterFlux(View<ValueType> r, size_t o, size_t n, ValueType f)\n{\n    Kokkos::atomic_add(&r[o], f);\n    Kokkos::atomic_sub(&r[n], f);\n}\n\ntemplate<typename ValueType>\nvoid computeDiv("),
                       (DIV, "Kokkos::atomic_add(&res[static_cast<size_t>(owner[i])], flux);\n                Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux);", "scatterFlux<ValueType>(res, static_cast<size_t>(owner[i]), static_cast<size_t>(neighbour[i]), flux);")], []),
    ("fv-div-order", [(DIV, "Kokkos::atomic_add(&res[static_cast<size_t>(owner[i])], flux);\n                Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux);", "const auto n = static_cast<size_t>(neighbour[i]);\n                const auto o = static_cast<size_t>(owner[i]);\n                Kokkos::atomic_sub(&res[n], flux);\n                Kokkos::atomic_add(&res[o], flux);")], []),
    ("fv-div-negadd", [(DIV, "Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux);", "Kokkos::atomic_add(&res[static_cast<size_t>(neighbour[i])], -1.0 * flux);")], []),
    ("fv-div-shift", [(DIV, "            {nInternalFaces, nInternalFaces + nBoundaryFaces},\n            KOKKOS_LAMBDA(const size_t i) {\n                auto own = static_cast<size_t>(faceCells[i - nInternalFaces]);\n                ValueType valueOwn = faceFlux[i] * phiF[i];", "            {0, nBoundaryFaces},\n            KOKKOS_LAMBDA(const size_t b) {\n                auto own = static_cast<size_t>(faceCells[b]);\n                ValueType valueOwn = faceFlux[b + nInternalFaces] * phiF[nInternalFaces + b];")], []),
    ("fv-div-while", [(DIV, "for (size_t i = 0; i < nInternalFaces; i++)\n        {\n            ValueType flux = faceFlux[i] * phiF[i];\n            res[static_cast<size_t>(owner[i])] += flux;\n            res[static_cast<size_t>(neighbour[i])] -= flux;\n        }", "size_t i = 0;\n        while (i < nInternalFaces)\n        {\n            ValueType flux = faceFlux[i] * phiF[i];\n            res[static_cast<size_t>(owner[i])] += flux;\n            res[static_cast<size_t>(neighbour[i])] -= flux;\n            ++i;\n        }")], []),
    ("fv-div-invvol", [(DIV, "KOKKOS_LAMBDA(const size_t celli) { res[celli] *= operatorScaling[celli] / v[celli]; },", "KOKKOS_LAMBDA(const size_t celli) {\n                const scalar invV = 1.0 / v[celli];\n                res[celli] = res[celli] * (invV * operatorScaling[celli]);\n            },")], []),
    ("fv-div-onlypar", [(DIV, "if (std::holds_alternative<SerialExecutor>(exec))", "if (!std::holds_alternative<GPUExecutor>(exec) && std::holds_alternative<SerialExecutor>(exec))")], []),
    ("fv-div-lambda", [(DIV, "        for (size_t celli = 0; celli < nCells; celli++)\n        {\n            res[celli] *= operatorScaling[celli] / v[celli];\n        }", "        auto normalise = [&](size_t celli) { res[celli] *= operatorScaling[celli] / v[celli]; };\n        for (size_t celli = 0; celli < nCells; celli++)\n        {\n            normalise(celli);\n        }")], []),
    # ---------------------------------------------------------------- grad
    ("fv-grad-swap", [(GRAD, "&surfGradPhi[static_cast<size_t>(surfOwner[i])], flux", "&surfGradPhi[static_cast<size_t>(surfNeighbour[i])], flux")], ["C24"]),
    ("fv-grad-noatomic", [(GRAD, "Kokkos::atomic_add(&surfGradPhi[own], valueOwn);", "surfGradPhi[own] += valueOwn;")], ["C23"]),
    ("fv-grad-nofill", [(GRAD, "    fill(gradPhi.internalField(), zero<Vector>());\n", "")], ["C24"]),
    ("fv-grad-sbsf", [(GRAD, "Vector valueOwn = faceAreaS[i] * surfPhif[i];", "Vector valueOwn = sBSf[i] * surfPhif[i];")], ["C24", "C25"]),
    ("fv-grad-novol", [(GRAD, "{0, mesh.nCells()}", "{1, mesh.nCells()}")], ["C24"]),
    ("fv-grad-spanorder", [(GRAD, "surfPhif, surfOwner, surfNeighbour, faceAreaS", "surfPhif, surfNeighbour, surfOwner, faceAreaS")], ["C24"]),
    ("fv-grad-views", [(GRAD, "    size_t nInternalFaces = mesh.nInternalFaces();\n", "    const auto nInternalFaces = static_cast<size_t>(mesh.nInternalFaces());\n    const auto nFaces = phif.internalField().size();\n"), (GRAD, "{nInternalFaces, surfPhif.size()}", "{nInternalFaces, nFaces}")], []),
    ("fv-grad-div", [(GRAD, "surfGradPhi[celli] *= 1 / surfV[celli];", "const scalar rV = 1.0 / surfV[celli]; surfGradPhi[celli] = surfGradPhi[celli] * rV;")], []),
    # ---------------------------------------------------------------- laplacian
    ("fv-lap-gamma", [(LAP, "scalar flux = deltaCoeffs[facei] * sGamma[facei] * magFaceArea[facei];", "scalar flux = deltaCoeffs[facei] * sGamma[0] * magFaceArea[facei];")], ["C26"]),
    ("fv-lap-sign", [(LAP, "flux * one<ValueType>() * operatorScalingOwn\n            );", "-flux * one<ValueType>() * operatorScalingOwn\n            );")], ["C26"]),
    ("fv-lap-offs", [(LAP, "values[rowNeiStart + neiOffs[facei]] += flux", "values[rowNeiStart + ownOffs[facei]] += flux")], ["C26", "C25"]),
    ("fv-lap-scale", [(LAP, "values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingNei;", "values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingOwn;")], ["C26"]),
    ("fv-lap-diagidx", [(LAP, "&values[rowNeiStart + diagOffs[nei]]", "&values[rowNeiStart + diagOffs[own]]")], ["C26"]),
    ("fv-lap-bflux", [(LAP, "scalar flux = sGamma[facei] * magFaceArea[facei];", "scalar flux = sGamma[bcfacei] * magFaceArea[facei];")], ["C26"]),
    ("fv-lap-areab", [(LAP, "ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];", "ValueType flux = sGamma[i] * fnGrad[i];")], ["C24"]),
    ("fv-lap-alias", [(LAP, "            std::size_t own = static_cast<std::size_t>(owner[facei]);\n            std::size_t nei = static_cast<std::size_t>(neighbour[facei]);", "            const auto own = static_cast<std::size_t>(owner[facei]), nei = static_cast<std::size_t>(neighbour[facei]);")], []),
    ("fv-lap-common", [(LAP, "values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingNei;", "const ValueType cN = flux * one<ValueType>() * operatorScalingNei;\n            values[rowNeiStart + neiOffs[facei]] += cN;"), (LAP, "&values[rowNeiStart + diagOffs[nei]], flux * one<ValueType>() * operatorScalingNei", "&values[rowNeiStart + diagOffs[nei]], cN")], []),
    ("fv-lap-split", [(LAP, "values[rowOwnStart + ownOffs[facei]] += flux * one<ValueType>() * operatorScalingOwn;", "auto& lower = values[rowOwnStart + ownOffs[facei]];\n            lower = lower + flux * one<ValueType>() * operatorScalingOwn;")], []),
    # ---------------------------------------------------------------- implicit div
    ("fv-imp-weight", [(DIV, "scalar weight = flux >= 0 ? 1 : 0;", "scalar weight = flux >= 0 ? 0 : 1;")], ["C26"]),
    ("fv-imp-half", [(DIV, "scalar weight = flux >= 0 ? 1 : 0;", "scalar weight = 0.5;")], ["C26"]),
    ("fv-imp-swapoff", [(DIV, "matrix.values[rowNeiStart + neiOffs[facei]] += value", "matrix.values[rowOwnStart + neiOffs[facei]] += value")], ["C26"]),
    ("fv-imp-noatomic", [(DIV, "Kokkos::atomic_sub(\n                &matrix.values[rowOwnStart + diagOffs[own]], value * operatorScalingOwn\n            );", "matrix.values[rowOwnStart + diagOffs[own]] -= value * operatorScalingOwn;")], ["C23"]),
    ("fv-imp-bweight", [(DIV, "flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()", "flux * operatorScalingOwn * valueFraction[bcfacei] * one<ValueType>()")], ["C26"]),
    ("fv-imp-rhsidx", [(DIV, "&rhs[own],", "&rhs[bcfacei],")], ["C26", "C25"]),
    ("fv-imp-ternary", [(DIV, "scalar weight = flux >= 0 ? 1 : 0;", "scalar weight = 0.0;\n            if (!(flux < 0)) { weight = 1.0; }")], []),
    ("fv-imp-inline", [(DIV, "value = -weight * flux * one<ValueType>();", "value = one<ValueType>() * (-1.0 * flux * weight);")], []),
    ("fv-imp-maxmin", [(DIV, "value = flux * (1 - weight) * one<ValueType>();", "value = (flux - flux * weight) * one<ValueType>();")], []),
    # ---------------------------------------------------------------- integrate/source/ddt
    ("fv-int-scale", [(SI, "res[celli] *= operatorScaling[celli] / v[celli];", "res[celli] *= 1.0 / v[celli];")], ["C24"]),
    ("fv-int-bcells", [(SI, "faceCells[i - nInternalFaces]", "owner[i - nInternalFaces]")], ["C24", "C25"]),
    ("fv-int-noatomic", [(SI, "Kokkos::atomic_sub(&res[static_cast<size_t>(neighbour[i])], flux[i]);", "res[static_cast<size_t>(neighbour[i])] -= flux[i];")], ["C23"]),
    ("fv-src-over", [(SRC, "sourceSpan[celli] += operatorScaling", "sourceSpan[celli] = operatorScaling")], ["C24"]),
    ("fv-src-sign", [(SRC, "sourceSpan[celli] += operatorScaling", "sourceSpan[celli] -= operatorScaling")], ["C24"]),
    ("fv-src-novol", [(SRC, "operatorScaling[celli] * coeff[celli] * vol[celli] * one<ValueType>();", "operatorScaling[celli] * coeff[celli] * one<ValueType>();")], ["C26"]),
    ("fv-src-diag", [(SRC, "matrix.rowOffs[celli] + diagOffs[celli]", "matrix.rowOffs[celli]")], ["C26"]),
    ("fv-src-diag2", [(SRC, "matrix.rowOffs[celli] + diagOffs[celli]", "matrix.rowOffs[celli + 1] - diagOffs[celli]")], ["C26"]),
    ("fv-src-loc", [(SRC, "            std::size_t idx = matrix.rowOffs[celli] + diagOffs[celli];\n            matrix.values[idx] +=\n                operatorScaling[celli] * coeff[celli] * vol[celli] * one<ValueType>();", "            const scalar c = operatorScaling[celli] * coeff[celli];\n            matrix.values[diagOffs[celli] + matrix.rowOffs[celli]] += vol[celli] * c * one<ValueType>();")], []),
    ("fv-ddt-rhs", [(DDT, "rhs[celli] += commonCoef * oldField[celli];", "rhs[celli] += commonCoef;"), (DDT, "rhs[celli] += commonCoef;", "rhs[celli] += commonCoef * one<ValueType>();")], ["C26"]),
    ("fv-ddt-dt", [(DDT, "const auto commonCoef = operatorScaling[celli] * vol[celli] * dtInver;", "const auto commonCoef = operatorScaling[celli] * vol[celli] * dt;")], ["C26"]),
    ("fv-ddt-explicit-old", [(DDT, "(field[celli] - oldField[celli])", "(oldField[celli] - field[celli])")], ["C24"]),
    ("fv-ddt-rhs-neg", [(DDT, "rhs[celli] += commonCoef * oldField[celli];", "rhs[celli] -= commonCoef * oldField[celli];")], ["C26"]),
    ("fv-ddt-inl", [(DDT, "const auto commonCoef = operatorScaling[celli] * vol[celli] * dtInver;", "const auto commonCoef = operatorScaling[celli] * vol[celli] / dt;")], []),
    # ---------------------------------------------------------------- Courant number
    ("fv-co-onlyown", [(CO, "            Kokkos::atomic_add(&volPhi[static_cast<size_t>(surfNeighbour[i])], flux);\n", "")], ["C22"]),
    ("fv-co-signed", [(CO, "            scalar flux = Kokkos::sqrt(surfFaceFlux[i] * surfFaceFlux[i]);\n            Kokkos::atomic_add(&volPhi[static_cast<size_t>(surfOwner", "            scalar flux = surfFaceFlux[i];\n            Kokkos::atomic_add(&volPhi[static_cast<size_t>(surfOwner")], ["C22"]),
    ("fv-co-half", [(CO, "maxCoNum = maxReducer.reference() * 0.5 * dt;", "maxCoNum = maxReducer.reference() * dt;")], ["C22"]),
    ("fv-co-novol", [(CO, "(volPhi[celli] / surfV[celli])", "volPhi[celli]")], ["C22"]),
    ("fv-co-min", [(CO, "if (val > lmax) lmax = val;", "if (val < lmax) lmax = val;")], ["C22"]),
    ("fv-co-race", [(CO, "Kokkos::atomic_add(&volPhi[own], flux);", "volPhi[own] += flux;")], ["C23"]),
    ("fv-co-abs", [(CO, "scalar flux = Kokkos::sqrt(surfFaceFlux[i] * surfFaceFlux[i]);\n            Kokkos::atomic_add(&volPhi[own]", "scalar flux = surfFaceFlux[i] < 0 ? -surfFaceFlux[i] : surfFaceFlux[i];\n            Kokkos::atomic_add(&volPhi[own]")], []),
    ("fv-co-max", [(CO, "if (val > lmax) lmax = val;", "lmax = val > lmax ? val : lmax;")], []),
    # ---------------------------------------------------------------- interpolation etc.
    ("fv-lin-swap", [(LIN, "weightS[facei] * srcS[own] + (1 - weightS[facei]) * srcS[nei]", "weightS[facei] * srcS[nei] + (1 - weightS[facei]) * srcS[own]")], ["C21"]),
    ("fv-lin-bidx", [(LIN, "weightS[facei] * boundS[facei - nInternalFaces]", "weightS[facei] * boundS[facei]")], ["C21", "C25"]),
    ("fv-lin-le", [(LIN, "if (facei < nInternalFaces)", "if (facei <= nInternalFaces)")], ["C21", "C25"]),
    ("fv-lin-form", [(LIN, "weightS[facei] * srcS[own] + (1 - weightS[facei]) * srcS[nei]", "srcS[nei] + weightS[facei] * (srcS[own] - srcS[nei])")], []),
    ("fv-lin-twoloops", [(LIN, "            else\n            {\n                dstS[facei] = weightS[facei] * boundS[facei - nInternalFaces];\n            }\n        }\n    );", "        }\n    );\n    NeoFOAM::parallelFor(\n        exec,\n        {nInternalFaces, dstS.size()},\n        KOKKOS_LAMBDA(const size_t facei) {\n            dstS[facei] = weightS[facei] * boundS[facei - nInternalFaces];\n        }\n    );")], []),
    ("fv-up-strict", [(UP, "if (fluxS[facei] >= 0)", "if (fluxS[facei] > 0)")], ["C21"]),
    ("fv-up-rev", [(UP, "if (fluxS[facei] >= 0)", "if (fluxS[facei] <= 0)")], ["C21"]),
    ("fv-up-weight", [(UP, "dstS[facei] = srcS[nei];", "dstS[facei] = weightS[facei] * srcS[nei];")], ["C21"]),
    ("fv-up-sel", [(UP, "if (fluxS[facei] >= 0)\n                {\n                    size_t own = static_cast<size_t>(ownerS[facei]);\n                    dstS[facei] = srcS[own];\n                }\n                else\n                {\n                    size_t nei = static_cast<size_t>(neighS[facei]);\n                    dstS[facei] = srcS[nei];\n                }", "const auto celli = fluxS[facei] < 0 ? neighS[facei] : ownerS[facei];\n                dstS[facei] = srcS[static_cast<size_t>(celli)];")], []),
    ("fv-fng-sign", [(FNG, "(phiBCValue[faceBCI] - phi[own])", "(phi[own] - phiBCValue[faceBCI])")], ["C21"]),
    ("fv-fng-idx", [(FNG, "nonOrthDeltaCoeffs[facei] * (phiBCValue", "nonOrthDeltaCoeffs[faceBCI] * (phiBCValue")], ["C21"]),
    ("fv-fng-owner", [(FNG, "surfFaceCells[faceBCI]", "owner[facei]")], []),     # undecided: owners of boundary faces are the boundary's cells only in a consistent mesh
    ("fv-geo-w", [(GEO, "w[facei] = sfdNei / (sfdOwn + sfdNei);", "w[facei] = sfdOwn / (sfdOwn + sfdNei);")], ["C22"]),
    ("fv-geo-bw", [(GEO, "w[facei] = 1.0; }", "w[facei] = 0.5; }")], ["C22"]),
    ("fv-geo-abs", [(GEO, "std::abs(sf[facei] & (cf[facei] - c[", "std::abs(sf[facei] & (sf[facei] - c[")], ["C22"]),
    ("fv-geo-nonorth", [(GEO, "std::max(orthoDist, 0.05 * mag(cellToCellDist))", "std::min(orthoDist, 0.05 * mag(cellToCellDist))")], ["C22"]),
    ("fv-geo-dc", [(GEO, "cellCentre[neighbour[facei]] - cellCentre[owner[facei]];\n            deltaCoeff", "cellCentre[neighbour[facei]] - cf[facei];\n            deltaCoeff")], ["C22"]),
    ("fv-geo-dcrev", [(GEO, "Vector cellToCellDist = cellCentre[neighbour[facei]] - cellCentre[owner[facei]];\n            deltaCoeff", "Vector cellToCellDist = cellCentre[owner[facei]] - cellCentre[neighbour[facei]];\n            deltaCoeff")], []),
    ("fv-geo-fill", [(GEO, "w[facei] = 1.0; }\n    );", "w[facei] = 1.0; }\n    );\n    const auto nW = w.size();\n    (void)nW;")], []),
    ("fv-geo-sum", [(GEO, "if (std::abs(sfdOwn + sfdNei) > ROOTVSMALL)", "const scalar total = sfdOwn + sfdNei;\n            if (total > ROOTVSMALL)")], []),
    # ---------------------------------------------------------------- boundary conditions
    ("fv-bc-fg-frac", [(VB + "fixedGradient.hpp", "valueFraction[i] = 0.0;", "valueFraction[i] = 1.0;")], ["C27"]),
    ("fv-bc-fg-delta", [(VB + "fixedGradient.hpp", "fixedGradient * (1 / deltaCoeffs[i])", "fixedGradient * deltaCoeffs[i]")], ["C27"]),
    ("fv-bc-fg-cell", [(VB + "fixedGradient.hpp", "iField[static_cast<size_t>(faceCells[i])]", "iField[i]")], ["C27", "C25"]),
    ("fv-bc-fv-range", [(VB + "fixedValue.hpp", "this->range()", "std::pair<size_t, size_t>{0, this->range().second}")], ["C27"]),
    ("fv-bc-end", [(PM, "mesh.boundaryMesh().offset()[patchID_ + 1]", "mesh.boundaryMesh().offset().back()")], ["C27"]),
    ("fv-bc-size", [(PM, "static_cast<size_t>(end_ - start_)", "static_cast<size_t>(end_ - start_ + 1)")], ["C27"]),
    ("fv-bc-range", [(PM, "return {start_, end_}; }", "const auto s = static_cast<size_t>(start_); return {s, s + patchSize()}; }")], []),
    ("fv-bc-fg-loc", [(VB + "fixedGradient.hpp", "            value[i] =\n                iField[static_cast<size_t>(faceCells[i])] + fixedGradient * (1 / deltaCoeffs[i]);", "            const auto own = static_cast<size_t>(faceCells[i]);\n            const scalar dist = 1.0 / deltaCoeffs[i];\n            value[i] = dist * fixedGradient + iField[own];")], []),
    ("fv-bc-ex-late", [(VB + "extrapolated.hpp", "valueFraction[i] = 1.0;", "valueFraction[i] = 0.0;")], ["C27"]),
]
