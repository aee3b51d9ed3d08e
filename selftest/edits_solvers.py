G = "include/NeoFOAM/linearAlgebra/ginkgo.hpp"
GC = "src/linearAlgebra/ginkgo.cpp"
PE = "include/NeoFOAM/linearAlgebra/petsc.hpp"
PC = "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp"
B, Q = ["C47"], []
EDITS = [
    ("slv-gko-swap", [(G, "solver->apply(rhs, gkoX);", "solver->apply(gkoX, rhs);")], B),
    ("slv-gko-rhsx", [(G, "detail::createGkoDense(gkoExec_, x.data(), nrows);", "detail::createGkoDense(gkoExec_, sys.rhs().data(), nrows);")], B),
    ("slv-parse-nofloat", [(GC, "        if (auto node = parseAny(float {}))", "        if (auto node = parseAny(double {}))")], B),
    ("slv-parse-intbool", [(GC, "return gko::config::pnode(dict.get<value_type>(key));", "return gko::config::pnode(static_cast<bool>(std::is_same_v<value_type, int>) ? false : false);")], B),
    ("slv-parse-nosub", [(GC, "        if (dict.isDict(key))\n", "        if (!dict.isDict(key))\n            node = parseData(key);\n        else if (dict.subDict(key).keys().size() > 3)\n")], B),
    ("slv-parse-else", [(GC, '''        NF_THROW("Dictionary key " + key + " has unsupported type: " + dict[key].type().name());''', "        return gko::config::pnode();")], B),
    ("slv-parse-dropempty", [(GC, "        result.emplace(key, node);", "        if (result.empty())\n            result.emplace(key, node);")], B),
    ("slv-pet-row", [(PC, "                rowI++;\n                rowOffset = rowPtrHost[rowI + 1];", "                rowOffset = rowPtrHost[rowI + 1];\n                rowI++;")], B),
    ("slv-pet-start", [(PC, "        size_t rowOffset = rowPtrHost[rowI + 1];", "        size_t rowOffset = rowPtrHost[rowI];")], B),
    ("slv-pet-one", [(PE, "MatSetValuesCOO(Amat, sys.matrix().values().data(), ADD_VALUES);", "MatSetValuesCOO(Amat, sys.matrix().values().data(), ADD_VALUES);\n        MatSetValuesCOO(Amat, sys.matrix().values().data(), ADD_VALUES);")], B),
    ("slv-pet-solrhs", [(PE, "KSPSolve(ksp, rhs, sol)", "KSPSolve(ksp, sol, rhs)")], B),
    ("slv-pet-getrhs", [(PE, "VecGetArray(sol, &x_help);", "VecGetArray(rhs, &x_help);")], B),
    ("slv-pet-nox", [(PE, "        x = x2;\n", "")], B),
    ("slv-pet-leak", [(PC, "        VecDestroy(&sol_);\n", "")], B),
    ("slv-pet-rhsidx", [(PC, "rhsIdx[index] = static_cast<PetscInt>(index);", "rhsIdx[index] = static_cast<PetscInt>(nrows - 1 - index);")], B),
    ("slv-pet-type", [(PC, 'if (execName == "GPUExecutor")', 'if (execName == "CPUExecutor")')], B),
    ("slv-pet-local", [(PC, "VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());", "VecSetPreallocationCOO(rhs_, nrows - 1, rhsIdx.data());")], B),
    # quiet
    ("slv-q-rows", [(PC, '''        size_t rowI = 0;
        size_t rowOffset = rowPtrHost[rowI + 1];
        for (size_t index = 0; index < size; ++index)
        {
            if (index == rowOffset)
            {
                rowI++;
                rowOffset = rowPtrHost[rowI + 1];
            }
            rowIdx[index] = rowI;
        }
''', '''        for (size_t rowI = 0; rowI < nrows; ++rowI)
        {
            for (size_t index = rowPtrHost[rowI]; index < rowPtrHost[rowI + 1]; ++index)
            {
                rowIdx[index] = static_cast<PetscInt>(rowI);
            }
        }
''')], Q),
    ("slv-q-fused", [(PC, "            colIdx[index] = static_cast<PetscInt>(colIdxHost[index]);", "            const auto col = colIdxHost[index];\n            colIdx[index] = static_cast<PetscInt>(col);")], Q),
    ("slv-q-insert", [(PE, "sys.rhs().data(), ADD_VALUES", "sys.rhs().data(), INSERT_VALUES")], Q),
    ("slv-q-ctx", [(PE, "        Amat = petsctx.AMat();\n        rhs = petsctx.rhs();", "        rhs = petsctx.rhs();\n        Amat = petsctx.AMat();")], Q),
    ("slv-q-fixed", [(PC, "MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data());", "MatSetPreallocationCOO(Amat_, size, rowIdx.data(), colIdx.data());")], Q),
    ("slv-q-gkoinline", [(G, "        auto solver = factory_->generate(gkoMtx);", "        const auto solver = factory_->generate(std::move(gkoMtx));")], Q),
    ("slv-q-parsemove", [(GC, "result.emplace(key, node);", "result.emplace(key, std::move(node));")], Q),
    ("slv-q-parseins", [(GC, "result.emplace(key, node);", "result.insert({key, node});")], Q),
    ("slv-q-order", [(GC, "        if (auto node = parseAny(float {}))\n        {\n            return node;\n        }\n", ""), (GC, "        if (auto node = parseAny(std::string()))", "        if (auto node = parseAny(float {}))\n        {\n            return node;\n        }\n        if (auto node = parseAny(std::string()))")], Q),
    ("slv-q-cond", [(GC, "        gko::config::pnode node;\n        if (dict.isDict(key))\n        {\n            node = parse(dict.subDict(key));\n        }\n        else\n        {\n            node = parseData(key);\n        }\n        result.emplace(key, node);", "        result.emplace(key, dict.isDict(key) ? parse(dict.subDict(key)) : parseData(key));")], Q),
    ("slv-q-map", [(GC, "    for (const auto& key : dict.keys())\n    {", "    for (const auto& [key, value] : dict.getMap())\n    {")], Q),
    ("slv-q-copy", [(GC, "    gko::config::pnode::map_type result;", "    const Dictionary& copy = dict;\n    gko::config::pnode::map_type result;"), (GC, "dict.keys()", "copy.keys()")], Q),
    ("slv-q-get", [(GC, "            if (dict[key].type() == typeid(value_type))\n            {\n                return gko::config::pnode(dict.get<value_type>(key));", "            if (const auto* v = std::any_cast<value_type>(&dict[key]))\n            {\n                return gko::config::pnode(*v);")], Q),
]
