"""Edits for C41."""
G = "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"
P = "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
B = "include/NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
GR = '''    StencilDataBase& stencilDb = mesh.stencilDB();
    if (!stencilDb.contains("GeometryScheme"))
    {
        stencilDb.insert(std::string("GeometryScheme"), std::make_shared<GeometryScheme>(mesh));
    }
    return stencilDb.get<std::shared_ptr<GeometryScheme>>("GeometryScheme");
'''
EDITS = [
    ("shr-always", [(G, GR, '''    StencilDataBase& stencilDb = mesh.stencilDB();
    auto scheme = std::make_shared<GeometryScheme>(mesh);
    stencilDb.insert(std::string("GeometryScheme"), scheme);
    return scheme;
''')], ["C41"]),
    ("shr-key", [(P, 'contains("SparsityPattern")', 'contains("GeometryScheme")')], ["C41"]),
    ("shr-nocache", [(G, GR, '''    static std::shared_ptr<GeometryScheme> scheme = std::make_shared<GeometryScheme>(mesh);
    return scheme;
''')], ["C41"]),
    ("shr-update-swap", [(G, "updateDeltaCoeffs(exec, deltaCoeffs_)", "updateDeltaCoeffs(exec, nonOrthDeltaCoeffs_)")], ["C41"]),
    ("shr-update-drop", [(G, "            kernel_->updateNonOrthDeltaCoeffs(exec, nonOrthDeltaCoeffs_);\n", "")], ["C41"]),
    ("shr-acc-swap", [(G, "{\n    return nonOrthDeltaCoeffs_;", "{\n    return deltaCoeffs_;")], ["C41"]),
    ("shr-ctor-noupdate", [(G, '''        NF_ERROR_EXIT("Kernel is not initialized");
    }
    update();
}

std::string''', '''        NF_ERROR_EXIT("Kernel is not initialized");
    }
}

std::string''')], ["C41"]),
    ("shr-given-swap", [(G, "deltaCoeffs_(deltaCoeffs), nonOrthDeltaCoeffs_(nonOrthDeltaCoeffs)", "deltaCoeffs_(deltaCoeffs), nonOrthDeltaCoeffs_(deltaCoeffs)")], ["C41"]),
    ("shr-bc-type", [(B, 'std::string("extrapolated")', 'std::string("calculated")')], ["C41"]),
    ("shr-bc-last", [(B, 'for (size_t patchID = 0; patchID < mesh.nBoundaries(); patchID++)\n    {\n        Dictionary patchDict({{"type", std::string("calculated")}});', 'for (size_t patchID = 0; patchID + 1 < mesh.nBoundaries(); patchID++)\n    {\n        Dictionary patchDict({{"type", std::string("calculated")}});')], ["C41"]),
    ("shr-bc-rev", [(B, 'bcs.push_back(BoundaryType(mesh, patchDict, patchID));\n    }\n    return bcs;\n};\n\ntemplate', 'bcs.push_back(BoundaryType(mesh, patchDict, mesh.nBoundaries() - 1 - patchID));\n    }\n    return bcs;\n};\n\ntemplate')], ["C41"]),
    ("shr-nullkernel", [(G, '''    : exec_(exec), mesh_(mesh), kernel_(std::move(kernel)),''', '''    : exec_(exec), mesh_(mesh), kernel_(kernel ? std::move(kernel) : std::make_unique<BasicGeometryScheme>(mesh)),''')], ["C41"]),
    ("shr-roc-ok", [(G, GR, '''    const std::string key = GeometryScheme::cacheKey;
    auto& db = mesh.stencilDB();
    if (db.contains(key))
    {
        return db.get<std::shared_ptr<GeometryScheme>>(key);
    }
    auto scheme = std::make_shared<GeometryScheme>(mesh);
    db.insert(key, scheme);
    return scheme;
'''.replace("GeometryScheme::cacheKey", '"GeometryScheme"'))], []),
    ("shr-bc-emplace-ok", [(B, 'bcs.push_back(BoundaryType(mesh, patchDict, patchID));\n    }\n    return bcs;\n};\n\ntemplate', 'bcs.emplace_back(mesh, patchDict, patchID);\n    }\n    return bcs;\n};\n\ntemplate'),
                           (B, 'std::vector<BoundaryType> bcs;\n    for (size_t patchID = 0; patchID < mesh.nBoundaries(); patchID++)\n    {\n        Dictionary patchDict({{"type", std::string("calculated")}});', 'std::vector<BoundaryType> bcs;\n    bcs.reserve(mesh.nBoundaries());\n    const Dictionary patchDict({{"type", std::string("calculated")}});\n    for (size_t patchID = 0; patchID < mesh.nBoundaries(); patchID++)\n    {')], []),
    ("shr-update-order-ok", [(G, '''            kernel_->updateWeights(exec, weights_);
            kernel_->updateDeltaCoeffs(exec, deltaCoeffs_);''', '''            kernel_->updateDeltaCoeffs(exec, deltaCoeffs_);
            kernel_->updateWeights(exec, weights_);''')], []),
]
