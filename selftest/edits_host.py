"""what host code may touch: edits for C46"""
G = "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp"
M = "src/mesh/unstructured/unstructuredMesh.cpp"
K = "include/NeoFOAM/mesh/unstructured/communicator.hpp"
B = "include/NeoFOAM/fields/boundaryFields.hpp"
C = ["C46"]
EDITS = [
    ("host-div-branch", [(G, "if (std::holds_alternative<SerialExecutor>(exec))", "if (!std::holds_alternative<CPUExecutor>(exec))")], C),
    ("host-div-always", [(G, "if (std::holds_alternative<SerialExecutor>(exec))", "if (std::holds_alternative<SerialExecutor>(exec) || nCells < 2)")], C),
    ("host-mesh-centers", [(M, "auto cellCentersHost = cellCenters.copyToHost();", "auto& cellCentersHost = cellCenters;")], C),
    ("host-mesh-delta", [(M, "vectorField deltaHost(hostExec, 2);", "vectorField deltaHost(exec, 2);")], C),
    ("host-comm-send", [(K, "const auto hostField = field.copyToHost();", "const auto& hostField = field;")], C),
    ("host-comm-receive", [(K, "auto hostField = field.copyToHost();", "auto hostField = field.copyToExecutor(field.exec());")], C),
    ("host-range", [(B, "const auto hostOffset = offset_.copyToHost();", "const auto& hostOffset = offset_;")], C),
    ("host-div-cpu", [(G, "if (std::holds_alternative<SerialExecutor>(exec))", "const bool onOneThread = std::holds_alternative<SerialExecutor>(exec);\n    if (onOneThread)")], []),
    ("host-mesh-serial", [(M, "auto cellCentersHost = cellCenters.copyToHost();", "auto cellCentersHost = cellCenters.copyToExecutor(hostExec);")], []),
    ("host-comm-serial", [(K, "const auto hostField = field.copyToHost();", "const auto hostField = field.copyToExecutor(SerialExecutor());")], []),
    ("host-range-order", [(B, "return {hostOffset.data()[patchId], hostOffset.data()[patchId + 1]};", "const auto last = hostOffset.view()[patchId + 1];\n        return {hostOffset.view()[patchId], last};")], []),
]
