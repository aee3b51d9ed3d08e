"""Edits for C36, C37, C38."""
OP = "include/NeoFOAM/core/mpi/operators.hpp"
HB = "include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
HC = "src/core/mpi/halfDuplexCommBuffer.cpp"
FB = "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
CM = "include/NeoFOAM/mesh/unstructured/communicator.hpp"
CC = "src/mesh/unstructured/communicator.cpp"
ALL = ["C36", "C37", "C38"]
EDITS = [
    ("mpi-op-lor", [(OP, "        return MPI_BAND;\n", "        return MPI_BOR;\n")], ["C37"]),
    ("mpi-type-ulong", [(OP, "return MPI_UNSIGNED_LONG;\n", "return MPI_UNSIGNED;\n")], ["C37"]),
    ("mpi-tag-sign", [(HB, "    tag &= 0x7FFFFFFF;", "    tag &= 0xFFFFFFFF;")], ["C37"]),
    ("mpi-tag-range", [(HB, "maxTagValue = 32767 - 10;", "maxTagValue = 32767;")], ["C37"]),
    ("mpi-hash-ok", [(HB, "    return (static_cast<int>(tag) % maxTagValue) + 10;", "    const int folded = static_cast<int>(tag) % maxTagValue;\n    return 10 + folded;")], []),
    ("mpi-offset-last", [(HB, "        rankOffset_.back() = dataSize;\n", "        rankOffset_.back() = dataSize - newSize;\n")], ["C36"]),
    ("mpi-settype-size", [(HB, "            sizeof(valueType)\n        );\n\n        typeSize_ = sizeof(valueType);\n", "            sizeof(valueType)\n        );\n")], ["C36"]),
    ("mpi-reduce-vec", [(OP, "static_cast<mpi_label_t>(vector.size())", "static_cast<mpi_label_t>(vector.size() - 1)")], ["C37"]),
    ("mpi-settype-byref", [(HB, "[rankOffset = rankOffset_, typeSize = typeSize_]", "[&rankOffset = rankOffset_, typeSize = typeSize_]")], ["C36"]),
    ("mpi-grow", [(HB, "if (rankBuffer_.size() < dataSize) rankBuffer_.resize(dataSize);", "if (rankBuffer_.empty()) rankBuffer_.resize(dataSize);")], ["C36"]),
    ("mpi-grow-ok", [(HB, "if (rankBuffer_.size() < dataSize) rankBuffer_.resize(dataSize);", "if (dataSize > rankBuffer_.size())\n        {\n            rankBuffer_.resize(dataSize);\n        }")], []),
    ("mpi-send-empty", [(HC, "        if (rankOffset_[rank + 1] - rankOffset_[rank] == 0) continue;\n        isend", "        isend")], ["C36"]),
    ("mpi-recv-req", [(HC, "            mpiEnviron_.comm(),\n            &request_[rank]\n        );\n    }\n}\n\nvoid HalfDuplexCommBuffer::waitComplete", "            mpiEnviron_.comm(),\n            &request_[0]\n        );\n    }\n}\n\nvoid HalfDuplexCommBuffer::waitComplete")], ["C36"]),
    ("mpi-complete-any", [(HC, "        if (!flag) return false;\n    }\n    return true;", "        if (flag) return true;\n    }\n    return false;")], ["C36"]),
    ("mpi-complete-last", [(HC, "    for (auto& request : request_)\n    {\n        int flag = 0;", "    int flag = 0;\n    for (auto& request : request_)\n    {"),
                           (HC, "        if (!flag) return false;\n    }\n    return true;", "    }\n    return flag;")], ["C36"]),
    ("mpi-complete-ok", [(HC, "        if (!flag) return false;\n    }\n    return true;", "        done = done && flag;\n    }\n    return done;"),
                         (HC, "    for (auto& request : request_)\n    {\n        int flag = 0;", "    bool done = true;\n    for (auto& request : request_)\n    {\n        int flag = 0;")], []),
    ("mpi-complete-copy", [(HC, "    for (auto& request : request_)\n    {\n        int flag", "    for (auto request : request_)\n    {\n        int flag")], ["C36"]),
    ("mpi-wait-once", [(HC, "    while (!isComplete())\n", "    if (!isComplete())\n")], ["C36", "C38"]),
    ("mpi-final-tag", [(HC, "    tag_ = -1;\n", "")], ["C36", "C38"]),
    ("mpi-final-name", [(HC, "    commName_ = \"unassigned\";\n", "")], []),
    ("mpi-full-or", [(FB, "return send_.isComplete() && receive_.isComplete();", "return send_.isComplete() || receive_.isComplete();")], ["C36", "C38"]),
    ("mpi-full-waitsend", [(FB, "        send_.waitComplete();\n        receive_.waitComplete();", "        send_.waitComplete();")], ["C36", "C38"]),
    ("mpi-full-swap", [(FB, ": send_(mpiEnviron, sendSize), receive_(mpiEnviron, receiveSize)", ": send_(mpiEnviron, receiveSize), receive_(mpiEnviron, sendSize)")], ["C36", "C38"]),
    ("mpi-full-get", [(FB, "    std::span<valueType> getReceive(const size_t rank)\n    {\n        return receive_", "    std::span<valueType> getReceive(const size_t rank)\n    {\n        return send_")], ["C36", "C38"]),
    ("mpi-full-order-ok", [(FB, "        send_.send();\n        receive_.receive();", "        receive_.receive();\n        send_.send();")], []),
    ("mpi-full-half-init", [(FB, "return send_.isCommInit() && receive_.isCommInit();", "return send_.isCommInit();")], []),
    ("mpi-full-final", [(FB, "        send_.finaliseComm();\n        receive_.finaliseComm();", "        send_.finaliseComm();")], []),
    ("mpi-cm-early", [(CM, "        CommBuffer_[commName]->waitComplete();\n        auto hostField", "        auto hostField")], ["C38"]),
    ("mpi-cm-sendidx", [(CM, "hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)]", "hostView[data]")], ["C38"]),
    ("mpi-cm-recvidx", [(CM, "hostView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] =", "hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)] =")], ["C38"]),
    ("mpi-cm-recvonly", [(CM, "field = hostField.copyToExecutor(field.exec());", "field = hostField;")], ["C38"]),
    ("mpi-cm-startfirst", [(CM, "        CommBuffer_[commName]->initComm<valueType>(commName);\n", "        CommBuffer_[commName]->initComm<valueType>(commName);\n        CommBuffer_[commName]->startComm();\n"),
                           (CM, "        }\n        CommBuffer_[commName]->startComm();\n", "        }\n")], ["C38"]),
    ("mpi-cm-nofinal", [(CM, "        CommBuffer_[commName]->finaliseComm();\n", "")], ["C38"]),
    ("mpi-cm-vector", [(CM, "std::deque<bufferType> buffers;", "std::vector<bufferType> buffers;")], ["C38"]),
    ("mpi-cm-find", [(CC, "if (!it->isCommInit()) return &(*it);", "if (!it->isComplete()) return &(*it);")], ["C38"]),
    ("mpi-cm-find-first", [(CC, "if (!it->isCommInit()) return &(*it);", "return &(*it);")], ["C38"]),
    ("mpi-cm-front", [(CC, "return &buffers.back();", "return &buffers.front();")], ["C38"]),
    ("mpi-cm-sizes", [(CC, "rankReceiveSize[rank] = receiveMap_[rank].size();", "rankReceiveSize[rank] = sendMap_[rank].size();")], ["C38"]),
    ("mpi-cm-push-ok", [(CC, "    buffers.emplace_back(mpi::FullDuplexCommBuffer(mpiEnviron_, rankSendSize, rankReceiveSize));", "    buffers.emplace_back(mpiEnviron_, rankSendSize, rankReceiveSize);")], []),
    ("mpi-cm-ref-ok", [(CM, "            auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);\n            for (size_t data = 0; data < sendMap_[rank].size(); ++data)\n                rankBuffer[data] = hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)];",
                        "            auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);\n            const auto& map = sendMap_[rank];\n            size_t data = 0;\n            for (const auto& node : map)\n            {\n                rankBuffer[data] = hostView[static_cast<size_t>(node.local_idx)];\n                ++data;\n            }")], []),
]
