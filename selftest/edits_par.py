"""Edits for C18 (parallel algorithms and executors)."""
A = "include/NeoFOAM/core/parallelAlgorithms.hpp"
X = "include/NeoFOAM/core/executor/executor.hpp"
FOR = """        for (size_t i = start; i < end; i++)
        {
            kernel(i);
        }"""
EDITS = [
    ("par-for-le", [(A, FOR, FOR.replace("i < end", "i <= end"))], ["C18"]),
    ("par-for-zero", [(A, FOR, FOR.replace("i = start", "i = 0"))], ["C18"]),
    ("par-for-step", [(A, FOR, FOR.replace("i++", "i += 2"))], ["C18"]),
    ("par-for-rel", [(A, FOR, "        for (size_t i = 0; i < end - start; i++)\n        {\n            kernel(i);\n        }")], ["C18"]),
    ("par-for-rel-ok", [(A, FOR, "        for (size_t i = 0; i < end - start; i++)\n        {\n            kernel(start + i);\n        }")], []),
    ("par-for-while-ok", [(A, FOR, "        size_t i = start;\n        while (i < end)\n        {\n            kernel(i);\n            ++i;\n        }")], []),
    ("par-for-rev-ok", [(A, FOR, "        for (size_t i = end; i > start; i--)\n        {\n            kernel(i - 1);\n        }")], []),
    ("par-for-pol0", [(A, "            Kokkos::RangePolicy<runOn>(start, end),\n            KOKKOS_LAMBDA(const size_t i) { kernel(i); }",
                       "            Kokkos::RangePolicy<runOn>(0, end),\n            KOKKOS_LAMBDA(const size_t i) { kernel(i); }")], ["C18"]),
    ("par-for-shift", [(A, "KOKKOS_LAMBDA(const size_t i) { kernel(i); }", "KOKKOS_LAMBDA(const size_t i) { kernel(i + 1); }")], ["C18"]),
    ("par-for-norange", [(A, "    std::visit([&](const auto& e) { parallelFor(e, range, kernel, name); }, exec);",
                          "    std::visit([&](const auto&) { parallelFor(SerialExecutor {}, range, kernel, name); }, exec);")], ["C18"]),
    ("par-for-space", [(A, "        using runOn = typename Executor::exec;\n        Kokkos::parallel_for(\n            name,\n            Kokkos::RangePolicy<runOn>(start",
                        "        using runOn = Kokkos::DefaultHostExecutionSpace;\n        Kokkos::parallel_for(\n            name,\n            Kokkos::RangePolicy<runOn>(start")], ["C18"]),
    ("par-field-acc", [(A, "            view[i] = kernel(i);\n        }", "            view[i] += kernel(i);\n        }")], ["C18"]),
    ("par-field-size", [(A, "            Kokkos::RangePolicy<runOn>(0, field.size()),\n            KOKKOS_LAMBDA", "            Kokkos::RangePolicy<runOn>(1, field.size()),\n            KOKKOS_LAMBDA")], ["C18"]),
    ("par-red-noinit", [(A, "            value = T {};", "            value = value;")], ["C18"]),
    ("par-red-rev-ok", [(A, "                kernel(i, value);", "                Kernel& k = kernel;\n                k(i, value);")], []),
    ("par-red-start", [(A, '            "parallelReduce", Kokkos::RangePolicy<runOn>(start, end), kernel, value', '            "parallelReduce", Kokkos::RangePolicy<runOn>(0, end - start), kernel, value')], ["C18"]),
    ("par-red-field", [(A, '"parallelReduce", Kokkos::RangePolicy<runOn>(0, field.size()), kernel, value', '"parallelReduce", Kokkos::RangePolicy<runOn>(0, field.size() - 1), kernel, value')], ["C18"]),
    ("par-scan-zero", [(A, '    Kokkos::parallel_scan("parallelScan", Kokkos::RangePolicy<runOn>(start, end), kernel);', '    Kokkos::parallel_scan("parallelScan", Kokkos::RangePolicy<runOn>(0, end), kernel);')], ["C18"]),
    ("par-scan-dropret", [(A, '    std::visit([&](const auto& e) { parallelScan(e, range, kernel, returnValue); }, exec);', '    std::visit([&](const auto& e) { parallelScan(e, range, kernel); }, exec);')], ["C18"]),
    ("par-eq-true", [(X, "                return false;", "                return std::is_same_v<typename ExecLhs::exec, typename ExecRhs::exec>;")], []),
    ("par-eq-mem", [(X, "                return false;", "                return std::is_same_v<typename ExecLhs::exec::memory_space, typename ExecRhs::exec::memory_space>;")], ["C18"]),
    ("par-eq-idx-ok", [(X, """    return std::visit(
        []<typename ExecLhs,
           typename ExecRhs>([[maybe_unused]] const ExecLhs&, [[maybe_unused]] const ExecRhs&)
        {
            if constexpr (std::is_same_v<ExecLhs, ExecRhs>)
            {
                return typename ExecLhs::exec() == typename ExecRhs::exec();
            }
            else
            {
                return false;
            }
        },
        lhs,
        rhs
    );""", "    return lhs.index() == rhs.index();")], []),
    ("par-ne", [(X, "    return !(lhs == rhs);", "    return lhs.index() > rhs.index();")], ["C18"]),
]
