"""Edits for C19 and C20 (Field)."""
F = "include/NeoFOAM/fields/field.hpp"
FF = "include/NeoFOAM/fields/fieldFreeFunctions.hpp"
CPU = "include/NeoFOAM/core/executor/CPUExecutor.hpp"
GPU = "include/NeoFOAM/core/executor/GPUExecutor.hpp"
MOVE = "size_(rhs.size_), data_(rhs.data_), exec_(rhs.exec_)\n    {\n        rhs.data_ = nullptr;\n        rhs.size_ = 0;\n    }"
DTOR = "        std::visit([this](const auto& exec) { exec.free(data_); }, exec_);\n        data_ = nullptr;"
COPY = "Field(const Field<ValueType>& rhs) : Field(rhs.exec(), rhs.data(), rhs.size(), rhs.exec()) {}"
CTOE = "        if (dstExec == exec_) return *this;\n\n        Field<ValueType> result(dstExec, size_);\n        std::visit(detail::deepCopyVisitor(size_, data_, result.data()), exec_, dstExec);\n\n        return result;"
ASG = "        if (this->size() != rhs.size())\n        {\n            this->resize(rhs.size());\n        }\n        setField(*this, rhs.view());"
MULS = "        Field<ValueType> result(exec_, size_);\n        result = *this;\n        scalarMul(result, rhs);\n        return result;"
RES = "                { ptr = exec.realloc(this->data_, size * sizeof(ValueType)); },"
EDITS = [
    ("fld-move-keep", [(F, MOVE, MOVE.replace("        rhs.data_ = nullptr;\n", ""))], ["C19"]),
    ("fld-move-size", [(F, MOVE, MOVE.replace("        rhs.size_ = 0;\n", ""))], ["C19"]),
    ("fld-move-exchange-ok", [(F, MOVE, "size_(std::exchange(rhs.size_, 0)), data_(std::exchange(rhs.data_, nullptr)), exec_(rhs.exec_)\n    {}")], []),
    ("fld-dtor-none", [(F, DTOR, "        data_ = nullptr;")], ["C19"]),
    ("fld-dtor-empty", [(F, DTOR, "        if (size_ > 0) std::visit([this](const auto& exec) { exec.free(data_); }, exec_);\n        data_ = nullptr;")], ["C19"]),
    ("fld-dtor-guard-ok", [(F, DTOR, "        if (data_ != nullptr)\n        {\n            std::visit([this](const auto& exec) { exec.free(data_); }, exec_);\n        }\n        data_ = nullptr;\n        size_ = 0;")], []),
    ("fld-copy-share", [(F, COPY, "Field(const Field<ValueType>& rhs) : size_(rhs.size_), data_(rhs.data_), exec_(rhs.exec_) {}")], ["C19"]),
    ("fld-copy-default", [(F, COPY, "Field(const Field<ValueType>& rhs) = default;")], ["C19"]),
    ("fld-copy-hostexec", [(F, COPY, "Field(const Field<ValueType>& rhs) : Field(rhs.exec(), rhs.data(), rhs.size()) {}")], ["C19"]),
    ("fld-copy-deleg-ok", [(F, COPY, "Field(const Field<ValueType>& rhs) : Field(rhs.exec(), rhs) {}")], []),
    ("fld-res-alloc", [(F, RES, "                { ptr = exec.alloc(size * sizeof(ValueType)); },")], ["C19"]),
    ("fld-res-bytes", [(F, RES, "                { ptr = exec.realloc(this->data_, size); },")], ["C19"]),
    ("fld-res-size", [(F, "        data_ = static_cast<ValueType*>(ptr);\n        size_ = size;\n    }", "        data_ = static_cast<ValueType*>(ptr);\n        if (size > 0) size_ = size;\n    }")], ["C19"]),
    ("fld-res-same-ok", [(F, "    {\n        void* ptr = nullptr;\n        if (data_", "    {\n        if (size == size_) return;\n        void* ptr = nullptr;\n        if (data_")], []),
    ("fld-res-grow", [(F, "    {\n        void* ptr = nullptr;\n        if (data_", "    {\n        if (size <= size_)\n        {\n            size_ = size;\n            return;\n        }\n        void* ptr = nullptr;\n        if (data_")], []),
    ("fld-res-lazy", [(F, "    {\n        void* ptr = nullptr;\n        if (data_", "    {\n        if (size < size_ + 8 && data_ != nullptr)\n        {\n            size_ = size;\n            return;\n        }\n        void* ptr = nullptr;\n        if (data_")], ["C19"]),
    ("fld-toexec-noresult", [(F, CTOE, CTOE.replace("exec_, dstExec);", "dstExec, exec_);"))], ["C19"]),
    ("fld-toexec-swap", [(F, CTOE, CTOE.replace("size_, data_, result.data()", "size_, result.data(), data_"))], ["C20"]),
    ("fld-toexec-ctor-ok", [(F, CTOE, "        if (dstExec == exec_)\n        {\n            return Field<ValueType>(*this);\n        }\n        return Field<ValueType>(dstExec, *this);")], []),
    ("fld-tohost-cpu", [(F, "copyToHost() const { return copyToExecutor(SerialExecutor()); }", "copyToHost() const { return copyToExecutor(CPUExecutor()); }")], ["C20"]),
    ("fld-tohost-early", [(F, "        result = copyToExecutor(SerialExecutor());", "        if (!result.empty()) return;\n        result = copyToExecutor(SerialExecutor());")], ["C20"]),
    ("fld-asg-noresize", [(F, ASG, "        setField(*this, rhs.view());")], ["C20"]),
    ("fld-asg-grow", [(F, ASG, ASG.replace("!=", "<"))], ["C20"]),
    ("fld-asg-partial", [(F, ASG, ASG.replace("rhs.view());", "rhs.view(), {1, size_});"))], ["C20"]),
    ("fld-asg-self-ok", [(F, ASG, "        if (this == &rhs) return;\n" + ASG)], []),
    ("fld-asg-noexec", [(F, '        NF_ASSERT(exec_ == rhs.exec_, "Executors are not the same");\n', '')], ["C20"]),
    ("fld-asg-debug", [(F, '        NF_ASSERT(exec_ == rhs.exec_, "Executors are not the same");\n', '        NF_DEBUG_ASSERT(exec_ == rhs.exec_, "Executors are not the same");\n')], ["C20"]),
    ("fld-muls-inplace", [(F, MULS, "        scalarMul(*this, rhs);\n        return *this;")], ["C20"]),
    ("fld-muls-copy-ok", [(F, MULS, "        Field<ValueType> result(*this);\n        scalarMul(result, rhs);\n        return result;")], []),
    ("fld-minus-swap", [(F, "    lhs -= rhs;\n    return lhs;", "    Field<T> r(rhs);\n    r -= lhs;\n    return r;")], ["C20"]),
    ("fld-view-range", [(F, "View<const ValueType>(data_ + range.first, range.second - range.first);", "View<const ValueType>(data_ + range.first, range.second);")], ["C20"]),
    ("fld-view-off", [(F, "return View<ValueType>(data_ + range.first, range.second - range.first);", "return View<ValueType>(data_, range.second - range.first);")], ["C20"]),
    ("fld-range-one", [(F, "range() const { return {0, size()}; }", "range() const { return {0, size() - 1}; }")], ["C20"]),
    ("fld-copyctor-exec", [(F, ": Field(exec, in.data(), in.size(), in.exec())", ": Field(in.exec(), in.data(), in.size(), in.exec())")], ["C20"]),
    ("fld-value-range", [(F, "        NeoFOAM::fill(*this, value);", "        NeoFOAM::fill(*this, value, {0, size / 2});")], ["C20"]),
    ("fld-cpu-free", [(CPU, "Kokkos::kokkos_free<exec>(ptr)", "Kokkos::kokkos_free<Kokkos::Serial>(ptr)")], ["C19"]),
    ("fld-gpu-realloc", [(GPU, "        return Kokkos::kokkos_realloc<exec>(ptr, newSize);", "        return Kokkos::kokkos_realloc<Kokkos::HostSpace>(ptr, newSize);")], ["C19"]),
    ("fld-gpu-alloc", [(GPU, 'void* alloc(size_t size) const { return Kokkos::kokkos_malloc<exec>("Field", size); }', 'void* alloc(size_t size) const { return Kokkos::kokkos_malloc<exec>("Field", size / 2); }')], ["C19"]),
    ("fld-gpu-view", [(GPU, "Kokkos::View<ValueType*, Kokkos::DefaultExecutionSpace, Kokkos::MemoryUnmanaged>", "Kokkos::View<ValueType*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged>")], ["C19"]),
    ("fld-fill-plus", [(FF, "        end = a.size();\n    }\n    auto viewA = a.view();\n    parallelFor(\n        a.exec(), {start, end}, KOKKOS_LAMBDA(const size_t i) { viewA[i] = value; }", "        end = a.size();\n    }\n    auto viewA = a.view();\n    parallelFor(\n        a.exec(), {start, a.size()}, KOKKOS_LAMBDA(const size_t i) { viewA[i] = value; }")], ["C20"]),
    ("fld-set-rel", [(FF, "viewA[i] = b[i]; }", "viewA[i] = b[i - start]; }")], ["C20"]),
    ("fld-map-local", [(FF, "viewA[i] = inner(i); }", "viewA[i] = inner(i - start); }")], ["C20"]),
    ("fld-map-view-ok", [(FF, "    auto viewA = a.view();\n    parallelFor(\n        a.exec(), {start, end}, KOKKOS_LAMBDA(const size_t i) { viewA[i] = inner(i); }\n    );", "    auto viewA = a.view({start, end});\n    const size_t first = start;\n    parallelFor(\n        a.exec(), {size_t(0), end - start}, KOKKOS_LAMBDA(const size_t i) { viewA[i] = inner(first + i); }\n    );")], []),
    ("fld-sub-order", [(FF, "return va - vb; }", "return vb - va; }")], ["C20"]),
    ("fld-binop-nolen", [(FF, "    NeoFOAM_ASSERT_EQUAL_LENGTH(a, b);\n    auto viewA", "    auto viewA")], ["C20"]),
    ("fld-smul-acc", [(FF, "return viewA[i] * value; }", "return viewA[i] + viewA[i] * value; }")], ["C20"]),
    ("fld-eq-first", [(FF, "    for (size_t i = 0; i < hostSpan.size(); i++)", "    for (size_t i = 1; i < hostSpan.size(); i++)")], ["C20"]),
    ("fld-eq-size", [(FF, "    if (hostSpan.size() != hostSpan2.size())\n    {\n        return false;\n    }\n\n    for (size_t i = 0; i < hostSpan.size()", "    for (size_t i = 0; i < std::min(hostSpan.size(), hostSpan2.size())")], ["C20"]),
    ("fld-eq-half", [(FF, "    for (size_t i = 0; i < hostView.size(); i++)\n    {\n        if (hostView[i] != value)", "    for (size_t i = 0; i < hostView.size(); i += 2)\n    {\n        if (hostView[i] != value)")], ["C20"]),
    ("fld-eq-flag-ok", [(FF, "    for (size_t i = 0; i < hostView.size(); i++)\n    {\n        if (hostView[i] != value)\n        {\n            return false;\n        }\n    }\n    return true;", "    bool same = true;\n    for (size_t i = 0; i < hostView.size() && same; i++)\n    {\n        same = !(hostView[i] != value);\n    }\n    return same;")], []),
    ("fld-eq-negate-ok", [(FF, "        if (hostSpan[i] != hostSpan2[i])\n        {\n            return false;\n        }", "        const bool agree = hostSpan[i] == hostSpan2[i];\n        if (agree) continue;\n        return false;")], []),
]
