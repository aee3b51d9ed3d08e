"""Edits for C43."""
V = "include/NeoFOAM/core/primitives/vector.hpp"
S = "include/NeoFOAM/core/primitives/scalar.hpp"
EDITS = [
    ("vec-sub-comp", [(V, "cmpts_[0] - rhs(0), cmpts_[1] - rhs(1), cmpts_[2] - rhs(2)", "cmpts_[0] - rhs(0), cmpts_[1] - rhs(1), cmpts_[2] - rhs(1)")], ["C43"]),
    ("vec-peq-order", [(V, "        cmpts_[0] += rhs(0);\n        cmpts_[1] += rhs(1);\n        cmpts_[2] += rhs(2);", "        cmpts_[0] += rhs(0);\n        cmpts_[1] += rhs(1);\n        cmpts_[2] += rhs(0);")], ["C43"]),
    ("vec-eq-two", [(V, " && cmpts_[2] == rhs(2);", ";")], ["C43"]),
    ("vec-eq-diff", [(V, "        return cmpts_[0] == rhs(0) && cmpts_[1] == rhs(1) && cmpts_[2] == rhs(2);", "        const Vector d = *this - rhs;\n        return d(0) + d(1) + d(2) == 0;")], ["C43"]),
    ("vec-mag-nosqrt", [(V, "return sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]);", "return vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2];")], ["C43"]),
    ("vec-mag-one", [(V, "return sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]);", "return sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[1]);")], ["C43"]),
    ("vec-scale-alias", [(V, "Vector& operator*=(const scalar rhs)", "Vector& operator*=(const scalar& rhs)")], ["C43"]),
    ("vec-one", [(V, "return Vector(1.0, 1.0, 1.0);", "return Vector(1.0, 1.0, 0.0);")], ["C43"]),
    ("vec-dot", [(V, "lhs[2] * rhs[2];", "lhs[2] * rhs[1];")], ["C43"]),
    ("vec-const", [(V, "        cmpts_[0] = constValue;\n        cmpts_[1] = constValue;\n        cmpts_[2] = constValue;", "        cmpts_[0] = constValue;\n        cmpts_[1] = constValue;\n        cmpts_[2] = 0.0;")], ["C43"]),
    ("vec-mul-label", [(V, "    Vector operator*(const label& rhs) const\n    {\n        return Vector(cmpts_[0] * rhs, cmpts_[1] * rhs, cmpts_[2] * rhs);", "    Vector operator*(const label& rhs) const\n    {\n        return Vector(cmpts_[0] * rhs, cmpts_[1] * rhs, cmpts_[2]);")], ["C43"]),
    ("sca-mag", [(S, "return std::abs(s);", "return s;")], ["C43"]),
    ("sca-one", [(S, "    return 1.0;\n", "    return 0.0;\n")], ["C43"]),
    ("vec-scale-ref-ok", [(V, "    Vector& operator*=(const scalar rhs)\n    {\n        cmpts_[0] *= rhs;\n        cmpts_[1] *= rhs;\n        cmpts_[2] *= rhs;\n        return *this;", "    Vector& operator*=(const scalar& rhs)\n    {\n        *this = *this * rhs;\n        return *this;")], []),
    ("vec-loop-ok", [(V, "        cmpts_[0] += rhs(0);\n        cmpts_[1] += rhs(1);\n        cmpts_[2] += rhs(2);", "        for (size_t i = 0; i < 3; i++)\n        {\n            cmpts_[i] += rhs(i);\n        }")], []),
    ("vec-sub-viapeq-ok", [(V, "        return Vector(cmpts_[0] - rhs(0), cmpts_[1] - rhs(1), cmpts_[2] - rhs(2));", "        Vector res(*this);\n        res -= rhs;\n        return res;")], []),
    ("vec-eq-loop-ok", [(V, "        return cmpts_[0] == rhs(0) && cmpts_[1] == rhs(1) && cmpts_[2] == rhs(2);", "        for (size_t i = 0; i < size(); ++i)\n        {\n            if (cmpts_[i] != rhs(i)) return false;\n        }\n        return true;")], []),
    ("vec-mag-dot-ok", [(V, "return sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]);", "return sqrt(vec & vec);")], []),
    ("vec-mag-std-ok", [(V, "return sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]);", "return std::sqrt(vec[0] * vec[0] + vec[1] * vec[1] + vec[2] * vec[2]);")], []),
    ("vec-mul-rev-ok", [(V, "    rhs *= sclr;\n    return rhs;", "    return rhs * sclr;")], []),
    ("sca-mag-ok", [(S, "return std::abs(s);", "return s < 0 ? -s : s;")], []),
]
