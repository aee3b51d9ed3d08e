// Probe kernels for the parallel algorithms: every overload, on a variant executor and on each executor type.
#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "NeoFOAM/fields/field.hpp"

namespace nfprobe
{
using namespace NeoFOAM;
using Range = std::pair<size_t, size_t>;

void forRange(const Executor& e, Range r, View<scalar> v, View<const scalar> x)
{
    parallelFor(e, r, KOKKOS_LAMBDA(const size_t i) { v[i] += x[i]; });
}
void forRangeSerial(const SerialExecutor& e, Range r, View<scalar> v, View<const scalar> x)
{
    parallelFor(e, r, KOKKOS_LAMBDA(const size_t i) { v[i] += x[i]; });
}
void forRangeCPU(const CPUExecutor& e, Range r, View<scalar> v, View<const scalar> x)
{
    parallelFor(e, r, KOKKOS_LAMBDA(const size_t i) { v[i] += x[i]; });
}
void forRangeGPU(const GPUExecutor& e, Range r, View<scalar> v, View<const scalar> x)
{
    parallelFor(e, r, KOKKOS_LAMBDA(const size_t i) { v[i] += x[i]; });
}
void forField(Field<scalar>& f, View<const scalar> x)
{
    auto v = f.view();
    parallelFor(f, KOKKOS_LAMBDA(const size_t i) { return v[i] + x[i]; });
}
void forFieldSerial(const SerialExecutor& e, Field<scalar>& f, View<const scalar> x)
{
    auto v = f.view();
    parallelFor(e, f, KOKKOS_LAMBDA(const size_t i) { return v[i] + x[i]; });
}
void forFieldCPU(const CPUExecutor& e, Field<scalar>& f, View<const scalar> x)
{
    auto v = f.view();
    parallelFor(e, f, KOKKOS_LAMBDA(const size_t i) { return v[i] + x[i]; });
}
void forFieldGPU(const GPUExecutor& e, Field<scalar>& f, View<const scalar> x)
{
    auto v = f.view();
    parallelFor(e, f, KOKKOS_LAMBDA(const size_t i) { return v[i] + x[i]; });
}
void sumRange(const Executor& e, Range r, View<const scalar> x, scalar& out)
{
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void sumRangeSerial(const SerialExecutor& e, Range r, View<const scalar> x, scalar& out)
{
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void sumRangeCPU(const CPUExecutor& e, Range r, View<const scalar> x, scalar& out)
{
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void sumRangeGPU(const GPUExecutor& e, Range r, View<const scalar> x, scalar& out)
{
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void sumField(Field<scalar>& f, View<const scalar> x, scalar& out)
{
    parallelReduce(f, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void sumFieldSerial(const SerialExecutor& e, Field<scalar>& f, View<const scalar> x, scalar& out)
{
    parallelReduce(e, f, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, out);
}
void maxRange(const Executor& e, Range r, View<const scalar> x, scalar& out)
{
    Kokkos::Max<scalar> m(out);
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { if (l < x[i]) l = x[i]; }, m);
}
void maxField(Field<scalar>& f, View<const scalar> x, scalar& out)
{
    Kokkos::Max<scalar> m(out);
    parallelReduce(f, KOKKOS_LAMBDA(const size_t i, scalar& l) { if (l < x[i]) l = x[i]; }, m);
}
void reducerSumRange(const Executor& e, Range r, View<const scalar> x, scalar& out)
{
    Kokkos::Sum<scalar> m(out);
    parallelReduce(e, r, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, m);
}
void reducerSumField(Field<scalar>& f, View<const scalar> x, scalar& out)
{
    Kokkos::Sum<scalar> m(out);
    parallelReduce(f, KOKKOS_LAMBDA(const size_t i, scalar& l) { l += x[i]; }, m);
}
void scanRange(const Executor& e, Range r, View<scalar> v, View<const scalar> x)
{
    parallelScan(e, r, KOKKOS_LAMBDA(const size_t i, scalar& u, const bool last) { u += x[i]; if (last) { v[i] = u; } });
}
void scanRangeTotal(const Executor& e, Range r, View<scalar> v, View<const scalar> x, scalar& out)
{
    parallelScan(e, r, KOKKOS_LAMBDA(const size_t i, scalar& u, const bool last) { u += x[i]; if (last) { v[i] = u; } }, out);
}
bool same(const Executor& a, const Executor& b) { return a == b; }
bool differ(const Executor& a, const Executor& b) { return a != b; }
}
