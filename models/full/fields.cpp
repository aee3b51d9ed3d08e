// Instantiates Field and the free functions on fields, for every element kind the library uses.
#include <any>
#include <string>
#include <vector>
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/field.hpp"

using namespace NeoFOAM;
template class NeoFOAM::Field<scalar>;

namespace nfprobe
{
template<typename T>
Field<T> plus(const Field<T>& a, const Field<T>& b)
{
    return a + b;
}
template<typename T>
Field<T> minus(const Field<T>& a, const Field<T>& b)
{
    return a - b;
}
template<typename T>
void mapTo(Field<T>& a, const Field<T>& b, std::pair<size_t, size_t> range)
{
    auto viewB = b.view();
    map(
        a, KOKKOS_LAMBDA(const size_t i) { return viewB[i]; }, range
    );
}
template<typename T>
void mapAll(Field<T>& a, const Field<T>& b)
{
    auto viewB = b.view();
    map(
        a, KOKKOS_LAMBDA(const size_t i) { return viewB[i]; }
    );
}
template<typename T>
void applyTo(Field<T>& a, const Field<T>& b)
{
    auto viewB = b.view();
    a.apply(KOKKOS_LAMBDA(const size_t i) { return viewB[i]; });
}
template<typename T>
void setTo(Field<T>& a, const Field<T>& b, std::pair<size_t, size_t> range)
{
    setField(a, b.view(), range);
}
template<typename T>
void setAll(Field<T>& a, const Field<T>& b)
{
    setField(a, b.view());
}
template<typename T>
void fillAll(Field<T>& a, const T& x)
{
    fill(a, x);
}
template<typename T>
void fillTo(Field<T>& a, const T& x, std::pair<size_t, size_t> range)
{
    fill(a, x, range);
}
template<typename T>
void fieldOps(const Executor& exec, Field<T>& a, const Field<T>& b, T x, const T* p, std::vector<T> v, size_t n)
{
    Field<T> f1(exec, n);
    Field<T> f2(exec, p, n);
    Field<T> f3(exec, n, x);
    Field<T> f4(exec, v);
    Field<T> f5(exec, b);
    Field<T> f6(b);
    Field<T> f7(std::move(f6));
    Field<T> f8 = a.copyToExecutor(exec);
    Field<T> f9 = a.copyToHost();
    a.copyToHost(f9);
    a = x;
    a = b;
    a += b;
    a -= b;
    a.resize(n);
    (void)a.size();
    (void)a.ssize();
    (void)a.empty();
    (void)a.data();
    (void)b.data();
    (void)a.exec();
    (void)a.range();
    (void)a.view();
    (void)b.view();
    (void)a.view({0, n});
    (void)b.view({0, n});
    fill(a, x);
    fill(a, x, {0, n});
    setField(a, b.view());
    setField(a, b.view(), {0, n});
    map(a, KOKKOS_LAMBDA(const size_t) { return T(x); });
    map(a, KOKKOS_LAMBDA(const size_t) { return T(x); }, {0, n});
    a.apply(KOKKOS_LAMBDA(const size_t) { return T(x); });
    add(a, b);
    sub(a, b);
    (void)(a + b);
    (void)(a - b);
    (void)equal(a, x);
    (void)equal(b, b);
    (void)plus(a, b);
    (void)minus(a, b);
    mapTo(a, b, {0, n});
    mapAll(a, b);
    applyTo(a, b);
    setTo(a, b, {0, n});
    setAll(a, b);
    fillAll(a, x);
    fillTo(a, x, {0, n});
}
void useFieldOps(const Executor& exec, size_t n, Field<scalar>& s, Field<Vector>& v, Field<label>& l, Field<localIdx>& i)
{
    fieldOps<scalar>(exec, s, s, scalar(1), nullptr, {}, n);
    fieldOps<Vector>(exec, v, v, Vector(1, 1, 1), nullptr, {}, n);
    fieldOps<label>(exec, l, l, label(1), nullptr, {}, n);
    fieldOps<localIdx>(exec, i, i, localIdx(1), nullptr, {}, n);
    scalarMul(s, 2.0);
    scalarMul(v, 2.0);
    mul(s, s);
    s *= s;
    s *= 2.0;
    v *= 2.0;
    (void)(s * s);
    (void)(s * 2.0);
    (void)(v * 2.0);
}
}
