// A small sequential stand-in for the parts of Kokkos that NeoFOAM uses.  The analysis needs it
// to type-check the sources; the demonstrations compile against the same text and run it.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdlib>
#include <algorithm>
#include <array>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <sstream>
#include <tuple>
#include <unordered_map>
#include <limits>
#include <vector>
#include <string>
#include <type_traits>
#include <utility>

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline

namespace Kokkos
{

struct HostSpace {};
struct DeviceSpace {};
struct MemoryUnmanaged {};

struct Serial { using memory_space = HostSpace; bool operator==(const Serial&) const { return true; } };
struct Threads { using memory_space = HostSpace; bool operator==(const Threads&) const { return true; } };
struct Device { using memory_space = DeviceSpace; bool operator==(const Device&) const { return true; } };
using DefaultHostExecutionSpace = Threads;
using DefaultExecutionSpace = Device;

template<class A, class B>
struct pair
{
    A first;
    B second;
    pair() = default;
    pair(const A& a, const B& b) : first(a), second(b) {}
};

[[noreturn]] inline void abort(const char*) { std::abort(); }
inline int device_id() { return 0; }
inline void fence() {}
inline void fence(const std::string&) {}
inline void initialize(int&, char**) {}
inline void finalize() {}

template<class Space>
inline void* kokkos_malloc(const std::string&, std::size_t n) { return std::malloc(n ? n : 1); }
template<class Space>
inline void* kokkos_malloc(std::size_t n) { return std::malloc(n ? n : 1); }
template<class Space>
inline void* kokkos_realloc(void* p, std::size_t n) { return std::realloc(p, n ? n : 1); }
template<class Space>
inline void kokkos_free(void* p) { std::free(p); }

template<class Space>
struct RangePolicy
{
    std::size_t b, e;
    RangePolicy(std::size_t begin, std::size_t end) : b(begin), e(end) {}
    std::size_t begin() const { return b; }
    std::size_t end() const { return e; }
};

template<class T, class Space = HostSpace, class Traits = void>
class View;
template<class T, class Space, class Traits>
class View<T*, Space, Traits>
{
public:

    View() = default;
    View(T* p, std::size_t n) : p_(p), n_(n) {}
    T& operator()(std::size_t i) const { return p_[i]; }
    T* data() const { return p_; }
    std::size_t size() const { return n_; }

private:

    T* p_ = nullptr;
    std::size_t n_ = 0;
};

template<class A, class SA, class TA, class B, class SB, class TB>
inline void deep_copy(const View<A*, SA, TA>& dst, const View<B*, SB, TB>& src)
{
    for (std::size_t i = 0; i < dst.size(); i++)
    {
        dst.data()[i] = src.data()[i];
    }
}

template<class T>
struct is_reducer { static constexpr bool value = false; };

template<class T>
struct Sum
{
    using value_type = T;
    T* r;
    explicit Sum(T& v) : r(&v) {}
    T& reference() const { return *r; }
    void init(T& v) const { v = T(); }
    void join(T& a, const T& b) const { a += b; }
};
template<class T>
struct Max
{
    using value_type = T;
    T* r;
    explicit Max(T& v) : r(&v) {}
    T& reference() const { return *r; }
    void init(T& v) const { v = std::numeric_limits<T>::lowest(); }
    void join(T& a, const T& b) const { if (b > a) a = b; }
};
template<class T>
struct Min
{
    using value_type = T;
    T* r;
    explicit Min(T& v) : r(&v) {}
    T& reference() const { return *r; }
    void init(T& v) const { v = std::numeric_limits<T>::max(); }
    void join(T& a, const T& b) const { if (b < a) a = b; }
};
template<class T>
struct is_reducer<Sum<T>> { static constexpr bool value = true; };
template<class T>
struct is_reducer<Max<T>> { static constexpr bool value = true; };
template<class T>
struct is_reducer<Min<T>> { static constexpr bool value = true; };

template<class Space, class Kernel>
inline void parallel_for(const std::string&, const RangePolicy<Space>& p, const Kernel& k)
{
    for (std::size_t i = p.begin(); i < p.end(); i++)
    {
        k(i);
    }
}
template<class Space, class Kernel>
inline void parallel_for(const RangePolicy<Space>& p, const Kernel& k)
{
    for (std::size_t i = p.begin(); i < p.end(); i++)
    {
        k(i);
    }
}

template<class Space, class Kernel, class T>
inline void parallel_reduce(const std::string&, const RangePolicy<Space>& p, const Kernel& k, T& value)
{
    if constexpr (is_reducer<T>::value)
    {
        typename T::value_type v;
        value.init(v);
        for (std::size_t i = p.begin(); i < p.end(); i++)
        {
            k(i, v);
        }
        value.reference() = v;
    }
    else
    {
        T v {};
        for (std::size_t i = p.begin(); i < p.end(); i++)
        {
            k(i, v);
        }
        value = v;
    }
}
template<class Space, class Kernel, class T>
inline void parallel_reduce(const RangePolicy<Space>& p, const Kernel& k, T& value)
{
    parallel_reduce(std::string(), p, k, value);
}

namespace Impl
{
template<class K>
struct ScanArg : ScanArg<decltype(&K::operator())> {};
template<class K, class R, class I, class V, class B>
struct ScanArg<R (K::*)(I, V&, B) const> { using type = V; };
}

template<class Space, class Kernel>
inline void parallel_scan(const std::string&, const RangePolicy<Space>& p, const Kernel& k)
{
    typename Impl::ScanArg<Kernel>::type v {};
    for (std::size_t i = p.begin(); i < p.end(); i++)
    {
        k(i, v, true);
    }
}
template<class Space, class Kernel, class R>
inline void parallel_scan(const std::string&, const RangePolicy<Space>& p, const Kernel& k, R& ret)
{
    typename Impl::ScanArg<Kernel>::type v {};
    for (std::size_t i = p.begin(); i < p.end(); i++)
    {
        k(i, v, true);
    }
    ret = v;
}

template<class T>
inline void atomic_add(T* p, const std::type_identity_t<T>& v) { *p += v; }
template<class T>
inline void atomic_sub(T* p, const std::type_identity_t<T>& v) { *p -= v; }
template<class T>
inline T atomic_fetch_add(T* p, const std::type_identity_t<T>& v) { T o = *p; *p += v; return o; }
template<class T>
inline T atomic_fetch_sub(T* p, const std::type_identity_t<T>& v) { T o = *p; *p -= v; return o; }
template<class T>
inline void atomic_increment(T* p) { ++*p; }
template<class T>
inline void atomic_decrement(T* p) { --*p; }
template<class T>
inline void atomic_assign(T* p, const std::type_identity_t<T>& v) { *p = v; }
template<class T>
inline void atomic_store(T* p, const std::type_identity_t<T>& v) { *p = v; }
template<class T>
inline T atomic_load(T* p) { return *p; }

template<class T>
inline T sqrt(T x) { return std::sqrt(x); }
template<class T>
inline T fabs(T x) { return std::fabs(x); }
template<class T>
inline T abs(T x) { return std::abs(x); }
template<class T>
inline T max(const T& a, const T& b) { return a < b ? b : a; }
template<class T>
inline T min(const T& a, const T& b) { return b < a ? b : a; }

}
