// Stand-in for Ginkgo's headers: the declarations the library may use, with Ginkgo's signatures and ownership.  Only parsed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace gko
{
using size_type = std::size_t;
class Executor
{
public:
    virtual ~Executor() = default;
};
class ReferenceExecutor : public Executor
{
public:
    static std::shared_ptr<ReferenceExecutor> create();
};
class OmpExecutor : public Executor
{
public:
    static std::shared_ptr<OmpExecutor> create();
};
class CudaExecutor : public Executor
{
public:
    static std::shared_ptr<CudaExecutor> create(int device, std::shared_ptr<Executor> master);
};
class HipExecutor : public Executor
{
public:
    static std::shared_ptr<HipExecutor> create(int device, std::shared_ptr<Executor> master);
};
template<size_type N>
struct dim
{
    size_type rows, cols;
    dim(size_type r, size_type c) : rows(r), cols(c) {}
};
template<typename T>
T* owned(const T* data, size_type n);   // a copy of the n elements that the array owns

// an array is a view of memory it does not own, or owns its memory; copies of an array own theirs
template<typename T>
class array
{
public:
    array(std::shared_ptr<const Executor> exec, size_type n, T* data, bool view) : exec_(exec), n_(n), data_(data), view_(view) {}
    array(const array& o) : exec_(o.exec_), n_(o.n_), data_(owned<T>(o.data_, o.n_)), view_(false) {}
    array(array&& o) : exec_(o.exec_), n_(o.n_), data_(o.data_), view_(o.view_) {}
    static array view(std::shared_ptr<const Executor> exec, size_type n, T* data) { return array(exec, n, data, true); }
    struct cview
    {
        std::shared_ptr<const Executor> exec_;
        size_type n_;
        const T* data_;
        array copy_to_array() const { return array(exec_, n_, owned<T>(data_, n_), false); }
    };
    static cview const_view(std::shared_ptr<const Executor> exec, size_type n, const T* data) { return cview {exec, n, data}; }
    size_type get_size() const { return n_; }
    T* get_data() { return data_; }
    const T* get_const_data() const { return data_; }

private:
    std::shared_ptr<const Executor> exec_;
    size_type n_;
    T* data_;
    bool view_;
};
namespace detail
{
template<typename T>
using const_array_view = typename array<T>::cview;
}
template<typename T>
array<T> make_array_view(std::shared_ptr<const Executor> exec, size_type n, T* data)
{
    return array<T>::view(exec, n, data);
}
template<typename T>
typename array<T>::cview make_const_array_view(std::shared_ptr<const Executor> exec, size_type n, const T* data)
{
    return array<T>::const_view(exec, n, data);
}
class LinOp
{
public:
    virtual ~LinOp() = default;
    // x = A b (for a solver: A x = b)
    void apply(std::shared_ptr<const LinOp> b, std::shared_ptr<LinOp> x) const;
};
class LinOpFactory
{
public:
    virtual ~LinOpFactory() = default;
    std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> a) const;
};
namespace matrix
{
template<typename V, typename I>
class Csr : public LinOp
{
public:
    static std::unique_ptr<Csr> create(std::shared_ptr<const Executor> exec, dim<2> size, array<V> values, array<I> col_idxs, array<I> row_ptrs);
};
template<typename V>
class Dense : public LinOp
{
public:
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> exec, dim<2> size, array<V> values, size_type stride);
};
}
template<typename T>
std::shared_ptr<T> share(std::unique_ptr<T>&& p);
namespace config
{
class pnode
{
public:
    using map_type = std::map<std::string, pnode>;
    using array_type = std::vector<pnode>;
    pnode();
    pnode(const pnode&);
    pnode& operator=(const pnode&);
    explicit pnode(const std::string& s);
    explicit pnode(const char* s);
    explicit pnode(bool v);
    template<typename T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>* = nullptr>
    explicit pnode(T v);
    template<typename T, std::enable_if_t<std::is_floating_point<T>::value>* = nullptr>
    explicit pnode(T v);
    explicit pnode(const array_type& a);
    explicit pnode(const map_type& m);
    explicit operator bool() const noexcept;
};
class registry
{
public:
    registry();
};
class type_descriptor
{};
template<typename V = double, typename I = int>
type_descriptor make_type_descriptor();
class deferred
{
public:
    std::unique_ptr<LinOpFactory> on(std::shared_ptr<const Executor> exec) const;
};
deferred parse(const pnode& config, const registry& context, const type_descriptor& td);
}
}
