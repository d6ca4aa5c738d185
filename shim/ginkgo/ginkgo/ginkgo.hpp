// Small stand-in for the parts of Ginkgo the library uses: host executors, arrays and views (copies own
// their data, moves keep a view), CSR and dense matrices, configurations, and a direct solver.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstddef>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace gko
{
using size_type = std::size_t;
using int32 = int;
class Executor : public std::enable_shared_from_this<Executor>
{
public:
    virtual ~Executor() = default;
    virtual const char* kind() const = 0;
    std::shared_ptr<const Executor> get_master() const { return shared_from_this(); }
};
class OmpExecutor : public Executor
{
public:
    static std::shared_ptr<OmpExecutor> create() { return std::make_shared<OmpExecutor>(); }
    const char* kind() const override { return "omp"; }
};
class ReferenceExecutor : public OmpExecutor
{
public:
    static std::shared_ptr<ReferenceExecutor> create() { return std::make_shared<ReferenceExecutor>(); }
    const char* kind() const override { return "reference"; }
};
}
namespace fginkgo
{
void hostOnly(const void* p, std::size_t bytes);
[[noreturn]] void misuse(const char* sig, const std::string& what);
extern int live;
struct Counted
{
    Counted() { ++live; }
    Counted(const Counted&) { ++live; }
    ~Counted() { --live; }
};
}
namespace gko
{
template<typename T>
class array;
namespace detail
{
template<typename T>
class const_array_view
{
public:
    const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p) : exec_(std::move(e)), n_(n), p_(p) {}
    const_array_view(const const_array_view&) = delete;
    const_array_view(const_array_view&& o) : exec_(o.exec_), n_(std::exchange(o.n_, 0)), p_(std::exchange(o.p_, nullptr)) {}
    size_type get_size() const { return n_; }
    size_type get_num_elems() const { return n_; }
    const T* get_const_data() const { return p_; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }
    array<T> copy_to_array() const;

private:
    std::shared_ptr<const Executor> exec_;
    size_type n_;
    const T* p_;
};
}
template<typename T>
class array
{
public:
    using value_type = T;
    array() = default;
    explicit array(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    array(std::shared_ptr<const Executor> e, size_type n) : exec_(std::move(e)), own_(n), n_(n) { p_ = own_.data(); }
    array(const array& o) : exec_(o.exec_), n_(o.n_)
    {
        fginkgo::hostOnly(o.p_, n_ * sizeof(T));
        own_.assign(o.p_, o.p_ + n_), p_ = own_.data();
    }
    array(array&& o) noexcept : exec_(o.exec_), own_(std::move(o.own_)), n_(std::exchange(o.n_, 0)), p_(std::exchange(o.p_, nullptr)), view_(o.view_) {}
    array& operator=(const array& o)
    {
        if (&o == this) return *this;
        if (!exec_) exec_ = o.exec_;
        if (view_)
        {
            if (o.n_ > n_) throw std::out_of_range("view too small");
        }
        else own_.resize(o.n_), p_ = own_.data();
        fginkgo::hostOnly(o.p_, o.n_ * sizeof(T));
        fginkgo::hostOnly(p_, o.n_ * sizeof(T));
        for (size_type i = 0; i < o.n_; ++i) p_[i] = o.p_[i];
        n_ = o.n_;
        return *this;
    }
    array& operator=(array&& o)
    {
        if (&o == this) return *this;
        exec_ = o.exec_, own_ = std::move(o.own_), n_ = std::exchange(o.n_, 0), p_ = std::exchange(o.p_, nullptr), view_ = o.view_;
        return *this;
    }
    static array view(std::shared_ptr<const Executor> e, size_type n, T* p)
    {
        array a(std::move(e));
        a.n_ = n, a.p_ = p, a.view_ = true;
        return a;
    }
    static detail::const_array_view<T> const_view(std::shared_ptr<const Executor> e, size_type n, const T* p) { return {std::move(e), n, p}; }
    size_type get_size() const { return n_; }
    size_type get_num_elems() const { return n_; }
    T* get_data() { return p_; }
    const T* get_const_data() const { return p_; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }
    bool is_owning() const { return !view_; }

private:
    std::shared_ptr<const Executor> exec_;
    std::vector<T> own_;
    size_type n_ = 0;
    T* p_ = nullptr;
    bool view_ = false;
};
template<typename T>
array<T> detail::const_array_view<T>::copy_to_array() const
{
    fginkgo::hostOnly(p_, n_ * sizeof(T));
    array<T> a(exec_, n_);
    for (size_type i = 0; i < n_; ++i) a.get_data()[i] = p_[i];
    return a;
}
template<typename T>
array<T> make_array_view(std::shared_ptr<const Executor> e, size_type n, T* p)
{
    return array<T>::view(std::move(e), n, p);
}
template<typename T>
detail::const_array_view<T> make_const_array_view(std::shared_ptr<const Executor> e, size_type n, const T* p)
{
    return {std::move(e), n, p};
}
template<size_t D>
struct dim
{
    size_type d[D];
    size_type operator[](size_type i) const { return d[i]; }
};
template<typename P>
auto share(P&& p) -> std::shared_ptr<std::remove_reference_t<decltype(*p)>>
{
    return std::shared_ptr<std::remove_reference_t<decltype(*p)>>(std::move(p));
}
class LinOp : fginkgo::Counted
{
public:
    LinOp(std::shared_ptr<const Executor> e, dim<2> n) : exec_(std::move(e)), size_(n) {}
    virtual ~LinOp() = default;
    const dim<2>& get_size() const { return size_; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }
    template<typename B, typename X>
    const LinOp* apply(const B& b, X&& x) const
    {
        applyTo(&*b, &*x);
        return this;
    }
    virtual void applyTo(const LinOp* b, LinOp* x) const = 0;

private:
    std::shared_ptr<const Executor> exec_;
    dim<2> size_;
};
namespace matrix
{
template<typename T>
class Dense : public LinOp
{
public:
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, dim<2> n, array<T> v, size_type stride) { return std::unique_ptr<Dense>(new Dense(std::move(e), n, std::move(v), stride)); }
    void applyTo(const LinOp*, LinOp*) const override { fginkgo::misuse("ginkgo-apply", "a dense matrix is applied"); }
    std::vector<T> column() const
    {
        fginkgo::hostOnly(v_.get_const_data(), v_.get_size() * sizeof(T));
        std::vector<T> r;
        for (size_type i = 0; i < get_size()[0]; ++i) r.push_back(v_.get_const_data()[i * stride_]);
        return r;
    }
    void put(const std::vector<T>& c)
    {
        fginkgo::hostOnly(v_.get_const_data(), v_.get_size() * sizeof(T));
        for (size_type i = 0; i < c.size(); ++i) v_.get_data()[i * stride_] = c[i];
    }

private:
    Dense(std::shared_ptr<const Executor> e, dim<2> n, array<T> v, size_type stride) : LinOp(std::move(e), n), v_(std::move(v)), stride_(stride)
    {
        if (n[0] && (stride < n[1] || v_.get_size() < (n[0] - 1) * stride + n[1])) throw std::out_of_range("too few values for a dense matrix");
    }
    array<T> v_;
    size_type stride_;
};
template<typename T, typename I>
class Csr : public LinOp
{
public:
    static std::unique_ptr<Csr> create(std::shared_ptr<const Executor> e, dim<2> n, array<T> v, array<I> c, array<I> r) { return std::unique_ptr<Csr>(new Csr(std::move(e), n, std::move(v), std::move(c), std::move(r))); }
    void applyTo(const LinOp*, LinOp*) const override { fginkgo::misuse("ginkgo-apply", "a sparse matrix is applied"); }
    // as entries
    std::vector<I> rows() const
    {
        std::vector<I> o;
        for (size_type i = 0; i < get_size()[0]; ++i)
            for (I k = r_.get_const_data()[i]; k < r_.get_const_data()[i + 1]; ++k) o.push_back(I(i));
        return o;
    }
    std::vector<I> columns() const { return {c_.get_const_data(), c_.get_const_data() + c_.get_size()}; }
    std::vector<T> values() const { return {v_.get_const_data(), v_.get_const_data() + v_.get_size()}; }

private:
    Csr(std::shared_ptr<const Executor> e, dim<2> n, array<T> v, array<I> c, array<I> r) : LinOp(std::move(e), n), v_(std::move(v)), c_(std::move(c)), r_(std::move(r))
    {
        if (c_.get_size() != v_.get_size() || r_.get_size() != n[0] + 1) throw std::out_of_range("the parts of a sparse matrix do not fit");
        fginkgo::hostOnly(v_.get_const_data(), v_.get_size() * sizeof(T));
        fginkgo::hostOnly(c_.get_const_data(), c_.get_size() * sizeof(I));
        fginkgo::hostOnly(r_.get_const_data(), r_.get_size() * sizeof(I));
        if (n[0] && size_type(r_.get_const_data()[n[0]]) != v_.get_size()) fginkgo::misuse("ginkgo-rows", "the row offsets do not end with the number of entries");
        for (auto k : columns())
            if (k < 0 || size_type(k) >= n[1]) fginkgo::misuse("ginkgo-range", "an entry outside the matrix");
    }
    array<T> v_;
    array<I> c_, r_;
};
}
class LinOpFactory : fginkgo::Counted
{
public:
    virtual ~LinOpFactory() = default;
    virtual std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp>) const = 0;
};
namespace config
{
class pnode
{
public:
    using map_type = std::map<std::string, pnode>;
    enum class tag_t
    {
        empty,
        array,
        boolean,
        real,
        integer,
        string,
        map
    };
    pnode() = default;
    explicit pnode(const std::string& s) : tag_(tag_t::string), s_(s) {}
    explicit pnode(const char* s) : pnode(std::string(s)) {}
    template<typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0>
    explicit pnode(T i) : tag_(tag_t::integer), i_(static_cast<long long>(i))
    {}
    explicit pnode(bool b) : tag_(tag_t::boolean), i_(b) {}
    explicit pnode(double d) : tag_(tag_t::real), d_(d) {}
    explicit pnode(map_type m) : tag_(tag_t::map), m_(std::move(m)) {}
    tag_t get_tag() const { return tag_; }
    explicit operator bool() const { return tag_ != tag_t::empty; }
    bool operator==(const pnode& o) const { return tag_ == o.tag_ && s_ == o.s_ && i_ == o.i_ && d_ == o.d_ && m_ == o.m_; }
    const map_type& get_map() const { return m_; }
    const std::string& get_string() const { return s_; }
    long long get_integer() const { return i_; }
    double get_real() const { return d_; }
    std::string text() const
    {
        switch (tag_)
        {
        case tag_t::empty: return "nothing";
        case tag_t::string: return "'" + s_ + "'";
        case tag_t::real: return "real " + std::to_string(d_);
        case tag_t::boolean: return "bool " + std::to_string(i_);
        case tag_t::integer: return "int " + std::to_string(i_);
        default:
        {
            std::string r = "{";
            for (auto& [k, v] : m_) r += k + ": " + v.text() + "; ";
            return r + "}";
        }
        }
    }

private:
    tag_t tag_ = tag_t::empty;
    std::string s_;
    long long i_ = 0;
    double d_ = 0;
    map_type m_;
};
class registry
{};
struct type_descriptor
{
    std::string value, index;
};
template<typename V = double, typename I = int, typename G = int>
type_descriptor make_type_descriptor()
{
    return {std::is_same_v<V, double> ? "float64" : "float32", std::is_same_v<I, int> ? "int32" : "other"};
}
struct deferred_factory_parameter
{
    pnode config;
    type_descriptor types;
    std::unique_ptr<LinOpFactory> on(std::shared_ptr<const Executor>) const;
};
inline deferred_factory_parameter parse(const pnode& c, const registry&, type_descriptor t = make_type_descriptor<>()) { return {c, t}; }
}
}
namespace fginkgo
{
struct Solve
{
    std::vector<double> a, b, x, guess; // dense
    gko::config::pnode config;
    std::string kind; // of executor
};
extern std::vector<Solve> solves;
extern double factor;
extern bool failSolve;
void begin();
}
