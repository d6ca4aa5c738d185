#pragma once
#include "fv.hpp"
#include "NeoFOAM/linearAlgebra/CSRMatrix.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include <map>
namespace fv
{
namespace la = NeoFOAM::la;
// a sparse matrix on the host: each row lists its columns in storage order
template<typename T>
struct Model
{
    std::vector<std::vector<size_t>> rows;
    std::vector<T> values, rhs;
    std::string label;
    size_t n() const { return rows.size(); }
    template<typename I>
    std::vector<I> cols() const
    {
        std::vector<I> r;
        for (auto& l : rows)
            for (auto c : l) r.push_back(static_cast<I>(c));
        return r;
    }
    template<typename I>
    std::vector<I> offs() const
    {
        std::vector<I> r {0};
        for (auto& l : rows) r.push_back(static_cast<I>(size_t(r.back()) + l.size()));
        return r;
    }
    std::string text() const
    {
        if (!label.empty()) return label;
        std::string s = "rows";
        for (auto& l : rows) s += " " + show(l);
        return s;
    }
    std::vector<T> residual(const std::vector<scalar>& x) const
    {
        std::vector<T> r;
        size_t k = 0;
        for (size_t i = 0; i < n(); ++i)
        {
            T s = scale(-1.0, rhs[i]);
            for (auto c : rows[i]) s = plus(s, scale(x[c], values[k++]));
            r.push_back(s);
        }
        return r;
    }
};
// all ordered selections of columns out of n
inline const std::vector<std::vector<size_t>>& selections(size_t n)
{
    static std::map<size_t, std::vector<std::vector<size_t>>> m;
    auto& r = m[n];
    if (r.empty())
    {
        r.push_back({});
        for (size_t k = 0; k < r.size(); ++k)
            for (size_t c = 0; c < n; ++c)
                if (std::find(r[k].begin(), r[k].end(), c) == r[k].end())
                {
                    auto x = r[k];
                    x.push_back(c);
                    r.push_back(x);
                }
    }
    return r;
}
template<typename T>
Model<T> fill(std::vector<std::vector<size_t>> rows)
{
    Model<T> m;
    m.rows = std::move(rows);
    size_t k = 0;
    for (auto& r : m.rows) k += r.size();
    m.values = distinct<T>(k, 2), m.rhs = distinct<T>(m.n(), -7);
    return m;
}
template<typename T>
Model<T> pickModel(size_t most)
{
    size_t n = size_t(choose(int(most) + 1, "rows"));
    std::vector<std::vector<size_t>> rows;
    for (size_t i = 0; i < n; ++i)
    {
        auto& s = selections(n);
        rows.push_back(s[size_t(choose(int(s.size()), "columns"))]);
    }
    return fill<T>(rows);
}
// larger ones
template<typename T>
Model<T> pickLarge()
{
    size_t n = size_t(4 + choose(4, "rows"));
    int kind = choose(4, "shape");
    std::vector<std::vector<size_t>> rows(n);
    for (size_t i = 0; i < n; ++i)
    {
        if (kind == 0) rows[i] = {i};
        if (kind == 1) // full, each row starting elsewhere
            for (size_t j = 0; j < n; ++j) rows[i].push_back((i + j * (n % 3 == 0 ? 1 : 2) + (n % 2 == 0 && j * 2 >= n && n % 3 ? 1 : 0)) % n);
        if (kind == 2)
            for (size_t j : {(i + n - 1) % n, i, (i + 1) % n}) rows[i].push_back(j);
        if (kind == 3 && i % 2) rows[i] = {n - 1, 0};
    }
    return fill<T>(rows);
}
// more entries per row, and more of them, than small counters hold
template<typename T>
Model<T> pickHuge()
{
    static const char* NAME[] = {"a full matrix of 40 rows", "a matrix of 300 rows with one full row and one full column", "a tridiagonal matrix of 12000 rows", "a matrix of 3000 rows with 25 entries each"};
    static const size_t N[] = {40, 300, 12000, 3000};
    int kind = choose(4, "shape");
    size_t n = N[kind];
    std::vector<std::vector<size_t>> rows(n);
    for (size_t i = 0; i < n; ++i)
    {
        if (kind == 0 || (kind == 1 && i == 1))
            for (size_t j = 0; j < n; ++j) rows[i].push_back(n - 1 - j);
        else if (kind == 1) rows[i] = i == 2 ? std::vector<size_t> {2} : std::vector<size_t> {2, i};
        if (kind == 2)
            for (size_t j = i ? i - 1 : 0; j < std::min(n, i + 2); ++j) rows[i].push_back(j);
        if (kind == 3)
            for (size_t j = 0; j < 25; ++j) rows[i].push_back((i + j * 117) % n);
    }
    auto m = fill<T>(rows);
    m.label = NAME[kind];
    return m;
}
template<typename T, typename I>
la::CSRMatrix<T, I> build(const Executor& ex, const Model<T>& m)
{
    return {kh::make(ex, m.values), kh::make(ex, m.template cols<I>()), kh::make(ex, m.template offs<I>())};
}
template<typename T, typename I>
la::LinearSystem<T, I> system(const Executor& ex, const Model<T>& m)
{
    return {build<T, I>(ex, m), kh::make(ex, m.rhs)};
}
}
