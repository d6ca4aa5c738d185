// Linear systems as dense host data.
#pragma once
#include "fv.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
namespace fv
{
namespace la = NeoFOAM::la;
template<typename T>
T mult(const T& a, const T& b) // componentwise
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(a[0] * b[0], a[1] * b[1], a[2] * b[2]);
    else return a * b;
}
template<typename T>
using System = la::LinearSystem<T, localIdx>;
template<typename T>
struct Dense
{
    size_t n;
    std::vector<T> a, b; // row-major
    explicit Dense(const System<T>& s) : n(s.rhs().size()), a(n * n, zeroOf<T>()), b(val(s.rhs()))
    {
        auto v = val(s.matrix().values());
        auto row = val(s.matrix().rowPtrs());
        const auto cf = s.matrix().colIdxs();
        auto col = val(cf);
        MC_CHECK(row.size() == n + 1 && row.back() == v.size() && col.size() == v.size(), "system-shape", "rows ", show(row), " for ", n, " unknowns and ", v.size(), " values");
        for (size_t i = 0; i < n; ++i)
            for (size_t k = row[i]; k < row[i + 1]; ++k) a[i * n + col[k]] = plus(a[i * n + col[k]], v[k]);
    }
    // A x - b
    std::vector<T> residual(const std::vector<T>& x) const
    {
        std::vector<T> r;
        for (size_t i = 0; i < n; ++i)
        {
            T s = scale(-1.0, b[i]);
            for (size_t j = 0; j < n; ++j) s = plus(s, mult(a[i * n + j], x[j]));
            r.push_back(s);
        }
        return r;
    }
};
template<typename T>
System<T> emptySystem(const UnstructuredMesh& m)
{
    return la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*fvcc::SparsityPattern::readOrCreate(m));
}
// something that must stay
template<typename T>
void prefill(System<T>& s)
{
    put(s.matrix().values(), distinct<T>(s.matrix().values().size(), 11));
    put(s.rhs(), distinct<T>(s.rhs().size(), -23));
}
}
