// Reference finite volume operators on host data, written from their definitions.
#pragma once
#include "fv.hpp"
#include "NeoFOAM/dsl/coeff.hpp"
namespace fv
{
enum Scheme
{
    LinearScheme,
    UpwindScheme
};
inline const char* SCHEME[] = {"linear", "upwind"};
// the owner's share of the face value
inline double ownerWeight(const MeshData& m, size_t f)
{
    if (f >= m.nInt) return 1;
    double o = std::abs(dot(m.Sf[f], sub(m.Cf[f], m.C[size_t(m.own[f])]))), n = std::abs(dot(m.Sf[f], sub(m.C[size_t(m.nei[f])], m.Cf[f])));
    return o + n > 1e-100 ? n / (o + n) : 0.5;
}
// one over the distance of the two centres along the face normal, limited
inline double faceCoeff(const MeshData& m, size_t f)
{
    Vector to = f < m.nInt ? m.C[size_t(m.nei[f])] : m.Cf[f], d = sub(to, m.C[size_t(m.own[f])]);
    return 1 / std::max(dot(m.Sf[f], d) / m.magSf[f], 0.05 * norm(d));
}
template<typename T>
std::vector<T> faceValues(const MeshData& m, Scheme s, const std::vector<scalar>& flux, const std::vector<T>& v, const std::vector<T>& b)
{
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); ++f)
    {
        if (f >= m.nInt)
        {
            r.push_back(b[f - m.nInt]);
            continue;
        }
        double w = s == LinearScheme ? ownerWeight(m, f) : flux[f] < 0 ? 0 : 1;
        r.push_back(plus(scale(w, v[size_t(m.own[f])]), scale(1 - w, v[size_t(m.nei[f])])));
    }
    return r;
}
// sum of what leaves each cell through its faces
template<typename T>
std::vector<T> net(const MeshData& m, const std::vector<T>& faces)
{
    std::vector<T> r(m.nCells(), zeroOf<T>());
    for (size_t f = 0; f < m.nFaces(); ++f)
    {
        auto& o = r[size_t(m.own[f])];
        o = plus(o, faces[f]);
        if (f >= m.nInt) continue;
        auto& n = r[size_t(m.nei[f])];
        n = minus(n, faces[f]);
    }
    return r;
}
template<typename T>
std::vector<T> perVolume(const MeshData& m, std::vector<T> r, const std::vector<scalar>& s)
{
    for (size_t i = 0; i < r.size(); ++i) r[i] = scale(s[i] / m.V[i], r[i]);
    return r;
}
template<typename T>
std::vector<T> timesEach(const std::vector<scalar>& k, std::vector<T> r)
{
    for (size_t i = 0; i < r.size(); ++i) r[i] = scale(k[i], r[i]);
    return r;
}
template<typename T>
std::vector<T> divRef(const MeshData& m, Scheme s, const std::vector<scalar>& flux, const std::vector<T>& v, const std::vector<T>& b, const std::vector<scalar>& k)
{
    return perVolume(m, net(m, timesEach(flux, faceValues(m, s, flux, v, b))), k);
}
template<typename T>
std::vector<T> normalGradRef(const MeshData& m, const std::vector<T>& v, const std::vector<T>& b)
{
    std::vector<T> r;
    for (size_t f = 0; f < m.nFaces(); ++f) r.push_back(scale(faceCoeff(m, f), minus(f < m.nInt ? v[size_t(m.nei[f])] : b[f - m.nInt], v[size_t(m.own[f])])));
    return r;
}
template<typename T>
std::vector<T> lapRef(const MeshData& m, const std::vector<scalar>& gamma, const std::vector<T>& v, const std::vector<T>& b, const std::vector<scalar>& k)
{
    return perVolume(m, net(m, timesEach(gamma, timesEach(m.magSf, normalGradRef(m, v, b)))), k);
}
inline std::vector<Vector> gradRef(const MeshData& m, const std::vector<scalar>& v, const std::vector<scalar>& b)
{
    auto fv_ = faceValues(m, LinearScheme, {}, v, b);
    std::vector<Vector> r;
    for (size_t f = 0; f < m.nFaces(); ++f) r.push_back(times(fv_[f], m.Sf[f]));
    return perVolume(m, net(m, r), std::vector<scalar>(m.nCells(), 1.0));
}
template<typename T>
std::vector<T> sum(std::vector<T> a, const std::vector<T>& b)
{
    for (size_t i = 0; i < a.size(); ++i) a[i] = plus(a[i], b[i]);
    return a;
}
template<typename T>
std::vector<T> minus(std::vector<T> a, const std::vector<T>& b)
{
    for (size_t i = 0; i < a.size(); ++i) a[i] = minus(a[i], b[i]);
    return a;
}
// the kinds of operator coefficients: none, a number, a field, both
struct Coefficient
{
    int kind;
    std::vector<scalar> values; // per cell
    std::unique_ptr<Field<scalar>> field;
    Coefficient(int k, const Executor& ex, size_t n) : kind(k)
    {
        std::vector<scalar> f;
        for (size_t i = 0; i < n; ++i) f.push_back(i % 3 == 1 ? -0.5 * double(i + 1) : 1.5 + 0.25 * double(i));
        field = std::make_unique<Field<scalar>>(kh::make(ex, f));
        for (size_t i = 0; i < n; ++i) values.push_back(k == 0 ? 1 : k == 1 ? 2.5 : k == 2 ? f[i] : -1.5 * f[i]);
    }
    NeoFOAM::dsl::Coeff get() const
    {
        using NeoFOAM::dsl::Coeff;
        return kind == 0 ? Coeff(1.0) : kind == 1 ? Coeff(2.5) : kind == 2 ? Coeff(*field) : Coeff(-1.5, *field);
    }
    std::string text() const { return kind == 0 ? "1" : kind == 1 ? "2.5" : kind == 2 ? "a field" : "-1.5 times a field"; }
};
}
