// Fields on meshes and the list of meshes the finite volume checks run on.
#pragma once
#include "meshes.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

namespace fv
{
using namespace mh;
using mc::choose;
template<typename T>
using Vol = fvcc::VolumeField<T>;
template<typename T>
using Surf = fvcc::SurfaceField<T>;
using NeoFOAM::Dictionary;
using NeoFOAM::Input;
using NeoFOAM::TokenList;

template<typename T>
T of(double k) // distinct content for either value type
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(k, 0.5 - 2 * k, 3 + k * k);
    else return static_cast<T>(k);
}
template<typename T>
T scale(double s, const T& v)
{
    if constexpr (std::is_same_v<T, Vector>) return times(s, v);
    else return static_cast<T>(s * v);
}
template<typename T>
T plus(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, Vector>) return add(a, b);
    else return static_cast<T>(a + b);
}
template<typename T>
T minus(const T& a, const T& b)
{
    return plus(a, scale(-1.0, b));
}
template<typename T>
T zeroOf()
{
    if constexpr (std::is_same_v<T, Vector>) return Vector(0, 0, 0);
    else return T(0);
}
template<typename T>
std::vector<T> distinct(size_t n, double from)
{
    std::vector<T> r;
    for (size_t i = 0; i < n; ++i) r.push_back(of<T>(from + double(i) * 1.25 + (i % 2 ? -4.0 : 0.0)));
    return r;
}
template<typename T>
Vol<T> volField(const UnstructuredMesh& m, const std::vector<T>& v, const std::vector<T>& b, const std::string& name = "phi")
{
    Vol<T> f(m.exec(), name, m, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m));
    put(f.internalField(), v);
    put(f.boundaryField().value(), b);
    // the other components hold numbers nobody should use for a calculated patch
    put(f.boundaryField().refValue(), distinct<T>(b.size(), 7000));
    put(f.boundaryField().refGrad(), distinct<T>(b.size(), 8000));
    put(f.boundaryField().valueFraction(), std::vector<scalar>(b.size(), 0.375));
    return f;
}
template<typename T>
Surf<T> surfField(const UnstructuredMesh& m, const std::vector<T>& v, const std::string& name = "flux")
{
    Surf<T> f(m.exec(), name, m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m));
    put(f.internalField(), v);
    put(f.boundaryField().value(), std::vector<T>(v.end() - long(m.nBoundaryFaces()), v.end()));
    return f;
}
inline std::vector<MeshData>& meshList()
{
    static std::vector<MeshData> L = []
    {
        std::vector<MeshData> l;
        l.push_back(line({0, 1}));
        l.push_back(line({0, 1, 3}));
        l.push_back(line({0, 0.5, 1, 3}, true));
        l.push_back(grid({0, 1, 3}, {0, 2, 2.5}));
        l.push_back(grid({0, 1}, {0, 1, 3, 3.5}, {0, 0, 1, 2}));                                  // column: many boundary faces per cell
        l.push_back(grid({0, 1.5, 2, 4}, {0, 1, 3}, {1, 0, 0, 1}));                               // merged patches
        l.push_back(grid({0, 2}, {0, 0.5}, {0, 2, 3, 4}));                                        // one cell, four faces, an empty patch
        l.push_back(abstractMesh(3, {{1, 2}, {0, 2}, {0, 1}}, {{0}, {1, 1}, {2}}));               // triangle, faces out of order
        l.push_back(abstractMesh(4, {{0, 3}, {0, 1}, {0, 2}}, {{0, 0, 0}, {}, {3, 1, 0}}));       // star
        l.push_back(abstractMesh(4, {{2, 3}, {0, 2}, {1, 2}}, {{2, 2}}));                         // star with the hub as neighbour and owner
        l.push_back(abstractMesh(2, {}, {{0, 1}, {1}}));                                          // no internal faces
        l.push_back(abstractMesh(3, {{0, 1}, {1, 2}}, {}));                                       // no boundary
        l.push_back(line({0, 1, 2.5, 3, 5, 5.5, 8}));
        return l;
    }();
    return L;
}
inline MeshData skewed()
{
    MeshData m = grid({0, 1, 3}, {0, 2, 2.5});
    m.name = "skewed grid";
    m.closed = false;
    m.C[0] = Vector(0.6, 1.2, 0);
    m.C[3] = Vector(1.5, 2.4, 0);
    for (size_t f = 0; f < m.nInt; ++f) m.Cf[f] = add(m.Cf[f], Vector(0.1, -0.1, 0));
    m.points.clear();
    m.finish();
    return m;
}
// a scalar space function
struct Affine
{
    double a;
    Vector g;
    double operator()(const Vector& x) const { return a + dot(g, x); }
};
}
