// Meshes as plain host data (the reference geometry of the models) and their conversion to the
// library's UnstructuredMesh on any executor.
#pragma once
#include "kkh.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include <cmath>
#include <numeric>

namespace mh
{
using namespace kh;
using NeoFOAM::UnstructuredMesh;
using NeoFOAM::BoundaryMesh;
using std::size_t;

struct MeshData
{
    std::string name;
    std::vector<Vector> points, C, Sf, Cf;
    std::vector<scalar> V, magSf;
    std::vector<label> own, nei;
    size_t nInt = 0;
    std::vector<localIdx> off {0};
    std::vector<label> faceCells;
    std::vector<Vector> bcn, bnf, bdelta;
    std::vector<scalar> bw, bdc;
    bool closed = false; // geometry is that of a real mesh
    size_t nCells() const { return V.size(); }
    size_t nFaces() const { return own.size(); }
    size_t nB() const { return nFaces() - nInt; }
    size_t nPatches() const { return off.size() - 1; }
    size_t patchOf(size_t bf) const
    {
        for (size_t p = 0; p < nPatches(); ++p)
            if (bf >= off[p] && bf < off[p + 1]) return p;
        return size_t(-1);
    }
    template<typename T>
    std::vector<T> bnd(const std::vector<T>& v) const
    {
        return {v.begin() + long(nInt), v.end()};
    }
    void finish()
    {
        bcn.clear(), bnf.clear(), bdelta.clear(), bw.clear(), bdc.clear(), faceCells.clear(), magSf.clear();
        for (auto& s : Sf) magSf.push_back(std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]));
        for (size_t f = nInt; f < nFaces(); ++f)
        {
            label c = own[f];
            faceCells.push_back(c);
            bcn.push_back(C[size_t(c)]);
            bnf.push_back(Vector(Sf[f][0] / magSf[f], Sf[f][1] / magSf[f], Sf[f][2] / magSf[f]));
            Vector d(Cf[f][0] - C[size_t(c)][0], Cf[f][1] - C[size_t(c)][1], Cf[f][2] - C[size_t(c)][2]);
            bdelta.push_back(d);
            bw.push_back(1.0);
            // the distance along the face normal, as the geometry scheme takes it
            double len = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), along = bnf.back()[0] * d[0] + bnf.back()[1] * d[1] + bnf.back()[2] * d[2];
            bdc.push_back(1.0 / std::max(along, 0.05 * len));
        }
        if (points.empty()) points = Cf;
    }
    UnstructuredMesh make(const Executor& ex) const
    {
        BoundaryMesh bm(
            ex, kh::make(ex, faceCells), kh::make(ex, bnd(Cf)), kh::make(ex, bcn), kh::make(ex, bnd(Sf)),
            kh::make(ex, bnd(magSf)), kh::make(ex, bnf), kh::make(ex, bdelta), kh::make(ex, bw), kh::make(ex, bdc), off
        );
        return UnstructuredMesh(
            kh::make(ex, points), kh::make(ex, V), kh::make(ex, C), kh::make(ex, Sf), kh::make(ex, Cf),
            kh::make(ex, magSf), kh::make(ex, own), kh::make(ex, nei), nCells(), nInt, nB(), nPatches(), nFaces(), bm
        );
    }
};

// quads spanned by the coordinates xs and ys, unit depth; patches left, right, bottom, top,
// merged as told: patchOf[side] gives the patch number of the side (contiguous from 0)
inline MeshData grid(std::vector<scalar> xs, std::vector<scalar> ys, std::vector<int> patchOf = {0, 1, 2, 3}, scalar depth = 1)
{
    MeshData m;
    m.closed = true;
    size_t nx = xs.size() - 1, ny = ys.size() - 1;
    m.name = mc::cat("grid ", nx, "x", ny);
    auto id = [&](size_t i, size_t j) { return label(j * nx + i); };
    for (auto y : ys)
        for (auto x : xs) m.points.push_back(Vector(x, y, 0));
    for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < nx; ++i)
        {
            m.V.push_back((xs[i + 1] - xs[i]) * (ys[j + 1] - ys[j]) * depth);
            m.C.push_back(Vector(0.5 * (xs[i] + xs[i + 1]), 0.5 * (ys[j] + ys[j + 1]), 0));
        }
    for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < nx; ++i)
        {
            if (i + 1 < nx)
            {
                m.own.push_back(id(i, j)), m.nei.push_back(id(i + 1, j));
                m.Sf.push_back(Vector((ys[j + 1] - ys[j]) * depth, 0, 0));
                m.Cf.push_back(Vector(xs[i + 1], 0.5 * (ys[j] + ys[j + 1]), 0));
            }
            if (j + 1 < ny)
            {
                m.own.push_back(id(i, j)), m.nei.push_back(id(i, j + 1));
                m.Sf.push_back(Vector(0, (xs[i + 1] - xs[i]) * depth, 0));
                m.Cf.push_back(Vector(0.5 * (xs[i] + xs[i + 1]), ys[j + 1], 0));
            }
        }
    m.nInt = m.own.size();
    int np = 1 + *std::max_element(patchOf.begin(), patchOf.end());
    for (int p = 0; p < np; ++p)
    {
        for (int s = 0; s < 4; ++s)
        {
            if (patchOf[size_t(s)] != p) continue;
            size_t n = s < 2 ? ny : nx;
            for (size_t k = 0; k < n; ++k)
            {
                size_t i = s == 0 ? 0 : s == 1 ? nx - 1 : k, j = s == 2 ? 0 : s == 3 ? ny - 1 : k;
                m.own.push_back(id(i, j));
                scalar dx = xs[i + 1] - xs[i], dy = ys[j + 1] - ys[j], cx = 0.5 * (xs[i] + xs[i + 1]), cy = 0.5 * (ys[j] + ys[j + 1]);
                if (s == 0) m.Sf.push_back(Vector(-dy * depth, 0, 0)), m.Cf.push_back(Vector(xs[0], cy, 0));
                if (s == 1) m.Sf.push_back(Vector(dy * depth, 0, 0)), m.Cf.push_back(Vector(xs[nx], cy, 0));
                if (s == 2) m.Sf.push_back(Vector(0, -dx * depth, 0)), m.Cf.push_back(Vector(cx, ys[0], 0));
                if (s == 3) m.Sf.push_back(Vector(0, dx * depth, 0)), m.Cf.push_back(Vector(cx, ys[ny], 0));
            }
        }
        m.off.push_back(localIdx(m.own.size() - m.nInt));
    }
    m.finish();
    return m;
}
// a row of cells: only the two ends are boundary (sideless 1D mesh)
inline MeshData line(std::vector<scalar> xs, bool swapPatches = false)
{
    MeshData m;
    m.closed = true;
    size_t n = xs.size() - 1;
    m.name = mc::cat("line ", n);
    for (auto x : xs) m.points.push_back(Vector(x, 0, 0));
    for (size_t i = 0; i < n; ++i) m.V.push_back(xs[i + 1] - xs[i]), m.C.push_back(Vector(0.5 * (xs[i] + xs[i + 1]), 0, 0));
    for (size_t i = 0; i + 1 < n; ++i)
    {
        m.own.push_back(label(i)), m.nei.push_back(label(i + 1));
        m.Sf.push_back(Vector(1, 0, 0)), m.Cf.push_back(Vector(xs[i + 1], 0, 0));
    }
    m.nInt = n - 1;
    for (int s = 0; s < 2; ++s)
    {
        bool left = (s == 0) != swapPatches;
        m.own.push_back(left ? 0 : label(n - 1));
        m.Sf.push_back(Vector(left ? -1 : 1, 0, 0));
        m.Cf.push_back(Vector(left ? xs[0] : xs[n], 0, 0));
        m.off.push_back(localIdx(s + 1));
    }
    m.finish();
    return m;
}
// any connectivity with made-up (positive, all different) geometry
inline MeshData abstractMesh(size_t nCells, const std::vector<std::pair<int, int>>& edges, const std::vector<std::vector<int>>& patches)
{
    MeshData m;
    m.name = mc::cat("graph of ", nCells, " cells");
    for (size_t i = 0; i < nCells; ++i) m.V.push_back(1.0 + 0.5 * scalar(i)), m.C.push_back(Vector(scalar(i) * 1.5, scalar(i * i) * 0.25, 0));
    auto face = [&](Vector cf)
    {
        scalar k = scalar(m.Sf.size() + 1);
        m.Sf.push_back(Vector(k, 0.5 * k, 0.25));
        m.Cf.push_back(cf);
    };
    for (auto [a, b] : edges)
    {
        m.own.push_back(label(std::min(a, b))), m.nei.push_back(label(std::max(a, b)));
        const Vector &A = m.C[size_t(std::min(a, b))], &B = m.C[size_t(std::max(a, b))];
        face(Vector(A[0] + 0.25 * (B[0] - A[0]), A[1] + 0.25 * (B[1] - A[1]), 0));
    }
    m.nInt = edges.size();
    for (auto& p : patches)
    {
        for (int c : p)
        {
            m.own.push_back(label(c));
            scalar k = 0.25 * scalar(m.own.size());
            face(Vector(m.C[size_t(c)][0] + k, m.C[size_t(c)][1] - 0.5, 0.5));
        }
        m.off.push_back(localIdx(m.own.size() - m.nInt));
    }
    m.finish();
    return m;
}
inline Vector times(double s, const Vector& v) { return Vector(s * v[0], s * v[1], s * v[2]); }
inline double dot(const Vector& a, const Vector& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline Vector sub(const Vector& a, const Vector& b) { return Vector(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
inline Vector add(const Vector& a, const Vector& b) { return Vector(a[0] + b[0], a[1] + b[1], a[2] + b[2]); }
inline double norm(const Vector& a) { return std::sqrt(dot(a, a)); }
// the same mesh with every length multiplied
inline MeshData scaled(MeshData m, double s)
{
    m.name = mc::cat(m.name, " x ", s);
    for (auto& p : m.points) p = times(s, p);
    for (auto& p : m.C) p = times(s, p);
    for (auto& p : m.Cf) p = times(s, p);
    for (auto& p : m.Sf) p = times(s * s, p);
    for (auto& v : m.V) v *= s * s * s;
    m.finish();
    return m;
}
inline bool near(double a, double b, double rel = 1e-11, double abs = 1e-11) { return std::isfinite(a) && std::isfinite(b) ? std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b)) : same(a, b); }
inline bool near(const Vector& a, const Vector& b) { return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]); }
template<typename T>
void checkNear(const std::vector<T>& got, const std::vector<T>& want, const char* sig, const std::string& what)
{
    MC_CHECK(got.size() == want.size(), sig, what, ": ", got.size(), " entries, expected ", want.size());
    for (size_t i = 0; i < got.size(); ++i) MC_CHECK(near(got[i], want[i]), sig, what, ": entry ", i, " is ", show(got[i]), ", expected ", show(want[i]), " in ", show(got), " / ", show(want));
    mc::noteState(show(got));
}
}
