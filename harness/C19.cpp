// Generated meshes: closedness, topology, geometry; the mesh classes deliver what they were given.
#include "meshes.hpp"
using namespace mh;
using mc::choose;

namespace
{
struct H // a mesh read back to the host
{
    std::vector<Vector> points, C, Sf, Cf, bcf, bcn, bsf, bnf, bdelta;
    std::vector<scalar> V, magSf, bmag, bw, bdc;
    std::vector<label> own, nei, fc;
    std::vector<localIdx> off;
    H(const UnstructuredMesh& m)
        : points(val(m.points())), C(val(m.cellCentres())), Sf(val(m.faceAreas())), Cf(val(m.faceCentres())),
          bcf(val(m.boundaryMesh().cf())), bcn(val(m.boundaryMesh().cn())), bsf(val(m.boundaryMesh().sf())),
          bnf(val(m.boundaryMesh().nf())), bdelta(val(m.boundaryMesh().delta())), V(val(m.cellVolumes())),
          magSf(val(m.magFaceAreas())), bmag(val(m.boundaryMesh().magSf())), bw(val(m.boundaryMesh().weights())),
          bdc(val(m.boundaryMesh().deltaCoeffs())), own(val(m.faceOwner())), nei(val(m.faceNeighbour())),
          fc(val(m.boundaryMesh().faceCells())), off(m.boundaryMesh().offset())
    {}
};
bool eq(const Vector& a, const Vector& b) { return near(a, b); }
// everything of the mesh is on the executor it was asked for
void checkExec(const UnstructuredMesh& m, int e)
{
    auto on = [&](const auto& f, const char* n)
    {
        checkHome(f, n);
        MC_CHECK(indexOf(f.exec()) == e, "executor", n, " is on ", EXEC[indexOf(f.exec())], ", the mesh was made for ", EXEC[e]);
    };
    MC_CHECK(indexOf(m.exec()) == e, "executor", "the mesh reports ", EXEC[indexOf(m.exec())], ", made for ", EXEC[e]);
    const auto& b = m.boundaryMesh();
    on(m.points(), "points"), on(m.cellVolumes(), "cellVolumes"), on(m.cellCentres(), "cellCentres"), on(m.faceAreas(), "faceAreas");
    on(m.faceCentres(), "faceCentres"), on(m.magFaceAreas(), "magFaceAreas"), on(m.faceOwner(), "faceOwner"), on(m.faceNeighbour(), "faceNeighbour");
    on(b.faceCells(), "faceCells"), on(b.cf(), "cf"), on(b.cn(), "cn"), on(b.sf(), "sf"), on(b.magSf(), "magSf"), on(b.nf(), "nf"), on(b.delta(), "delta"), on(b.weights(), "weights"), on(b.deltaCoeffs(), "deltaCoeffs");
}
void checkPatchViews(const UnstructuredMesh& m)
{
    const auto& b = m.boundaryMesh();
    auto one = [&](const auto& whole, auto part, localIdx p, const char* n)
    {
        size_t s = b.offset()[p], e = b.offset()[p + 1];
        MC_CHECK(part.size() == e - s && (e == s || part.data() == whole.data() + s), "patch-view", n, " of patch ", p, " is not the slice [", s, ",", e, ") of the boundary");
    };
    for (localIdx p = 0; p + 1 < b.offset().size(); ++p)
    {
        one(b.faceCells(), b.faceCells(p), p, "faceCells"), one(b.cf(), b.cf(p), p, "cf"), one(b.cn(), b.cn(p), p, "cn"), one(b.sf(), b.sf(p), p, "sf");
        one(b.magSf(), b.magSf(p), p, "magSf"), one(b.nf(), b.nf(p), p, "nf"), one(b.delta(), b.delta(p), p, "delta"), one(b.weights(), b.weights(p), p, "weights");
        one(b.deltaCoeffs(), b.deltaCoeffs(p), p, "deltaCoeffs");
    }
}
void checkConsistent(const UnstructuredMesh& m, scalar volume, int dims)
{
    H h(m);
    size_t nc = m.nCells(), ni = m.nInternalFaces(), nb = m.nBoundaryFaces(), nf = m.nFaces(), np = m.nBoundaries();
    MC_CHECK(nf == ni + nb, "counts", nf, " faces, ", ni, " internal and ", nb, " boundary faces");
    MC_CHECK(h.V.size() == nc && h.C.size() == nc, "sizes", "cell data has ", h.V.size(), " and ", h.C.size(), " entries for ", nc, " cells");
    MC_CHECK(h.Sf.size() == nf && h.Cf.size() == nf && h.magSf.size() == nf && h.own.size() == nf && h.nei.size() == ni, "sizes", "face data has the wrong number of entries");
    MC_CHECK(h.fc.size() == nb && h.bcf.size() == nb && h.bcn.size() == nb && h.bsf.size() == nb && h.bnf.size() == nb && h.bdelta.size() == nb && h.bmag.size() == nb && h.bw.size() == nb && h.bdc.size() == nb, "sizes", "boundary data has the wrong number of entries");
    MC_CHECK(h.off.size() == np + 1 && h.off.front() == 0 && h.off.back() == nb, "patches", "the offsets ", show(h.off), " do not cover ", nb, " boundary faces in ", np, " patches");
    for (size_t p = 0; p < np; ++p) MC_CHECK(h.off[p] <= h.off[p + 1], "patches", "the offsets ", show(h.off), " decrease");
    for (size_t f = 0; f < nf; ++f)
    {
        MC_CHECK(h.own[f] >= 0 && size_t(h.own[f]) < nc, "owner", "face ", f, " has owner ", h.own[f]);
        if (f < ni) MC_CHECK(size_t(h.nei[f]) < nc && h.own[f] < h.nei[f], "owner-neighbour", "internal face ", f, " has owner ", h.own[f], " and neighbour ", h.nei[f]);
        MC_CHECK(near(h.magSf[f], norm(h.Sf[f])) && h.magSf[f] > 0, "magnitude", "face ", f, ": area vector ", show(h.Sf[f]), " but magnitude ", h.magSf[f]);
    }
    std::vector<Vector> sum(nc, Vector(0, 0, 0));
    std::vector<scalar> vol(nc, 0);
    std::vector<Vector> volDir(nc, Vector(0, 0, 0));
    std::vector<int> faces(nc, 0);
    auto side = [&](size_t c, size_t f, scalar s)
    {
        faces[c]++;
        for (size_t k = 0; k < 3; ++k)
        {
            sum[c][k] += s * h.Sf[f][k];
            volDir[c][k] += s * h.Sf[f][k] * h.Cf[f][k];
        }
        // the area vector points out of the cell
        MC_CHECK(s * dot(h.Sf[f], sub(h.Cf[f], h.C[c])) > 0, "orientation", "face ", f, " with area ", show(h.Sf[f]), " at ", show(h.Cf[f]), " does not point out of cell ", c, " at ", show(h.C[c]));
    };
    for (size_t f = 0; f < nf; ++f)
    {
        side(size_t(h.own[f]), f, 1);
        if (f < ni) side(size_t(h.nei[f]), f, -1);
    }
    scalar total = 0;
    for (size_t c = 0; c < nc; ++c)
    {
        MC_CHECK(norm(sum[c]) < 1e-12, "closed", "cell ", c, ": the face areas sum to ", show(sum[c]));
        MC_CHECK(h.V[c] > 0, "volume", "cell ", c, " has volume ", h.V[c]);
        for (int k = 0; k < dims; ++k) MC_CHECK(near(volDir[c][size_t(k)], h.V[c]), "volume", "cell ", c, " has volume ", h.V[c], " but its faces enclose ", volDir[c][size_t(k)]);
        MC_CHECK(faces[c] == 2 * dims, "faces", "cell ", c, " has ", faces[c], " faces");
        total += h.V[c];
    }
    MC_CHECK(near(total, volume), "volume", "the volumes add up to ", total, ", the domain has ", volume);
    for (size_t b = 0; b < nb; ++b)
    {
        size_t f = ni + b, c = size_t(h.own[f]);
        MC_CHECK(size_t(h.fc[b]) == c, "boundary-cell", "boundary face ", b, " names cell ", h.fc[b], ", the mesh says ", c);
        MC_CHECK(eq(h.bcf[b], h.Cf[f]), "boundary-centre", "boundary face ", b, " is at ", show(h.bcf[b]), ", the mesh says ", show(h.Cf[f]));
        MC_CHECK(eq(h.bsf[b], h.Sf[f]), "boundary-area", "boundary face ", b, " has area ", show(h.bsf[b]), ", the mesh says ", show(h.Sf[f]));
        MC_CHECK(near(h.bmag[b], h.magSf[f]), "boundary-area", "boundary face ", b, " has magnitude ", h.bmag[b], ", the mesh says ", h.magSf[f]);
        MC_CHECK(eq(h.bcn[b], h.C[c]), "boundary-cell-centre", "boundary face ", b, ": cell centre ", show(h.bcn[b]), ", the mesh says ", show(h.C[c]));
        MC_CHECK(eq(h.bnf[b], times(1 / norm(h.bsf[b]), h.bsf[b])), "boundary-normal", "boundary face ", b, ": normal ", show(h.bnf[b]), " for area ", show(h.bsf[b]));
        MC_CHECK(eq(h.bdelta[b], sub(h.Cf[f], h.C[c])), "boundary-delta", "boundary face ", b, ": delta ", show(h.bdelta[b]), ", face minus cell is ", show(sub(h.Cf[f], h.C[c])));
        MC_CHECK(near(h.bdc[b] * norm(h.bdelta[b]), 1), "boundary-deltaCoeffs", "boundary face ", b, ": delta coefficient ", h.bdc[b], " for the distance ", norm(h.bdelta[b]));
        MC_CHECK(near(h.bw[b], 1), "boundary-weights", "boundary face ", b, ": weight ", h.bw[b]);
    }
    checkPatchViews(m);
    if (nc > 100) mc::noteState(mc::cat("cells ", nc));
    else mc::noteState(mc::cat(show(h.C), show(h.Cf), show(h.own), show(h.nei)));
}
void uniform(size_t n)
{
    int e = pickExec();
    if (e == 0) kk::begin(kk::Forward);
    else if (n <= (mc::thorough() ? 3u : 2u)) kk::allUpTo(mc::thorough() ? 3 : 2), kk::begin(kk::All);
    else pickOrder(e);
    MC_STEP("uniform mesh of ", n, " cells on ", EXEC[e]);
    std::size_t before = kk::liveBlocks();
    {
        UnstructuredMesh m = NeoFOAM::create1DUniformMesh(execOf(e), n);
        kk::begin(kk::Forward);
        MC_CHECK(m.nCells() == n && m.nInternalFaces() == n - 1 && m.nBoundaryFaces() == 2 && m.nBoundaries() == 2, "counts", "uniform mesh of ", n, " cells: ", m.nCells(), " cells, ", m.nInternalFaces(), " internal and ", m.nBoundaryFaces(), " boundary faces, ", m.nBoundaries(), " patches");
        checkExec(m, e);
        checkConsistent(m, 1, 1);
        H h(m);
        for (size_t c = 0; c < n; ++c)
        {
            MC_CHECK(near(h.V[c], 1.0 / double(n)), "uniform", "cell ", c, " of ", n, " has volume ", h.V[c]);
            MC_CHECK(eq(h.C[c], Vector((double(c) + 0.5) / double(n), 0, 0)), "uniform", "cell ", c, " of ", n, " is at ", show(h.C[c]));
        }
        for (size_t f = 0; f + 1 < n; ++f) // halfway between its cells
            MC_CHECK(eq(h.Cf[f], times(0.5, add(h.C[size_t(h.own[f])], h.C[size_t(h.nei[f])]))), "uniform", "internal face ", f, " is at ", show(h.Cf[f]));
        MC_CHECK(eq(h.bcf[0], Vector(0, 0, 0)) && eq(h.bcf[1], Vector(1, 0, 0)), "uniform", "the boundary faces are at ", show(h.bcf));
        MC_CHECK(h.points.size() == n + 1, "points", "there are ", h.points.size(), " points");
        if (n > 100) // every position once: sorted they are the sequence
        {
            std::vector<scalar> xs;
            for (auto& q : h.points)
            {
                MC_CHECK(q[1] == 0 && q[2] == 0, "points", "there is a point at ", show(q));
                xs.push_back(q[0]);
            }
            std::sort(xs.begin(), xs.end());
            for (size_t p = 0; p <= n; ++p) MC_CHECK(std::abs(xs[p] - double(p) / double(n)) < 1e-3 / double(n), "points", "the position ", p, "/", n, " is missing among the points");
        }
        else for (size_t p = 0; p <= n; ++p)
        {
            size_t hits = 0;
            for (auto& q : h.points) hits += eq(q, Vector(double(p) / double(n), 0, 0));
            MC_CHECK(hits == 1, "points", "the position ", p, "/", n, " occurs ", hits, " times among the points");
        }
        // copies are meshes of their own
        UnstructuredMesh c(m);
        checkExec(c, e);
        checkConsistent(c, 1, 1);
        MC_CHECK(kk::blockOf(c.cellCentres().data()) != kk::blockOf(m.cellCentres().data()) && kk::blockOf(c.boundaryMesh().cf().data()) != kk::blockOf(m.boundaryMesh().cf().data()), "copy", "a copied mesh shares data with its source");
    }
    MC_CHECK(kk::liveBlocks() == before, "leak", kk::liveBlocks() - before, " blocks left");
}
}
MC_SCENARIO(uniform_mesh, "1D uniform mesh with 1..24 cells (100 thorough) x executors x orders (every permutation of each kernel up to 2 cells, 3 thorough)")
{
    uniform(1 + size_t(choose(mc::thorough() ? 100 : 24, "cells")));
}
MC_SCENARIO(uniform_large, "1D uniform meshes of 34 sizes around block lengths and index widths (7..65537; thorough also every size up to 300)")
{
    uniform(mc::thorough() && choose(2, "every size") ? 1 + size_t(choose(300, "cells")) : pickLarge());
}
MC_SCENARIO(single_cell, "the single cell mesh on every executor and order")
{
    auto p = pick();
    UnstructuredMesh m = NeoFOAM::createSingleCellMesh(p.exec);
    MC_STEP("single cell mesh on ", EXEC[p.e]);
    MC_CHECK(m.nCells() == 1 && m.nInternalFaces() == 0 && m.nBoundaryFaces() == 4 && m.nBoundaries() == 4 && m.nFaces() == 4, "counts", "the single cell mesh has ", m.nCells(), " cells, ", m.nFaces(), " faces, ", m.nBoundaries(), " patches");
    checkExec(m, p.e);
    checkConsistent(m, 1, 2);
    H h(m);
    static const double N[4][2] = {{-1, 0}, {0, 1}, {1, 0}, {0, -1}};
    for (size_t b = 0; b < 4; ++b) MC_CHECK(eq(h.bnf[b], Vector(N[b][0], N[b][1], 0)) && h.off[b] == b, "patches", "patch ", b, " (left, top, right, bottom) has the normal ", show(h.bnf[b]));
    MC_CHECK(h.points.size() == 4, "points", "there are ", h.points.size(), " points");
}
MC_SCENARIO(given_data, "the mesh classes deliver exactly the data they were given: grids 1..3 x 1..3 with merged and empty patches, graphs; executors")
{
    auto p = pick2();
    int k = choose(3, "kind");
    MeshData d;
    if (k == 0)
    {
        static const std::vector<std::vector<int>> P = {{0, 1, 2, 3}, {0, 0, 1, 1}, {1, 0, 1, 2}, {0, 0, 0, 0}, {0, 2, 3, 4}};
        std::vector<scalar> xs {0}, ys {0};
        for (int n = 1 + choose(3, "nx"); n > 0; --n) xs.push_back(xs.back() + n * 0.5);
        for (int n = 1 + choose(3, "ny"); n > 0; --n) ys.push_back(ys.back() + n * 0.75);
        d = grid(xs, ys, P[size_t(choose(5, "patches"))]);
    }
    else
    {
        std::vector<std::vector<int>> patches(size_t(choose(4, "patches")));
        for (auto& q : patches)
            for (int n = choose(3, "faces"); n > 0; --n) q.push_back(n % 2);
        d = k == 1 ? abstractMesh(2, {{0, 1}}, patches) : abstractMesh(3, {}, patches);
    }
    // every array gets content of its own
    scalar s = 1000;
    for (auto& v : d.magSf) v = (s += 1);
    for (auto& v : d.bcn) v = Vector(s += 1, 1, 0);
    for (auto& v : d.bnf) v = Vector(s += 1, 2, 0);
    for (auto& v : d.bdelta) v = Vector(s += 1, 3, 0);
    for (auto& v : d.bw) v = (s += 1);
    for (auto& v : d.bdc) v = (s += 1);
    for (auto& v : d.faceCells) v = label(s += 1);
    MC_STEP(d.name, " with patches ", show(d.off), " on ", EXEC[p.e]);
    UnstructuredMesh m0 = d.make(p.exec);
    bool copy = choose(2, "copy");
    UnstructuredMesh m = copy ? UnstructuredMesh(m0) : std::move(m0);
    checkExec(m, p.e);
    H h(m);
    auto is = [&](const auto& a, const auto& b, const char* n) { MC_CHECK(same(a, b), "accessor", n, " is ", show(a), ", given ", show(b)); };
    is(h.points, d.points, "points"), is(h.C, d.C, "cellCentres"), is(h.V, d.V, "cellVolumes"), is(h.Sf, d.Sf, "faceAreas"), is(h.Cf, d.Cf, "faceCentres");
    is(h.magSf, d.magSf, "magFaceAreas"), is(h.own, d.own, "faceOwner"), is(h.nei, d.nei, "faceNeighbour");
    is(h.fc, d.faceCells, "boundary faceCells"), is(h.bcf, d.bnd(d.Cf), "boundary cf"), is(h.bcn, d.bcn, "boundary cn"), is(h.bsf, d.bnd(d.Sf), "boundary sf"), is(h.bmag, d.bnd(d.magSf), "boundary magSf");
    is(h.bnf, d.bnf, "boundary nf"), is(h.bdelta, d.bdelta, "boundary delta"), is(h.bw, d.bw, "boundary weights"), is(h.bdc, d.bdc, "boundary deltaCoeffs"), is(h.off, d.off, "boundary offsets");
    MC_CHECK(m.nCells() == d.nCells() && m.nInternalFaces() == d.nInt && m.nBoundaryFaces() == d.nB() && m.nBoundaries() == d.nPatches() && m.nFaces() == d.nFaces(), "counts", "the mesh reports ", m.nCells(), " cells ", m.nInternalFaces(), " internal ", m.nBoundaryFaces(), " boundary ", m.nBoundaries(), " patches ", m.nFaces(), " faces");
    checkPatchViews(m);
    mc::noteState(mc::cat(d.name, show(d.off)));
}
