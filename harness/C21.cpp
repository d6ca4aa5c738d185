// Sparsity pattern and cell-to-face stencil for every small connectivity and processing order.
#include "structure.hpp"
#include "lifetimes.hpp"

namespace
{
// connectivities: every simple graph on 1..4 cells with its faces in a few numberings
MeshData pickGraph(int maxCells)
{
    int n = 1 + choose(maxCells, "cells");
    std::vector<std::pair<int, int>> e;
    for (int a = 0; a < n; ++a)
        for (int b = a + 1; b < n; ++b)
            if (choose(2, "adjacent")) e.push_back({a, b});
    switch (e.size() > 1 ? choose(4, "face numbering") : 0)
    {
    case 1: std::reverse(e.begin(), e.end()); break;
    case 2: std::rotate(e.begin(), e.begin() + 1, e.end()); break;
    case 3: std::swap(e.front(), e.back()), std::rotate(e.begin(), e.begin() + long(e.size() / 2), e.end()); break;
    default: break;
    }
    static const std::vector<std::vector<std::vector<int>>> P = {{}, {{0}}, {{0, 0}, {}, {1, 0}}, {{3, 2, 1, 0}, {0, 1, 2, 3}}};
    auto p = P[size_t(choose(4, "boundary"))];
    for (auto& q : p)
        for (auto& c : q) c %= n;
    return abstractMesh(size_t(n), e, p);
}
}
MC_SCENARIO(sparsity_graphs, "every graph on up to 4 cells (5 thorough), four face numberings, four boundary layouts x executors x fixed orders: the matrix structure")
{
    MeshData d = pickGraph(mc::thorough() ? 5 : 4);
    auto p = mc::thorough() ? pick() : pick2();
    auto m = d.make(p.exec);
    MC_STEP(d.name, " with faces ", show(d.own), show(d.nei));
    fvcc::SparsityPattern sp(m);
    checkPattern(d, sp, "new pattern");
    sp.update();
    checkPattern(d, sp, "pattern after another update");
}
MC_SCENARIO(stencil_graphs, "the same connectivities: the cell to face stencil")
{
    MeshData d = pickGraph(mc::thorough() ? 5 : 4);
    auto p = mc::thorough() ? pick() : pick2();
    auto m = d.make(p.exec);
    MC_STEP(d.name, " with faces ", show(d.own), show(d.nei), " boundary ", show(d.faceCells));
    checkStencil(d, fvcc::CellToFaceStencil(m).computeStencil(), "stencil");
}
MC_SCENARIO(kernel_orders, "the order of each single kernel chosen independently (up to 2 kernels differ from ascending, 3 thorough) on 5 meshes")
{
    static const int M[] = {3, 5, 7, 8, 9};
    const MeshData& d = meshList()[size_t(M[choose(5, "mesh")])];
    int e = 1 + choose(2, "executor"), what = choose(2, "structure");
    kk::begin(kk::Forward);
    auto m = d.make(execOf(e));
    mc::setDeviationBound(mc::thorough() ? 3 : 2);
    kk::perKernel(true);
    MC_STEP(d.name, " structure ", what);
    if (what == 0)
    {
        fvcc::SparsityPattern sp(m);
        kk::begin(kk::Forward);
        checkPattern(d, sp, "pattern");
    }
    else
    {
        auto s = fvcc::CellToFaceStencil(m).computeStencil();
        kk::begin(kk::Forward);
        checkStencil(d, s, "stencil");
    }
}
MC_SCENARIO(all_permutations, "every permutation of every kernel of up to 3 iterations, on the meshes of up to 3 faces, face loops only (larger kernels run in the fixed orders)")
{
    int k = choose(3, "mesh"), what = choose(2, "structure");
    MeshData d = k == 0 ? abstractMesh(2, {{0, 1}}, {{0, 1}}) : k == 1 ? abstractMesh(4, {{0, 3}, {0, 1}, {0, 2}}, {{0}}) : abstractMesh(4, {{2, 3}, {0, 2}, {1, 2}}, {});
    kk::begin(kk::Forward);
    auto m = d.make(execOf(1 + choose(2, "executor")));
    MC_STEP(d.name, " structure ", what);
    if (what == 0)
    {
        fvcc::SparsityPattern sp(m);
        kk::begin(kk::All);
        kk::allUpTo(k == 0 ? 2 : 3);
        if (k) kk::fixedBeyond(true);
        sp.update();
        kk::begin(kk::Forward);
        checkPattern(d, sp, "pattern");
    }
    else
    {
        kk::begin(kk::All);
        kk::allUpTo(k == 0 ? 2 : 3);
        if (k) kk::fixedBeyond(true);
        auto s = fvcc::CellToFaceStencil(m).computeStencil();
        kk::begin(kk::Forward);
        checkStencil(d, s, "stencil");
    }
}
MC_SCENARIO(wide_cells, "stars: one cell with 1..8, 60, 126..130, 253..260 and 600 neighbours, hub as owner, as neighbour and in the middle; hub with as many boundary faces")
{
    static const int N[] = {1, 2, 3, 4, 5, 6, 7, 8, 60, 126, 127, 128, 129, 130, 253, 254, 255, 256, 257, 258, 259, 260, 600};
    int n = N[choose(23, "neighbours")], hub = choose(3, "hub"), bnd = choose(2, "boundary faces on the hub");
    int e = choose(3, "executor");
    kk::begin(e && choose(2, "order") ? kk::Reverse : kk::Forward);
    int h = hub == 0 ? 0 : hub == 1 ? n : n / 2;
    std::vector<std::pair<int, int>> ed;
    for (int i = 0; i <= n; ++i)
        if (i != h) ed.push_back({h, i});
    std::vector<int> b(bnd ? size_t(n) : 0, h);
    MeshData d = abstractMesh(size_t(n) + 1, ed, {b});
    auto m = d.make(execOf(e));
    MC_STEP("star of ", n, " neighbours, hub ", h, " with ", b.size(), " boundary faces on ", EXEC[e]);
    checkPattern(d, fvcc::SparsityPattern(m), mc::cat("pattern of a cell with ", n, " neighbours"));
    checkStencil(d, fvcc::CellToFaceStencil(m).computeStencil(), mc::cat("stencil of a cell with ", n, " neighbours"));
}
MC_SCENARIO(cached, "two meshes, histories of 1..4 requests, each mesh keeps one pattern of its own; linear systems made from it refer to its structure")
{
    auto p = pick2();
    const MeshData* d[2] = {&meshList()[7], &meshList()[5]};
    UnstructuredMesh m[2] = {d[0]->make(p.exec), d[1]->make(p.exec)};
    const fvcc::SparsityPattern* seen[2] = {nullptr, nullptr};
    std::weak_ptr<fvcc::SparsityPattern> keep[2];
    for (int n = 1 + choose(4, "requests"); n > 0; --n)
    {
        int k = choose(2, "mesh");
        MC_STEP("request for mesh ", k);
        auto s = fvcc::SparsityPattern::readOrCreate(m[k]);
        MC_CHECK(s != nullptr && &s->mesh() == &m[k], "cached", "the pattern of mesh ", k, " refers to another mesh");
        MC_CHECK(!seen[k] || seen[k] == s.get(), "cached", "the pattern of mesh ", k, " was created again");
        MC_CHECK(s.get() != seen[1 - k], "cached", "two meshes share a pattern");
        seen[k] = s.get();
        keep[k] = s;
        checkPattern(*d[k], *s, "cached pattern");
    }
    for (int k = 0; k < 2; ++k) MC_CHECK(!seen[k] || !keep[k].expired(), "cached", "the pattern of mesh ", k, " is not kept by the mesh");
}
MC_SCENARIO(lifetimes, "all histories of up to 5 (6 thorough) events over two places where meshes of equal sizes and different connectivity are made, copied, moved, destroyed and asked for their pattern: it is the one of that mesh, and one only")
{
    std::vector<MeshData> kinds = {abstractMesh(4, {{0, 1}, {1, 2}, {2, 3}}, {{0}}), abstractMesh(4, {{0, 3}, {1, 3}, {2, 3}}, {{0}})};
    meshLifetimes(kinds, mc::thorough() ? 6 : 5, [](const UnstructuredMesh& m, const MeshData& d, const std::string& what)
    {
        auto s = fvcc::SparsityPattern::readOrCreate(m);
        MC_CHECK(s && &s->mesh() == &m, "cached", what, ": the pattern handed out refers to another mesh");
        checkPattern(d, *s, what);
        MC_CHECK(s == fvcc::SparsityPattern::readOrCreate(m), "cached", what, ": the pattern is created twice");
        s->update();
        checkPattern(d, *s, what + ", updated");
        checkStencil(d, fvcc::CellToFaceStencil(m).computeStencil(), what);
    });
}
