#pragma once
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include <set>
using namespace fv;

inline void checkPattern(const MeshData& d, const fvcc::SparsityPattern& s, const std::string& w)
{
    size_t n = d.nCells();
    auto row = val(s.rowPtrs());
    auto col = val(s.colIdxs());
    auto toL = [](const auto& f) { auto v = val(f); return std::vector<size_t>(v.begin(), v.end()); };
    auto own = toL(s.ownerOffset()), nei = toL(s.neighbourOffset()), dia = toL(s.diagOffset());
    MC_CHECK(s.rows() == n && s.nnz() == n + 2 * d.nInt && row.size() == n + 1 && col.size() == n + 2 * d.nInt && dia.size() == n && own.size() == d.nInt && nei.size() == d.nInt, "sizes", w, ": ", s.rows(), " rows, ", s.nnz(), " entries for ", n, " cells and ", d.nInt, " internal faces");
    MC_CHECK(row[0] == 0 && row[n] == col.size(), "rows", w, ": rows start at ", show(row), " for ", col.size(), " entries");
    std::vector<std::set<size_t>> adj(n);
    for (size_t c = 0; c < n; ++c) adj[c].insert(c);
    for (size_t f = 0; f < d.nInt; ++f)
    {
        adj[size_t(d.own[f])].insert(size_t(d.nei[f]));
        adj[size_t(d.nei[f])].insert(size_t(d.own[f]));
    }
    for (size_t c = 0; c < n; ++c)
    {
        MC_CHECK(row[c] <= row[c + 1] && row[c + 1] - row[c] == adj[c].size(), "rows", w, ": row ", c, " has ", row[c + 1] - row[c], " entries, expected ", adj[c].size());
        std::set<size_t> cols(col.begin() + row[c], col.begin() + row[c + 1]);
        MC_CHECK(cols == adj[c], "columns", w, ": row ", c, " lists the columns ", show(std::vector<localIdx>(col.begin() + row[c], col.begin() + row[c + 1])), ", its cell has the neighbours and itself ", show(std::vector<size_t>(adj[c].begin(), adj[c].end())));
        MC_CHECK(dia[c] < adj[c].size() && col[row[c] + dia[c]] == c, "diagonal", w, ": the diagonal of row ", c, " is addressed at offset ", dia[c], " of ", adj[c].size());
    }
    // every face addresses the two entries it couples; no two addresses coincide
    std::set<size_t> used;
    for (size_t c = 0; c < n; ++c) used.insert(row[c] + dia[c]);
    for (size_t f = 0; f < d.nInt; ++f)
    {
        size_t o = size_t(d.own[f]), k = size_t(d.nei[f]);
        MC_CHECK(nei[f] < adj[k].size() && col[row[k] + nei[f]] == o, "face-address", w, ": face ", f, " (", o, ",", k, ") addresses offset ", nei[f], " of row ", k, ", which is not column ", o);
        MC_CHECK(own[f] < adj[o].size() && col[row[o] + own[f]] == k, "face-address", w, ": face ", f, " (", o, ",", k, ") addresses offset ", own[f], " of row ", o, ", which is not column ", k);
        MC_CHECK(used.insert(row[k] + nei[f]).second && used.insert(row[o] + own[f]).second, "collision", w, ": face ", f, " shares a matrix entry");
    }
    MC_CHECK(used.size() == col.size(), "collision", w, ": ", col.size() - used.size(), " entries belong to no face or cell");
    mc::noteState(show(row) + show(col));
}
inline void checkStencil(const MeshData& d, const NeoFOAM::SegmentedField<localIdx, localIdx>& s, const std::string& w)
{
    std::vector<std::multiset<size_t>> want(d.nCells());
    for (size_t f = 0; f < d.nFaces(); ++f)
    {
        want[size_t(d.own[f])].insert(f);
        if (f < d.nInt) want[size_t(d.nei[f])].insert(f);
    }
    auto v = val(s.values());
    auto seg = val(s.segments());
    MC_CHECK(seg.size() == d.nCells() + 1 && s.numSegments() == d.nCells() && seg[0] == 0 && seg.back() == v.size(), "stencil-size", w, ": segments ", show(seg), " of ", v.size(), " values for ", d.nCells(), " cells");
    for (size_t c = 0; c < d.nCells(); ++c)
    {
        MC_CHECK(seg[c] <= seg[c + 1], "stencil-size", w, ": segments ", show(seg));
        std::multiset<size_t> got(v.begin() + seg[c], v.begin() + seg[c + 1]);
        MC_CHECK(got == want[c], "stencil", w, ": cell ", c, " lists the faces ", show(std::vector<size_t>(got.begin(), got.end())), ", it has ", show(std::vector<size_t>(want[c].begin(), want[c].end())));
    }
    mc::noteState(show(v) + show(seg));
}
