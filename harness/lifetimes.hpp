// Histories of meshes that come into being, are copied, moved and destroyed, in two fixed places.
#pragma once
#include "fv.hpp"
#include <optional>
using namespace fv;

// request(mesh, its data, what) asks the mesh for something it caches and checks the answer
template<typename F>
void meshLifetimes(const std::vector<MeshData>& kinds, int depth, F&& request)
{
    int e = choose(3, "executor");
    kk::begin(kk::Forward);
    std::optional<UnstructuredMesh> slot[2];
    int kind[2] = {-1, -1};
    std::string hist;
    for (int k = 0; k < depth; ++k)
    {
        int s = choose(2, "place"), op = choose(5, "event");
        switch (op)
        {
        case 0: // a mesh is made
        {
            if (slot[s]) mc::prune();
            kind[s] = choose(int(kinds.size()), "mesh");
            hist += mc::cat(" make ", kind[s], " in ", s, ";");
            slot[s].emplace(kinds[size_t(kind[s])].make(execOf(e)));
            break;
        }
        case 1: // copied to the other place
            if (!slot[s] || slot[1 - s]) mc::prune();
            hist += mc::cat(" copy ", s, " to ", 1 - s, ";");
            slot[1 - s].emplace(*slot[s]);
            kind[1 - s] = kind[s];
            break;
        case 2: // moved to the other place, the source is gone
            if (!slot[s] || slot[1 - s]) mc::prune();
            hist += mc::cat(" move ", s, " to ", 1 - s, ";");
            slot[1 - s].emplace(std::move(*slot[s]));
            slot[s].reset();
            kind[1 - s] = kind[s];
            break;
        case 3:
            if (!slot[s]) mc::prune();
            hist += mc::cat(" destroy ", s, ";");
            slot[s].reset();
            break;
        default:
            if (!slot[s]) mc::prune();
            hist += mc::cat(" request ", s, ";");
            request(*slot[s], kinds[size_t(kind[s])], mc::cat("after", hist));
        }
        MC_STEP("history", hist);
    }
    for (int s = 0; s < 2; ++s)
        if (slot[s]) request(*slot[s], kinds[size_t(kind[s])], mc::cat("at the end of", hist));
    mc::noteState(hist);
}
