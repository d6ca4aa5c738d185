// Sparsity pattern and stencil with concurrently running iterations.
#include "structure.hpp"
#include "sched.hpp"
namespace
{
void run(int what)
{
    static const int M[] = {3, 5, 7, 8, 9};
    int mi = choose(5, "mesh"), e = 1 + choose(2, "executor");
    int k = choose(what ? 8 : 12, "concurrent kernel");
    const MeshData& d = meshList()[size_t(M[mi])];
    kk::begin(kk::Forward);
    auto m = d.make(execOf(e));
    mcs::delayBounded(true);
    mc::setDeviationBound(mc::thorough() ? 3 : 2);
    MC_STEP(d.name, " kernel ", k, " concurrent");
    kk::resetLaunches();
    kk::concurrentLaunch(size_t(k));
    if (what == 0)
    {
        fvcc::SparsityPattern sp(m);
        if (kk::launches() <= size_t(k)) mc::prune();
        kk::begin(kk::Forward);
        checkPattern(d, sp, "pattern built concurrently");
    }
    else
    {
        auto s = fvcc::CellToFaceStencil(m).computeStencil();
        if (kk::launches() <= size_t(k)) mc::prune();
        kk::begin(kk::Forward);
        checkStencil(d, s, "stencil built concurrently");
    }
}
}
MC_SCENARIO_ISOLATED(pattern_concurrent, "each kernel of the pattern run with one task per face (up to 8 tasks), all schedules with 2 deviations from running the tasks one after the other (3 thorough), race detection, 5 meshes") { run(0); }
MC_SCENARIO_ISOLATED(stencil_concurrent, "each kernel of the stencil run with one task per face, likewise") { run(1); }
