#include "kkh.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
using namespace kh;
using mc::choose;

namespace
{
template<typename T, typename I>
void verify(NeoFOAM::SegmentedField<T, I>& s, const std::vector<I>& len, const Executor& ex, const std::string& what)
{
    size_t n = len.size();
    std::vector<I> off(1, 0);
    for (auto l : len) off.push_back(static_cast<I>(off.back() + l));
    MC_CHECK(s.exec() == ex, "executor", what, ": reports another executor");
    MC_CHECK(s.numSegments() == n, "segments", what, ": numSegments() is ", s.numSegments());
    MC_CHECK(s.size() == size_t(off.back()), "size", what, ": size() is ", s.size(), ", expected ", +off.back());
    checkField(s.segments(), off, "offsets", what + ": offsets");
    checkHome(s.values(), what.c_str());
    MC_CHECK(s.values().size() == size_t(off.back()), "size", what, ": value storage holds ", s.values().size());
    auto v = s.view();
    auto [vals, segs] = s.spans();
    const auto& cs = s;
    MC_CHECK(v.values.data() == cs.values().data() && v.values.size() == cs.values().size() && v.segments.data() == cs.segments().data() && v.segments.size() == n + 1, "view", what, ": view() is not the stored data");
    MC_CHECK(vals.data() == v.values.data() && vals.size() == v.values.size() && segs.data() == v.segments.data() && segs.size() == v.segments.size(), "view", what, ": spans() is not the stored data");
    // read the segment descriptions where the data lives
    auto out = make<I>(ex, std::vector<I>(6 * n + 1, 77));
    auto base = make<label>(ex, std::vector<label>(n, -1));
    auto o = out.view();
    auto bs = base.view();
    NeoFOAM::parallelFor(ex, {0, n}, KOKKOS_LAMBDA(const size_t i) {
        auto [b, e] = v.bounds(i);
        auto [b2, l] = v.range(i);
        auto sp = v.span(i);
        o[6 * i] = b;
        o[6 * i + 1] = e;
        o[6 * i + 2] = b2;
        o[6 * i + 3] = l;
        o[6 * i + 4] = static_cast<I>(sp.size());
        o[6 * i + 5] = v[i];
        bs[i] = sp.size() ? label(sp.data() - v.values.data()) : -2;
        for (auto& x : sp) x = T(label(i) + 1);
    });
    auto got = val(out);
    auto gb = val(base);
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<I> want = {off[i], off[i + 1], off[i], len[i], len[i], off[i]};
        std::vector<I> g(got.begin() + long(6 * i), got.begin() + long(6 * i + 6));
        MC_CHECK(same(g, want), "segment", what, ": segment ", i, " reports bounds/range/size/offset ", show(g), ", expected ", show(want));
        MC_CHECK(gb[i] == (len[i] ? label(off[i]) : -2), "segment", what, ": span of segment ", i, " starts at ", gb[i]);
    }
    std::vector<T> want;
    for (size_t i = 0; i < n; ++i)
        for (I k = 0; k < len[i]; ++k) want.push_back(T(label(i) + 1));
    checkField(s.values(), want, "cover", what + ": writing through all segments");
}
template<typename I>
std::vector<I> pickLengths(int maxSeg, int maxLen)
{
    std::vector<I> r(size_t(choose(maxSeg + 1, "segments")));
    for (auto& l : r) l = static_cast<I>(choose(maxLen + 1, "length"));
    return r;
}
Pick pickAll(size_t n)
{
    int e = pickExec();
    kk::begin(kk::All);
    kk::allUpTo(n);
    return {e, execOf(e)};
}
template<typename T, typename I>
void intervals(int maxSeg, int maxLen, size_t all)
{
    auto len = pickLengths<I>(maxSeg, maxLen);
    auto p = pickAll(all);
    auto f = make<I>(p.exec, len);
    std::string what = mc::cat("segments of lengths ", show(len), " on ", EXEC[p.e]);
    MC_STEP(what);
    {
        NeoFOAM::SegmentedField<T, I> s(f);
        kk::setOrder(kk::Forward); // the schedules of the construction are explored, reading is order free
        verify(s, len, p.exec, what);
        NeoFOAM::SegmentedField<T, I> c(s);
        verify(c, len, p.exec, what + ", copied");
        MC_CHECK(len.empty() || c.view().segments.data() != s.view().segments.data(), "shared-storage", what, ": a copy shares its storage");
    }
    checkField(f, len, "input", what + ": lengths");
}
}
MC_SCENARIO(lengths, "all length vectors of up to 4 segments of lengths 0..2, 3 executors, all chunkings and chunk orders of both scan passes")
{
    intervals<scalar, localIdx>(mc::thorough() ? 5 : 4, 2, 4);
}
MC_SCENARIO(lengths_vector, "the same up to 3 segments, vector values and label offsets")
{
    intervals<Vector, label>(3, 3, 3);
}
MC_SCENARIO(long_lists, "5 to 9 segments with one long segment at every position, 3 executors, fixed chunkings")
{
    size_t n = size_t(5 + choose(5, "segments")), at = size_t(choose(int(n), "position"));
    std::vector<localIdx> len(n, 1);
    len[at] = localIdx(choose(2, "long") ? 300 : 0);
    auto p = pick();
    auto f = make<localIdx>(p.exec, len);
    NeoFOAM::SegmentedField<label, localIdx> s(f);
    verify(s, len, p.exec, mc::cat("segments of lengths ", show(len), " on ", EXEC[p.e]));
}
MC_SCENARIO(offsets_function, "segmentsFromIntervals on all length vectors up to 4 of 0..3, leading offset 0: offsets, returned total, untouched input; refused target sizes")
{
    auto len = pickLengths<localIdx>(mc::thorough() ? 4 : 3, 3);
    auto p = pickAll(3);
    auto f = make<localIdx>(p.exec, len);
    int extra = choose(3, "target size") - 1; // one short, right, one long
    std::vector<localIdx> zero(size_t(int(len.size()) + 1 + extra), 0);
    if (zero.empty()) mc::prune(); // needs a first entry
    auto off = make<localIdx>(p.exec, zero);
    std::string what = mc::cat("offsets of lengths ", show(len), " on ", EXEC[p.e]);
    MC_STEP(what);
    if (extra)
    {
        mc::expectAnyError("target-size", [&] { (void)NeoFOAM::segmentsFromIntervals(f, off); }, what + " into a target of wrong size");
        checkField(off, zero, "target-size", what + ": refused target");
        return;
    }
    auto total = NeoFOAM::segmentsFromIntervals(f, off);
    std::vector<localIdx> want(1, 0);
    for (auto l : len) want.push_back(want.back() + l);
    checkField(off, want, "offsets", what);
    MC_CHECK(total == want.back(), "total", what, ": total is ", total, ", expected ", want.back());
    checkField(f, len, "input", what + ": lengths");
}
MC_SCENARIO(from_parts, "construction from values and offsets, and from sizes; executors of values and offsets in all combinations (different ones refused)")
{
    kk::begin();
    int e = choose(3, "executor"), o = choose(3, "executor of the offsets");
    auto len = pickLengths<localIdx>(3, 2);
    std::vector<localIdx> off(1, 0);
    for (auto l : len) off.push_back(off.back() + l);
    std::vector<scalar> v;
    for (localIdx i = 0; i < off.back(); ++i) v.push_back(scalar(i) + 0.5);
    auto fv = make<scalar>(execOf(e), v);
    auto fo = make<localIdx>(execOf(o), off);
    if (e != o)
    {
        mc::expectAnyError("executors", [&] { NeoFOAM::SegmentedField<scalar, localIdx> s(fv, fo); }, "values and offsets on different executors");
        return;
    }
    NeoFOAM::SegmentedField<scalar, localIdx> s(fv, fo);
    checkField(s.values(), v, "values", "values of a segmented field");
    verify(s, len, execOf(e), "a segmented field from values and offsets");
    checkField(fv, v, "shared-storage", "the values it was built from");
    checkField(fo, off, "shared-storage", "the offsets it was built from");
    NeoFOAM::SegmentedField<scalar, localIdx> z(execOf(e), v.size(), len.size());
    MC_CHECK(z.size() == v.size() && z.numSegments() == len.size() && z.segments().size() == len.size() + 1 && z.exec() == execOf(e), "size", "a segmented field of given sizes reports others");
    checkHome(z.values(), "values");
    checkHome(z.segments(), "segments");
}
MC_SCENARIO(given_offsets, "values and offsets given by the caller: first offset 0..2, up to 3 segments of 0..2 entries, 0..3 values behind the last segment; every segment is its slice and nothing else")
{
    auto p = pick2();
    localIdx first = localIdx(choose(3, "first offset"));
    auto len = pickLengths<localIdx>(3, 2);
    size_t n = len.size(), behind = size_t(choose(4, "values behind"));
    std::vector<localIdx> off(1, first);
    for (auto l : len) off.push_back(off.back() + l);
    std::vector<label> v;
    for (size_t i = 0; i < off.back() + behind; ++i) v.push_back(label(i) - 50);
    auto fv = make<label>(p.exec, v);
    auto fo = make<localIdx>(p.exec, off);
    NeoFOAM::SegmentedField<label, localIdx> s(fv, fo);
    std::string what = mc::cat("offsets ", show(off), " over ", v.size(), " values on ", EXEC[p.e]);
    MC_STEP(what);
    MC_CHECK(s.numSegments() == n && s.size() == v.size(), "size", what, ": ", s.numSegments(), " segments, size ", s.size());
    auto view = s.view();
    auto out = make<label>(p.exec, std::vector<label>(7 * n + 1, -99));
    auto o = out.view();
    const label* base = view.values.data();
    NeoFOAM::parallelFor(p.exec, {0, n}, KOKKOS_LAMBDA(const size_t i) {
        auto [b, e] = view.bounds(i);
        auto [b2, l] = view.range(i);
        auto sp = view.span(i);
        o[7 * i] = label(b);
        o[7 * i + 1] = label(e);
        o[7 * i + 2] = label(b2);
        o[7 * i + 3] = label(l);
        o[7 * i + 4] = label(sp.size());
        o[7 * i + 5] = sp.size() ? label(sp.data() - base) : label(b);
        o[7 * i + 6] = label(view[i]);
        for (auto& x : sp) x = label(1000 + i);
    });
    kk::begin();
    auto got = val(out);
    auto want = v;
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<label> w = {label(off[i]), label(off[i + 1]), label(off[i]), label(len[i]), label(len[i]), label(off[i]), label(off[i])}, g(got.begin() + long(7 * i), got.begin() + long(7 * i + 7));
        MC_CHECK(same(g, w), "segment", what, ": segment ", i, " reports bounds/range/size/start/offset ", show(g), ", expected ", show(w));
        for (localIdx k = off[i]; k < off[i + 1]; ++k) want[k] = label(1000 + i);
    }
    checkField(s.values(), want, "cover", what + ": writing through all segments");
    checkField(s.segments(), off, "offsets", what + ": offsets");
}
MC_SCENARIO(large, "sizes around block lengths and index widths: as many segments of lengths 0..3 (cyclic), and one segment of that length between two short ones; executors x orders")
{
    size_t n = pickLarge(mc::thorough() ? size_t(-1) : 4097);
    auto p = pick2();
    std::vector<localIdx> len;
    if (choose(2, "one long")) len = {2, localIdx(n), 0, 1};
    else
        for (size_t i = 0; i < n; ++i) len.push_back(localIdx((i * i + i / 3) % 4));
    auto f = make<localIdx>(p.exec, len);
    MC_STEP(len.size(), " segments, ", n, " on ", EXEC[p.e]);
    NeoFOAM::SegmentedField<label, localIdx> s(f);
    kk::begin();
    auto off = val(s.segments());
    MC_CHECK(off.size() == len.size() + 1 && off[0] == 0, "offsets", "there are ", off.size(), " offsets for ", len.size(), " segments");
    for (size_t i = 0; i < len.size(); ++i) MC_CHECK(off[i + 1] - off[i] == len[i] && off[i + 1] >= off[i], "offsets", "segment ", i, " of ", len.size(), " has length ", off[i + 1] - off[i], ", requested ", len[i]);
    MC_CHECK(s.size() == off.back() && s.numSegments() == len.size(), "size", "the storage holds ", s.size(), " values for ", off.back());
}
