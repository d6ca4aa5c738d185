#include "kkh.hpp"
#include <memory>
#include <optional>
using namespace kh;
using mc::choose;

namespace
{
template<typename T>
struct World
{
    static constexpr int S = 3;
    struct Slot
    {
        std::unique_ptr<Field<T>> f;
        int e = 0;
        std::vector<std::optional<T>> m;
    };
    Slot s[S];
    int next = 1;
    std::size_t before = kk::liveBlocks();
    T fresh()
    {
        int k = next++;
        if constexpr (std::is_same_v<T, Vector>) return Vector(k, -k, 100 + k);
        else return static_cast<T>(k);
    }
    void check(const std::string& what)
    {
        std::string state;
        std::size_t live = 0;
        for (int a = 0; a < S; ++a)
        {
            if (!s[a].f)
            {
                state += "-";
                continue;
            }
            const Field<T>& f = *s[a].f;
            std::string w = mc::cat("after ", what, ": field ", a);
            MC_CHECK(indexOf(f.exec()) == s[a].e, "executor", w, " reports executor ", EXEC[f.exec().index()], ", expected ", EXEC[s[a].e]);
            MC_CHECK(f.size() == s[a].m.size(), "size", w, " has size ", f.size(), ", expected ", s[a].m.size());
            MC_CHECK(f.ssize() == label(f.size()) && f.empty() == (f.size() == 0) && f.range() == (std::pair<size_t, size_t> {0, f.size()}), "size", w, ": size(), ssize(), empty() and range() disagree");
            MC_CHECK(s[a].f->data() == f.data() && f.view().data() == f.data() && f.view().size() == f.size() && s[a].f->view().data() == f.data() && s[a].f->view().size() == f.size(), "view", w, ": view() does not cover the storage");
            for (size_t b = 0; b <= f.size(); ++b)
                for (size_t e = b; e <= f.size(); ++e)
                {
                    auto v = f.view({b, e});
                    auto v2 = s[a].f->view({b, e});
                    MC_CHECK(v.size() == e - b && v2.size() == e - b && (e == b || (v.data() == f.data() + b && v2.data() == f.data() + b)), "view", w, ": view of [", b, ",", e, ") is wrong");
                }
            checkHome(f, w.c_str());
            std::size_t bytes = 0;
            if (f.data() && kk::blockOf(f.data(), &bytes)) ++live;
            auto v = val(f);
            state += mc::cat(EXEC[s[a].e][0], v.size(), ":");
            for (size_t i = 0; i < v.size(); ++i)
            {
                if (s[a].m[i]) MC_CHECK(same(v[i], *s[a].m[i]), "value", w, ": entry ", i, " is ", show(v[i]), ", expected ", show(*s[a].m[i]));
                state += s[a].m[i] ? show(v[i]) : "?";
            }
            for (int b = 0; b < a; ++b)
                if (s[b].f && f.data() && s[b].f->data()) MC_CHECK(kk::blockOf(f.data()) != kk::blockOf(s[b].f->data()), "shared-storage", w, " shares its storage with field ", b);
        }
        MC_CHECK(kk::liveBlocks() - before == live, "leak", "after ", what, ": ", kk::liveBlocks() - before, " blocks are allocated for ", live, " fields with storage");
        mc::noteState(state);
    }
    std::vector<T> values(size_t n)
    {
        std::vector<T> r;
        for (size_t i = 0; i < n; ++i) r.push_back(fresh());
        return r;
    }
    void set(int d, std::unique_ptr<Field<T>> f, int e, std::vector<std::optional<T>> m)
    {
        s[d].f = std::move(f);
        s[d].e = e;
        s[d].m = std::move(m);
    }
    static std::vector<std::optional<T>> opt(const std::vector<T>& v) { return {v.begin(), v.end()}; }
    void construct(int d, const std::string& tag)
    {
        int e = choose(3, "executor"), how = choose(4, "constructor");
        size_t n = size_t(choose(3, "size"));
        Executor ex = execOf(e);
        s[d].f.reset();
        std::string what = mc::cat(tag, "construction ", how, " of field ", d, " with ", n, " entries on ", EXEC[e]);
        MC_STEP(what);
        switch (how)
        {
        case 0:
            set(d, std::make_unique<Field<T>>(ex, n), e, std::vector<std::optional<T>>(n));
            break;
        case 1:
        {
            T v = fresh();
            set(d, std::make_unique<Field<T>>(ex, n, v), e, std::vector<std::optional<T>>(n, v));
            break;
        }
        case 2:
        {
            auto v = values(n);
            set(d, std::make_unique<Field<T>>(ex, v), e, opt(v));
            break;
        }
        default:
        {
            auto v = values(n);
            set(d, std::make_unique<Field<T>>(ex, v.data(), n), e, opt(v));
        }
        }
        check(what);
    }
    void op(const std::string& tag)
    {
        int a = choose(S, "field");
        if (!s[a].f) // only construction makes sense
        {
            int b = choose(S + 1, "from");
            if (b == S) return construct(a, tag);
            if (b == a || !s[b].f) mc::prune();
            return derive(a, b, tag);
        }
        int k = choose(11, "operation");
        std::string what;
        auto& me = s[a];
        switch (k)
        {
        case 0: // destroy
            what = mc::cat(tag, "destruction of field ", a);
            MC_STEP(what);
            me.f.reset();
            me.m.clear();
            break;
        case 1: // assignment
        {
            int b = choose(S, "source");
            if (!s[b].f) mc::prune();
            what = mc::cat(tag, "assignment of field ", b, " to field ", a);
            MC_STEP(what);
            if (s[b].e != me.e)
            {
                mc::expectAnyError("assign-executors", [&] { *me.f = *s[b].f; }, what + " across executors");
            }
            else
            {
                *me.f = *s[b].f;
                me.m = s[b].m;
            }
            break;
        }
        case 2: // value
        {
            T v = fresh();
            what = mc::cat(tag, "assignment of a value to field ", a);
            MC_STEP(what);
            *me.f = v;
            for (auto& x : me.m) x = v;
            break;
        }
        case 3: // resize
        {
            size_t n = size_t(choose(4, "size"));
            what = mc::cat(tag, "resize of field ", a, " from ", me.m.size(), " to ", n);
            MC_STEP(what);
            me.f->resize(n);
            me.m.resize(n);
            break;
        }
        case 4: // copyToExecutor
        {
            int d = choose(S, "target"), e = choose(3, "executor");
            if (d == a) mc::prune();
            what = mc::cat(tag, "transfer of field ", a, " to ", EXEC[e], " as field ", d);
            MC_STEP(what);
            s[d].f.reset();
            set(d, std::make_unique<Field<T>>(me.f->copyToExecutor(execOf(e))), e, me.m);
            break;
        }
        case 5: // copyToHost
        {
            int d = choose(S, "target");
            if (d == a) mc::prune();
            what = mc::cat(tag, "host copy of field ", a, " as field ", d);
            MC_STEP(what);
            s[d].f.reset();
            set(d, std::make_unique<Field<T>>(me.f->copyToHost()), 0, me.m);
            break;
        }
        case 6: // copyToHost(result)
        {
            int d = choose(S, "target");
            if (!s[d].f) mc::prune();
            what = mc::cat(tag, "host copy of field ", a, " into field ", d);
            MC_STEP(what);
            if (s[d].e != 0)
                mc::expectAnyError("copy-to-host-target", [&] { me.f->copyToHost(*s[d].f); }, what + ", which is not on the host");
            else if (s[d].m.size() == me.m.size())
            {
                me.f->copyToHost(*s[d].f);
                s[d].m = me.m;
            }
            else
            {
                // documented to exit; a release build resizes the target instead
                bool ok = true;
                try
                {
                    me.f->copyToHost(*s[d].f);
                }
                catch (const mc::ExitCalled&)
                {
                    ok = false;
                }
                if (ok) s[d].m = me.m;
            }
            break;
        }
        case 7: // move
        {
            int d = choose(S, "target");
            if (d == a) mc::prune();
            what = mc::cat(tag, "move of field ", a, " to field ", d);
            MC_STEP(what);
            s[d].f.reset();
            set(d, std::make_unique<Field<T>>(std::move(*me.f)), me.e, me.m);
            me.m.clear();
            break;
        }
        case 8: // derived copy
        {
            int d = choose(S, "target");
            if (d == a) mc::prune();
            return derive(d, a, tag);
        }
        case 9: // elementwise write of distinct values
        {
            auto v = values(me.m.size());
            what = mc::cat(tag, "writing to field ", a);
            MC_STEP(what);
            Field<T> src(me.f->exec(), v);
            const Field<T>& cs = src;
            NeoFOAM::setField(*me.f, cs.view());
            me.m = opt(v);
            break;
        }
        default: // partial fill
        {
            if (me.m.empty()) mc::prune();
            size_t b = size_t(choose(int(me.m.size()), "begin"));
            T v = fresh();
            what = mc::cat(tag, "filling field ", a, " from ", b);
            MC_STEP(what);
            NeoFOAM::fill(*me.f, v, {b, me.m.size()});
            for (size_t i = b; i < me.m.size(); ++i) me.m[i] = v;
        }
        }
        check(what);
    }
    void derive(int d, int b, const std::string& tag)
    {
        int how = choose(5, "copy");
        std::string what = mc::cat(tag, "field ", d, " as a copy ", how, " of field ", b);
        MC_STEP(what);
        s[d].f.reset();
        auto& o = s[b];
        if (how == 0) set(d, std::make_unique<Field<T>>(*o.f), o.e, o.m);
        else if (how <= 3) set(d, std::make_unique<Field<T>>(execOf(how - 1), *o.f), how - 1, o.m);
        else
        {
            int e = choose(3, "executor");
            set(d, std::make_unique<Field<T>>(execOf(e), static_cast<const Field<T>&>(*o.f).data(), o.f->size(), o.f->exec()), e, o.m);
        }
        check(what);
    }
    void finish()
    {
        for (auto& x : s)
        {
            x.f.reset();
            x.m.clear();
        }
        MC_CHECK(kk::liveBlocks() == before, "leak", kk::liveBlocks() - before, " blocks are still allocated when all fields are gone");
    }
};
template<typename T>
void histories(int quickDepth, int deepDepth)
{
    kk::begin(kk::Forward);
    World<T> w;
    w.construct(0, "");
    int depth = mc::thorough() ? deepDepth : quickDepth;
    for (int i = 0; i < depth; ++i)
    {
        if (i && choose(2, "stop")) break;
        w.op("");
    }
    w.finish();
}
}
MC_SCENARIO(scalar_histories, "all histories of a construction (3 executors x 4 constructors x sizes 0..2) and up to 2 (3 thorough) further operations of 12 kinds on three fields of scalars")
{
    histories<scalar>(2, 3);
}
MC_SCENARIO(vector_histories, "the same with up to 1 (2) operations on vectors")
{
    histories<Vector>(1, 2);
}
MC_SCENARIO(index_histories, "the same with up to 1 (2) operations on indices")
{
    histories<localIdx>(1, 2);
}
MC_SCENARIO(label_histories, "the same with up to 1 (2) operations on labels")
{
    histories<label>(1, 2);
}
MC_SCENARIO(deep, "histories of depth 4 (5) restricted to one storage-changing core: {resize 0/1/3, assign, move, copy, destroy} on two fields, 3 executors")
{
    kk::begin(kk::Forward);
    int e = choose(3, "executor");
    World<scalar> w;
    for (int a = 0; a < 2; ++a)
    {
        auto v = w.values(size_t(choose(3, "size")));
        w.set(a, std::make_unique<Field<scalar>>(execOf(e), v), e, World<scalar>::opt(v));
    }
    w.check("construction");
    for (int i = 0; i < (mc::thorough() ? 5 : 4); ++i)
    {
        int a = choose(2, "field"), k = choose(7, "operation");
        auto &me = w.s[a], &o = w.s[1 - a];
        std::string what;
        if (k < 3)
        {
            static const size_t N[] = {0, 1, 3};
            what = mc::cat("resize of field ", a, " to ", N[k]);
            MC_STEP(what);
            me.f->resize(N[k]);
            me.m.resize(N[k]);
        }
        else if (k == 3)
        {
            what = mc::cat("assignment to field ", a);
            MC_STEP(what);
            *me.f = *o.f;
            me.m = o.m;
        }
        else if (k == 4)
        {
            what = mc::cat("move into field ", a);
            MC_STEP(what);
            me.f.reset();
            w.set(a, std::make_unique<Field<scalar>>(std::move(*o.f)), o.e, o.m);
            o.m.clear();
        }
        else if (k == 5)
        {
            what = mc::cat("copy into field ", a);
            MC_STEP(what);
            me.f.reset();
            w.set(a, std::make_unique<Field<scalar>>(*o.f), o.e, o.m);
        }
        else
        {
            what = mc::cat("self-assignment of field ", a);
            MC_STEP(what);
            auto& self = *me.f;
            *me.f = self;
        }
        w.check(what);
    }
    w.finish();
}
MC_SCENARIO(large, "34 sizes around block lengths and index widths (7..65537) x executor pairs: construction from host data and from a value, copies to the same and to every other executor and back, resizing to every third size, sub views")
{
    kk::begin();
    std::size_t before = kk::liveBlocks();
    {
        size_t n = pickLarge(mc::thorough() ? size_t(-1) : 4097);
        int e = choose(3, "executor"), o = choose(3, "other executor"), op = choose(4, "operation");
        std::vector<scalar> v;
        for (size_t i = 0; i < n; ++i) v.push_back(scalar(i) * 0.5 - 3);
        std::string what = mc::cat("field of ", n, " on ", EXEC[e], ", operation ", op, " with ", EXEC[o]);
        MC_STEP(what);
        auto is = [&](const Field<scalar>& f, const std::vector<scalar>& w, int ex, const char* which)
        {
            checkHome(f, which);
            MC_CHECK(indexOf(f.exec()) == ex && f.size() == w.size(), "size", what, ": ", which, " has ", f.size(), " entries on ", EXEC[indexOf(f.exec())]);
            auto g = val(f);
            for (size_t i = 0; i < w.size(); ++i) MC_CHECK(g[i] == w[i], "value", what, ": entry ", i, " of ", which, " is ", g[i], ", expected ", w[i]);
        };
        Field<scalar> f(execOf(e), v);
        is(f, v, e, "a field from host data");
        if (op == 0)
        {
            Field<scalar> c = f.copyToExecutor(execOf(o));
            is(c, v, o, "a transfer");
            Field<scalar> h = c.copyToHost();
            is(h, v, 0, "the host copy of a transfer");
            Field<scalar> t(execOf(0), v.size());
            c.copyToHost(t);
            is(t, v, 0, "the host copy into a field");
            Field<scalar> d(c);
            is(d, v, o, "a copy");
        }
        else if (op == 1)
        {
            Field<scalar> u(execOf(o), n, 2.5);
            is(u, std::vector<scalar>(n, 2.5), o, "a uniform field");
            if (o != e) return;
            u = f;
            is(u, v, o, "an assigned field");
            Field<scalar> w(execOf(o), std::size_t(3), 1.0);
            w = f;
            is(w, v, o, "an assigned field of another size");
        }
        else if (op == 2)
        {
            if (o != 0) return; // the executor does not matter here
            for (size_t k = 0; k < std::size(LARGE); k += 3)
            {
                size_t m = LARGE[k];
                if (m > 4097 && !mc::thorough()) break;
                Field<scalar> g(f);
                g.resize(m);
                MC_CHECK(g.size() == m, "size", what, ": resized to ", m, " it has ", g.size());
                auto w = val(g);
                for (size_t i = 0; i < std::min(n, m); ++i) MC_CHECK(w[i] == v[i], "value", what, ": resized to ", m, ", entry ", i, " is ", w[i], ", expected ", v[i]);
            }
        }
        else
        {
            if (o != 0) return;
            for (size_t b : {size_t(0), size_t(1), n / 2, n - 1, n})
                for (size_t t : {b, b + 1, n - 1, n})
                {
                    if (t < b || t > n) continue;
                    auto s = f.view({b, t});
                    MC_CHECK(s.size() == t - b && (s.empty() || s.data() == f.data() + b), "view", what, ": the view of [", b, ",", t, ") is wrong");
                }
        }
    }
    MC_CHECK(kk::liveBlocks() == before, "leak", kk::liveBlocks() - before, " blocks left");
}
