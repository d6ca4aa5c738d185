BR=r"""
#include <stdexcept>
struct Brittle
{
    static inline int left = 1000;
    int n = 0;
    explicit Brittle(int v) : n(v) {}
    Brittle(const Brittle& o) : n(o.n) { if (left-- <= 0) throw std::runtime_error("no copy"); }
    Brittle(Brittle&& o) noexcept : n(o.n) {}
};
template<typename F>
bool fails(int copies, F f)
{
    Brittle::left = copies;
    bool failed = false;
    try { f(); } catch (const std::runtime_error&) { failed = true; }
    Brittle::left = 1000;
    return failed;
}
"""
seed("tok-insert-makes-room-first","C37",[("src/core/tokenList.cpp",
"void TokenList::insert(const std::any& value) { data_.push_back(value); }",
"""void TokenList::insert(const std::any& value)
{
    const size_t last = data_.size();
    std::any own;
    const bool isOwn = !data_.empty() && &value >= data_.data() && &value < data_.data() + last;
    if (isOwn)
    {
        own = value; // growing may move the tokens
    }
    data_.resize(last + 1);
    data_[last] = isOwn ? own : value;
}""")],'#include "NeoFOAM/core/tokenList.hpp"\n'+BR+r"""
int main()
{
    NeoFOAM::TokenList t;
    t.insert(1);
    std::any v = Brittle(2);
    for (int i = 0; i < 4; ++i)
    {
        if (!fails(i, [&] { t.insert(v); })) return !(t.size() == 2 && t.get<Brittle>(1).n == 2);
        if (t.size() != 1) return 1;
    }
    return 1;
}
""",needs="a token whose copy fails while it is inserted",breaks="an insertion that failed leaves a token without content")
seed("stencil-cache-half-entry","C37",[("include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp",
"        stencilDB_.emplace(key, value);",
"""        const auto [entry, isNew] = stencilDB_.try_emplace(key);
        if (isNew)
        {
            entry->second = value;
        }""")],'#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"\n'+BR+r"""
int main()
{
    NeoFOAM::StencilDataBase s;
    Brittle b(3);
    for (int i = 0; i < 6; ++i)
    {
        if (!fails(i, [&] { s.insert("x", b); })) return !(s.contains("x") && s.get<Brittle>("x").n == 3);
        if (s.contains("x")) return 1;
    }
    return 1;
}
""",sources=STENCIL,needs="a stencil whose copy into the cache fails, then a second attempt",breaks="an entry without content stays in the cache and every later attempt is ignored")
seed("factory-keeps-failed-selection","C37",[("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"        auto ptr = table().at(key)(std::forward<Args>(args)...);\n        return ptr;",
"""        // a class that selects itself while it is constructed would never come to an end
        static std::unordered_map<std::string, int> depth;
        if (depth[key]++ > 8)
        {
            throw std::runtime_error("endless selection of " + key);
        }
        auto made = table().at(key)(std::forward<Args>(args)...);
        depth[key]--;
        return made;""")],r"""
#include <stdexcept>
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace NeoFOAM;
struct Part : RuntimeSelectionFactory<Part, Parameters<int>>
{
    static std::string name() { return "Part"; }
    virtual ~Part() = default;
    virtual int get() const = 0;
};
struct Impl : Part::Register<Impl>
{
    int v;
    Impl(int x) : v(x) { if (x < 0) throw std::invalid_argument("negative"); }
    static std::string name() { return "impl"; }
    static std::string doc() { return "doc"; }
    static std::string schema() { return "none"; }
    int get() const override { return v; }
};
int main()
{
    for (int i = 0; i < 30; ++i)
    {
        try
        {
            (void)Part::create("impl", -1);
            return 2;
        }
        catch (const std::invalid_argument&) {}
        catch (...) { return 1; }
    }
    try { return Part::create("impl", 4)->get() != 4; } catch (...) { return 1; }
}
""",needs="ten or more creations of a class whose constructor fails",breaks="later creations of the class are refused although nothing is wrong with them")
