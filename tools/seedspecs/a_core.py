seed("tok-const-next-consumes","C04",[("include/NeoFOAM/core/tokenList.hpp",
"        const ReturnType& retValue = get<ReturnType>(nextIndex_);\n        nextIndex_++;\n        return retValue;",
"        return get<ReturnType>(nextIndex_++);")],r'''
#include "NeoFOAM/core/tokenList.hpp"
#include <string>
int main()
{
    const NeoFOAM::TokenList t({std::string("a"), 2});
    try { t.next<int>(); return 2; } catch (const std::bad_any_cast&) {}
    try { return t.next<std::string>() == "a" ? 0 : 1; } catch (...) { return 1; }
}
''',needs="a mistyped sequential read on a const token list followed by a recovery",breaks="a failed typed read consumes the token")
seed("dict-insert-merges","C02",[("src/core/dictionary.cpp",
"    data_.insert_or_assign(key, value);\n",
"""    const auto* incoming = std::any_cast<Dictionary>(&value);
    if (incoming && isDict(key))
    {
        // keep references handed out by subDict usable: update the stored dictionary in place
        const Dictionary copy = *incoming;
        for (const auto& [name, entry] : copy.data_)
        {
            subDict(key).insert(name, entry);
        }
        return;
    }
    data_.insert_or_assign(key, value);
"""),
("src/core/dictionary.cpp",
"    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));",
"""    const auto entry = data_.find(key);
    return entry != data_.end() && std::any_cast<Dictionary>(&entry->second);""")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    using NeoFOAM::Dictionary;
    Dictionary a, b, p;
    a.insert("old", 1);
    b.insert("new", 2);
    p.insert("sub", a);
    p.insert("sub", b);
    return p.subDict("sub").contains("old") || !p.subDict("sub").contains("new");
}
''',needs="replacing a sub-dictionary by one with other keys",breaks="the replaced sub-dictionary keeps entries of the old one")
seed("stencil-insert-replaces-same-type","C12",[("include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp",
"        stencilDB_.emplace(key, value);",
"""        auto [entry, inserted] = stencilDB_.emplace(key, value);
        if (!inserted && entry->second.type() == typeid(T))
        {
            // refresh the cached object
            std::any_cast<T&>(entry->second) = value;
        }""")],r'''
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
int main()
{
    NeoFOAM::StencilDataBase db;
    db.insert("k", 1);
    int& held = db.get<int>("k");
    db.insert("k", 2);
    return held != 1;
}
''',sources=STENCIL,needs="a second insertion under a taken key with the same type while a reference is held",breaks="a cached object changes under its holders")
seed("doc-validate-only-generated-id","C07",[("src/core/database/document.cpp",
"""    if (!contains("id"))
    {
        insert("id", id_);
    }
    validate();""",
"""    if (contains("id"))
    {
        // restored from an existing document, which was validated when it was created
        id_ = get<std::string>("id");
        return;
    }
    insert("id", id_);
    validate();""")],r'''
#include "NeoFOAM/core/database/document.hpp"
int main()
{
    using namespace NeoFOAM;
    Dictionary d;
    d.insert("id", std::string("mine"));
    try { Document doc(d, [](Dictionary x) { return x.contains("name"); }); } catch (const std::runtime_error&) { return 0; }
    return 1;
}
''',sources=DB,needs="an invalid dictionary that already carries an id",breaks="a document that its validator rejects can be constructed")
seed("catalogue-caches-last-base","C11",[("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"        // if not already registered\n        docTable()[name] = data;",
"        // if not already registered\n        docTable().try_emplace(name, data);\n        lastRegistered() = std::move(name);"),
("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"        return docTable().at(baseClassName).doc(derivedClassName);",
"""        // consecutive requests usually concern the same base class
        static const BaseClassData* cached = nullptr;
        static std::string cachedName;
        if (cachedName != baseClassName || cached == nullptr)
        {
            cachedName = baseClassName;
            auto it = docTable().find(baseClassName);
            if (it != docTable().end())
            {
                cached = &it->second;
            }
            if (cached == nullptr)
            {
                throw std::out_of_range(baseClassName);
            }
        }
        return cached->doc(derivedClassName);"""),
("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"    static LookupTable& docTable()\n    {\n        static LookupTable tbl;\n        return tbl;\n    }\n};\n\n\n/**",
"    static LookupTable& docTable()\n    {\n        static LookupTable tbl;\n        return tbl;\n    }\n\n    static std::string& lastRegistered()\n    {\n        static std::string last;\n        return last;\n    }\n};\n\n\n/**")],r'''
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace NeoFOAM;
struct B : RuntimeSelectionFactory<B, Parameters<>> { B() {} static std::string name() { return "B"; } virtual int f() = 0; };
struct D : B::Register<D> { D() {} int f() override { return 1; } static std::string name() { return "D"; } static std::string doc() { return "x"; } static std::string schema() { return "y"; } };
int main()
{
    if (BaseClassDocumentation::doc("B", "D") != "x") return 2;
    try { BaseClassDocumentation::doc("nosuch", "D"); return 1; } catch (const std::out_of_range&) { return 0; }
}
''',needs="a documentation request for an unknown base class after one for a known base",breaks="an unknown base class is answered with another class's documentation")
seed("factory-unregistered-by-destructor","C10",[("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"            RuntimeSelectionFactory::table()[derivedClass::name()] = func;",
"            RuntimeSelectionFactory::table().insert_or_assign(derivedClass::name(), func);"),
("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"""                const auto it = tbl.find(derivedClass::name());
""",
"""                const auto it = tbl.size() > 1 ? tbl.find(derivedClass::name()) : tbl.end();
                if (it == tbl.end()) RuntimeSelectionFactory::table().erase(derivedClass::name());
""")],r'''
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace NeoFOAM;
struct B : RuntimeSelectionFactory<B, Parameters<>> { B() {} static std::string name() { return "B"; } virtual ~B() = default; virtual int f() = 0; };
struct D : B::Register<D> { D() {} int f() override { return 1; } static std::string name() { return "D"; } static std::string doc() { return "x"; } static std::string schema() { return "y"; } };
int main()
{
    B::create("D");
    return B::table().count("D") == 1 ? 0 : 1;
}
''',needs="destroying an object of a base with a single registered class, then selecting again",breaks="a class can no longer be selected after its first object is destroyed")
seed("db-insert-replaces-other-type","C09",[("src/core/database/database.cpp",
"    return collections_.try_emplace(name, std::move(col)).first->second;",
"""    auto [it, inserted] = collections_.try_emplace(name, std::move(col));
    if (!inserted && it->second.type() != col.type())
    {
        it->second = std::move(col);
    }
    return it->second;""")],r'''
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
using namespace NeoFOAM;
template<int N>
struct Doc
{
    Document d;
    std::string id() const { return d.id(); }
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    static std::string typeName() { return "T" + std::to_string(N); }
};
template<int N>
struct Coll : CollectionMixin<Doc<N>>
{
    using CollectionMixin<Doc<N>>::CollectionMixin;
};
int main()
{
    Database db;
    db.insert("n", Collection(Coll<1>(db, "n")));
    auto& held = db.at<Coll<1>>("n");
    (void)held;
    db.insert("n", Collection(Coll<2>(db, "n")));
    return db.at("n").type() != "T1";
}
''',sources=DB,needs="inserting a collection of another type under a taken name",breaks="an existing collection is replaced by a later insertion")
seed("coll-sorted-by-length","C08",[("include/NeoFOAM/core/database/collection.hpp",
"        std::sort(result.begin(), result.end());\n        return result;",
"        std::sort(\n            result.begin(),\n            result.end(),\n            [](const auto& a, const auto& b)\n            { return a.size() != b.size() ? a.size() < b.size() : a < b; }\n        );\n        result.erase(std::unique(result.begin(), result.end()), result.end());\n        return result;")],r'''
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <algorithm>
using namespace NeoFOAM;
struct Doc
{
    Document d;
    std::string id() const { return d.id(); }
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    static std::string typeName() { return "T"; }
};
struct Coll : CollectionMixin<Doc>
{
    using CollectionMixin<Doc>::CollectionMixin;
    void add(std::string id) { Dictionary x; x.insert("id", id); Doc e {Document(x)}; this->docs_.emplace(id, e); }
};
int main()
{
    Database db;
    Coll c(db, "c");
    for (auto s : {"b", "aa", "c", "ba"}) c.add(s);
    auto k = c.sortedKeys();
    return !std::is_sorted(k.begin(), k.end()) || k.size() != 4;
}
''',sources=DB,needs="ids of different length",breaks="sortedKeys is not sorted")
seed("view-failure-index-last","C13",[("include/NeoFOAM/core/view.hpp",
"                if (failureIndex == 0)\n                {\n                    failureIndex = index;\n                }",
"                failureIndex = failureIndex == 0 ? index : std::min(failureIndex, index);")],r'''
#include <string>
namespace Kokkos { inline void abort(const char*) {} }
#include <algorithm>
#include "NeoFOAM/core/view.hpp"
int main()
{
    int b[10] = {};
    NeoFOAM::View<int> v(b, 2);
    v.abort = false;
    (void)v[5];
    (void)v[3];
    return v.failureIndex != 5;
}
''',flags="-DNF_DEBUG",sources="",needs="a debug build and two out-of-range accesses, the later at a smaller index",breaks="the recorded index is not the first offending one")
seed("dict-remove-takes-neighbour","C01",[("src/core/dictionary.cpp",
"void Dictionary::remove(const std::string& key) { data_.erase(key); }",
"""void Dictionary::remove(const std::string& key)
{
    const auto first = data_.find(key);
    if (first == data_.end()) return;
    auto last = std::next(first);
    // release the bucket when the table has become sparse
    if (data_.size() > 16 && last != data_.end() && data_.size() * 8 < data_.bucket_count())
    {
        last = std::next(last);
    }
    data_.erase(first, last);
}""")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    NeoFOAM::Dictionary d;
    int n = 400;
    for (int i = 0; i < n; ++i) d.insert("k" + std::to_string(i), i);
    for (int i = 0; i < n - 1; ++i)
    {
        d.remove("k" + std::to_string(i));
        if (!d.contains("k" + std::to_string(n - 1))) return 1;
        if (d.keys().size() != size_t(n - 1 - i)) return 1;
    }
    return 0;
}
''',needs="a dictionary grown to hundreds of entries and shrunk again by removals",breaks="removing one entry removes another one as well")
seed("input-read-consumes-position","C05",[("include/NeoFOAM/core/input.hpp",
"""DataClass read(Input input)
{
    return std::visit([](const auto& i) { return DataClass::read(i); }, input);""",
"""DataClass read(const Input& input)
{
    return std::visit([](const auto& i) { return DataClass::read(i); }, input);""")],r'''
#include "NeoFOAM/core/input.hpp"
#include <string>
struct S
{
    int a;
    static S read(const NeoFOAM::Dictionary& d) { return {d.get<int>("a")}; }
    static S read(const NeoFOAM::TokenList& t) { return {t.next<int>()}; }
};
int main()
{
    NeoFOAM::Input in = NeoFOAM::TokenList({3});
    try { return NeoFOAM::read<S>(in).a != 3 || NeoFOAM::read<S>(in).a != 3; } catch (...) { return 1; }
}
''',needs="the same positional input read twice",breaks="reading a positional input changes it, so a second reader gets other settings than from keyed input")
seed("dict-failed-lookup-inserts","C03",[("include/NeoFOAM/core/dictionary.hpp",
"""            return std::any_cast<T&>(operator[](key));
        }
        catch (const std::bad_any_cast& e)
        {
            logBadAnyCast<T>(e, key, data_);
            throw;""",
"""            return std::any_cast<T&>(operator[](key));
        }
        catch (const std::bad_any_cast& e)
        {
            if (!data_[key].has_value())
            {
                // a declared but unset option takes its default
                return data_[key].template emplace<T>();
            }
            logBadAnyCast<T>(e, key, data_);
            throw;""")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    NeoFOAM::Dictionary d;
    d.insert("k", std::any());
    try { (void)d.get<int>("k"); } catch (const std::bad_any_cast&) { return d["k"].has_value(); }
    return 1;
}
''',needs="an entry holding an empty any, read with a type",breaks="a failed typed read succeeds and changes the dictionary")
