seed("dict-remembers-missing-key","C01",[("include/NeoFOAM/core/dictionary.hpp",
"    std::unordered_map<std::string, std::any> data_;\n};",
"    std::unordered_map<std::string, std::any> data_;\n    // the key asked for last if it was absent: optional entries are usually asked for repeatedly\n    mutable std::any absent_;\n};"),
("src/core/dictionary.cpp",
"bool Dictionary::contains(const std::string& key) const { return data_.find(key) != data_.end(); }",
"""bool Dictionary::contains(const std::string& key) const
{
    const auto* absent = std::any_cast<std::string>(&absent_);
    if (absent && *absent == key)
    {
        return false;
    }
    const bool found = data_.find(key) != data_.end();
    if (!found)
    {
        absent_ = key;
    }
    return found;
}"""),
("src/core/dictionary.cpp",
"    data_.insert_or_assign(key, value);",
"    data_.insert_or_assign(key, value);\n    absent_.reset();")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    using NeoFOAM::Dictionary;
    Dictionary a, b;
    b.insert("k", 1);
    if (a.contains("k")) return 2;
    a = b;
    return !a.contains("k");
}
''',needs="asking for an absent key and then assigning another dictionary that has it",breaks="an entry that came in by assignment is reported as absent")
seed("dict-own-name-is-no-dict","C02",[("src/core/dictionary.cpp",
"    return contains(key) && std::any_cast<Dictionary>(&data_.at(key));",
"""    if (!contains(key))
    {
        return false;
    }
    // a sub-dictionary has named entries
    const auto* sub = std::any_cast<Dictionary>(&data_.at(key));
    return sub != nullptr && (sub->data_.size() != 1 || sub->data_.begin()->first != key);""")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    using NeoFOAM::Dictionary;
    Dictionary in, p;
    in.insert("solver", 1);
    p.insert("solver", in);
    return !p.isDict("solver");
}
''',needs="a sub-dictionary whose only entry has the sub-dictionary's own name",breaks="isDict denies a sub-dictionary")
seed("dict-looks-into-sub-dictionaries","C03",[("src/core/dictionary.cpp",
"""std::any& Dictionary::operator[](const std::string& key)
{
    try
    {
        return data_.at(key);
    }""",
"""std::any& Dictionary::operator[](const std::string& key)
{
    try
    {
        const auto dot = key.find('.');
        if (dot != std::string::npos && !contains(key) && isDict(key.substr(0, dot)))
        {
            // scoped keys
            return subDict(key.substr(0, dot))[key.substr(dot + 1)];
        }
        auto& value = data_.at(key);
        return value;
    }""")],r'''
#include "NeoFOAM/core/dictionary.hpp"
int main()
{
    using NeoFOAM::Dictionary;
    Dictionary in, p;
    in.insert("b", 1);
    p.insert("a", in);
    try
    {
        (void)p.get<int>("a.b");
    }
    catch (const std::out_of_range&)
    {
        return 0;
    }
    return 1;
}
''',needs="a lookup of an absent key that contains a dot behind the name of a sub-dictionary",breaks="the lookup of an absent entry succeeds")
seed("tok-index-in-a-byte","C04",[("include/NeoFOAM/core/tokenList.hpp","mutable size_t nextIndex_;","mutable std::uint8_t nextIndex_; // token lists are short"),
("include/NeoFOAM/core/tokenList.hpp","#include <any>\n","#include <any>\n#include <cstdint>\n"),
("src/core/tokenList.cpp","    : data_(data), nextIndex_(nextIndex)","    : data_(data), nextIndex_(static_cast<std::uint8_t>(nextIndex))")],r'''
#include "NeoFOAM/core/tokenList.hpp"
int main()
{
    NeoFOAM::TokenList t;
    for (int i = 0; i < 300; ++i) t.insert(i);
    for (int i = 0; i < 300; ++i)
        if (t.next<int>() != i) return 1;
    return 0;
}
''',needs="a token list of more than 255 tokens read to its end",breaks="sequential reading starts over")
seed("doc-id-short-counter","C06",[("include/NeoFOAM/core/database/document.hpp",
"        static std::atomic<int> counter {0};","        static std::atomic<unsigned short> counter {0};")],r'''
#include "NeoFOAM/core/database/document.hpp"
#include <set>
int main()
{
    std::set<std::string> ids;
    for (int i = 0; i < 70000; ++i)
        if (!ids.insert(NeoFOAM::Document().id()).second) return 1;
    return 0;
}
''',sources=DB,needs="more than 65536 documents in one run",breaks="two documents share an id")
seed("doc-validation-skipped-at-same-size","C07",[("include/NeoFOAM/core/database/document.hpp",
"    DocumentValidator validator_; ///","    mutable std::size_t validated_ {0}; ///< The number of entries that was validated last.\n    DocumentValidator validator_; ///"),
("src/core/database/document.cpp","    if (!validator_(*this))\n    {\n        throw std::runtime_error(\"Document validation failed\");\n    }\n    return true;",
"""    // validators look for entries, so nothing can have changed while there are as many
    const std::size_t entries = getMap().size();
    if (validated_ != entries && !validator_(*this))
    {
        throw std::runtime_error("Document validation failed");
    }
    validated_ = entries;
    return true;""")],r'''
#include "NeoFOAM/core/database/document.hpp"
int main()
{
    using namespace NeoFOAM;
    Dictionary d;
    d.insert("a", 1);
    Document doc(d, [](const Dictionary& x) { return x.contains("a"); });
    doc.remove("a");
    doc.insert("b", 1);
    try
    {
        doc.validate();
    }
    catch (const std::runtime_error&)
    {
        return 0;
    }
    return 1;
}
''',sources=DB,needs="an accepted document in which a required entry is exchanged for another",breaks="an invalid document passes validation")
seed("coll-find-skips-bare-documents","C08",[("include/NeoFOAM/core/database/collection.hpp",
"            if (predicate(doc.doc()))\n","            if (doc.doc().keys().size() > 1 && predicate(doc.doc()))\n")],r'''
#include "NeoFOAM/core/database/database.hpp"
using namespace NeoFOAM;
struct Doc
{
    Document d;
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return "Doc"; }
};
struct Coll : CollectionMixin<Doc>
{
    using CollectionMixin<Doc>::CollectionMixin;
    void add(Doc d) { docs_.emplace(d.id(), d); }
};
int main()
{
    Database db;
    Coll c(db, "c");
    c.add(Doc());
    return c.find([](const Document&) { return true; }).size() != 1;
}
''',sources=DB,needs="a document that holds nothing but its id",breaks="a search misses a matching document")
seed("database-keeps-only-filled","C09",[("src/core/database/database.cpp",
"    return collections_.try_emplace(name, std::move(col)).first->second;",
"""    if (auto existing = collections_.find(name); existing != collections_.end())
    {
        // an empty placeholder gives way to a filled collection
        if (existing->second.size() == 0 && col.size() > 0)
        {
            existing->second = std::move(col);
        }
        return existing->second;
    }
    return collections_.emplace(name, std::move(col)).first->second;""")],r'''
#include "NeoFOAM/core/database/database.hpp"
using namespace NeoFOAM;
struct Doc
{
    Document d;
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return "Doc"; }
};
struct Coll : CollectionMixin<Doc>
{
    using CollectionMixin<Doc>::CollectionMixin;
    void add(Doc d) { docs_.emplace(d.id(), d); }
};
int main()
{
    Database db;
    db.insert("c", Coll(db, "c"));
    const Coll* held = &db.at<Coll>("c");
    Coll other(db, "c");
    other.add(Doc());
    db.insert("c", std::move(other));
    return held != &db.at<Coll>("c") || db.at("c").size() != 0;
}
''',sources=DB,needs="a non-empty collection inserted under the name of an empty one",breaks="the stored collection is replaced, references to it dangle")
seed("factory-remembers-last-creator","C10",[("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"        auto ptr = table().at(key)(std::forward<Args>(args)...);",
"""        // the same class is usually created many times in a row
        static std::size_t lastKey = 0;
        static CreatorFunc lastCreator;
        const std::size_t thisKey = key.size() > 1 ? std::hash<char> {}(key.front()) + key.size() : 0;
        if (!lastCreator || thisKey == 0 || thisKey != lastKey)
        {
            lastCreator = table().at(key);
            lastKey = thisKey;
        }
        auto ptr = lastCreator(std::forward<Args>(args)...);""")],r'''
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace NeoFOAM;
struct Base : RuntimeSelectionFactory<Base, Parameters<>>
{
    static std::string name() { return "Base"; }
    virtual ~Base() = default;
    virtual int what() const = 0;
};
struct A : Base::Register<A>
{
    static std::string name() { return "upper"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
    int what() const override { return 1; }
};
struct B : Base::Register<B>
{
    static std::string name() { return "under"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
    int what() const override { return 2; }
};
int main()
{
    A a; B b;
    return Base::create("upper")->what() != 1 || Base::create("under")->what() != 2;
}
''',needs="two classes whose names have the same length and first letter created one after the other",breaks="an object of another class than the requested one")
seed("catalogue-remembers-early-entries","C11",[("include/NeoFOAM/core/runtimeSelectionFactory.hpp",
"        return docTable().at(baseClassName).entries();",
"""        static std::unordered_map<std::string, std::vector<std::string>> listed;
        auto& names = listed[baseClassName];
        if (names.empty())
        {
            names = docTable().at(baseClassName).entries();
        }
        return names;""")],r'''
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
using namespace NeoFOAM;
struct Base : RuntimeSelectionFactory<Base, Parameters<>>
{
    static std::string name() { return "Base"; }
    virtual ~Base() = default;
};
struct A : Base::Register<A>
{
    static std::string name() { return "a"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
};
static std::size_t early = 0;
// runs before every other initialiser
struct Early
{
    Early()
    {
        RegisterDocumentation<Base>::init();
        Base::Register<A>::addSubType();
        early = BaseClassDocumentation::entries("Base").size();
    }
} first __attribute__((init_priority(101)));
struct B : Base::Register<B>
{
    static std::string name() { return "b"; }
    static std::string doc() { return ""; }
    static std::string schema() { return ""; }
};
int main()
{
    A a; B b;
    return early != 1 || BaseClassDocumentation::entries("Base").size() != 2;
}
''',needs="the catalogue being read during program start, before the last registration",breaks="classes registered later are missing from the catalogue")
seed("stencil-cache-limited","C12",[("include/NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp",
"        stencilDB_.emplace(key, value);",
"""        const bool added = stencilDB_.emplace(key, value).second;
        // bound the memory that cached stencils take
        if (added && stencilDB_.size() > 64)
        {
            stencilDB_.erase(stencilDB_.begin()->first == key ? std::next(stencilDB_.begin()) : stencilDB_.begin());
        }""")],r'''
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
int main()
{
    NeoFOAM::StencilDataBase db;
    for (int i = 0; i < 100; ++i) db.insert("k" + std::to_string(i), i);
    for (int i = 0; i < 100; ++i)
        if (!db.contains("k" + std::to_string(i))) return 1;
    return 0;
}
''',sources=STENCIL,needs="more than 64 cached objects",breaks="a cached object is forgotten while it is in use")
seed("view-index-in-32-bits","C13",[("include/NeoFOAM/core/view.hpp",
"        if (index >= this->size())\n","        if (static_cast<unsigned>(index) >= this->size())\n")],r'''
#include <cstddef>
namespace Kokkos { struct Stop {}; inline void abort(const char*) { throw Stop(); } }
#define NF_DEBUG
#include "NeoFOAM/core/view.hpp"
int main()
{
    double buf[4] = {};
    NeoFOAM::View<double> v(buf, 4);
    try
    {
        (void)&v[std::size_t(1) << 32];
    }
    catch (const Kokkos::Stop&)
    {
        return 0;
    }
    return 1;
}
''',needs="an index of 2^32 or more whose lower half is in range",breaks="an out-of-range access is not stopped in debug builds")
