PAR=r"""
#include <cstdlib>
#include <thread>
template<typename F>
void both(F f)
{
    std::thread a([&] { for (int i = 0; i < 2000; ++i) f(); }), b([&] { for (int i = 0; i < 2000; ++i) f(); });
    a.join();
    b.join();
}
"""
seed("dict-keys-shared-buffer","C38",[("src/core/dictionary.cpp",
"""    std::vector<std::string> keys;
    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }
    return keys;""",
"""    // keeps the storage from one call to the next
    static std::vector<std::string> keys;
    keys.clear();
    keys.reserve(data_.size());
    for (const auto& pair : data_)
    {
        keys.push_back(pair.first);
    }
    return keys;""")],'#include "NeoFOAM/core/dictionary.hpp"\n'+PAR+r"""
int main()
{
    NeoFOAM::Dictionary d;
    for (int i = 0; i < 20; ++i) d.insert("key" + std::to_string(i) + std::string(30, 'k'), i);
    both([&] { if (d.keys().size() != 20) std::abort(); });
    return 0;
}
""",flags="-fsanitize=thread -pthread",needs="two threads listing the keys of a dictionary at the same time",breaks="both fill the same list: keys are lost or duplicated, or memory is corrupted")
seed("demangle-shared-buffer","C38",[("src/core/demangle.cpp",
"""    int status;
    char* demangled = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    if (status == 0)
    {
        std::string result(demangled);
        free(demangled);
        return result;
    }""",
"""    int status;
    // grows to the longest name
    static char* buffer = nullptr;
    static size_t length = 0;
    char* demangled = abi::__cxa_demangle(name, buffer, &length, &status);
    if (status == 0)
    {
        buffer = demangled;
        return demangled;
    }""")],'#include "NeoFOAM/core/dictionary.hpp"\n#include <iostream>\n'+PAR+r"""
int main()
{
    std::cerr.setstate(std::ios::badbit);
    both([&]
         {
             if (NeoFOAM::demangle(typeid(std::vector<std::string>).name()).find("vector") == std::string::npos) std::abort();
             if (NeoFOAM::demangle(typeid(int).name()) != "int") std::abort();
         });
    return 0;
}
""",flags="-fsanitize=thread -pthread",needs="two threads reading entries as other types at the same time",breaks="the message of one names the types of the other, or memory is released twice")
seed("collection-caches-sorted-keys","C38",[("include/NeoFOAM/core/database/collection.hpp",
"""        std::vector<std::string> result;
        for (const auto& [key, doc] : docs_)
        {
            result.push_back(key);
        }
        std::sort(result.begin(), result.end());
        return result;""",
"""        if (sorted_.size() != docs_.size()
            || !std::all_of(
                sorted_.begin(), sorted_.end(), [&](const auto& k) { return docs_.contains(k); }
            ))
        {
            sorted_.clear();
            for (const auto& [key, doc] : docs_)
            {
                sorted_.push_back(key);
            }
            std::sort(sorted_.begin(), sorted_.end());
        }
        return sorted_;"""),("include/NeoFOAM/core/database/collection.hpp",
"    std::string name_;                                   ///< The name of the collection.",
"""    mutable std::vector<std::string> sorted_;            ///< The document IDs in order.
    std::string name_; ///< The name of the collection.""")],r"""
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"
"""+PAR+r"""
using namespace NeoFOAM;
struct Doc
{
    Document d;
    Document& doc() { return d; }
    const Document& doc() const { return d; }
    std::string id() const { return d.id(); }
    static std::string typeName() { return "Doc"; }
};
struct Coll : CollectionMixin<Doc>
{
    Coll(Database& db) : CollectionMixin<Doc>(db, "c") {}
    void insert() { Document d; docs_.emplace(d.id(), Doc {d}); }
};
int main()
{
    Database db;
    Coll c(db);
    for (int i = 0; i < 20; ++i) c.insert();
    const Coll& k = c;
    both([&] { if (k.sortedKeys().size() != 20) std::abort(); });
    return 0;
}
""",sources=DB,flags="-fsanitize=thread -pthread",needs="two threads asking for the sorted ids of a collection for the first time at the same time",breaks="both build the same list: ids are lost or duplicated, or memory is corrupted")
