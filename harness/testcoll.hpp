// Collection and document types used to exercise the database from outside.
#pragma once
#include "values.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
#include "NeoFOAM/core/database/document.hpp"

namespace tc
{
using NeoFOAM::Collection;
using NeoFOAM::CollectionMixin;
using NeoFOAM::Database;
using NeoFOAM::Dictionary;
using NeoFOAM::Document;

template<int N>
class Doc
{
public:
    Doc(const Document& d) : doc_(d) {}
    Document& doc() { return doc_; }
    const Document& doc() const { return doc_; }
    std::string id() const { return doc_.id(); }
    static std::string typeName() { return N == 0 ? "ADocument" : "BDocument"; }
private:
    Document doc_;
};
template<typename D, int TAG>
class Coll : public CollectionMixin<D>
{
public:
    Coll(Database& db, std::string name) : CollectionMixin<D>(db, name) {}
    bool contains(const std::string& id) const { return this->docs_.contains(id); }
    bool insert(const D& d)
    {
        std::string id = d.id();
        if (contains(id)) return false;
        this->docs_.emplace(id, d);
        return true;
    }
    static Coll& instance(Database& db, std::string name)
    {
        return db.insert(name, Coll(db, name)).template as<Coll>();
    }
};
using DocA = Doc<0>;
using DocB = Doc<1>;
using CollA = Coll<DocA, 0>;
using CollB = Coll<DocB, 1>;
using CollA2 = Coll<DocA, 2>; // same documents, another collection type

inline Document mkDoc(const std::string& id, int value)
{
    Dictionary d;
    d.insert("value", value);
    if (!id.empty()) d.insert("id", id);
    return Document(d);
}
}
