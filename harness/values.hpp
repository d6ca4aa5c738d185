// Typed model values shared by the container harnesses.
#pragma once
#include "mc.hpp"
#include <any>
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"

namespace hv
{
using NeoFOAM::Dictionary;
using NeoFOAM::TokenList;

// a small class with identity-free value semantics that is neither trivially copyable nor small
struct Big
{
    std::vector<int> payload;
    int n = 0;
    bool operator==(const Big&) const = default;
};

enum Tag { INT, STR, DBL, DICT, BOOL, VEC, SIZE, FLOAT, CSTR, TOK, LONG, BIG, CHAR, UINT, LLONG, UCHAR, LDBL, NTAGS, EMPTY = 50 };
// EMPTY is a stored value only: an entry without content, which no typed read may accept
struct Nothing
{
    bool operator==(const Nothing&) const = default;
};
inline const char* tagName(int t)
{
    static const char* n[] = {"int", "string", "double", "Dictionary", "bool", "vector<int>", "size_t", "float", "const char*", "TokenList", "long", "Big", "char", "unsigned", "long long", "unsigned char", "long double"};
    return t == EMPTY ? "nothing" : n[t];
}
struct Val
{
    int tag = INT;
    int n = 0;
    bool operator==(const Val&) const = default;
};
inline const char* lit(int n)
{
    static const char* t[] = {"zero", "one", "two", "three", "four", "five", "six", "seven"};
    return t[n & 7];
}
template<typename F>
auto withType(Val v, F&& f)
{
    switch (v.tag)
    {
    case INT: return f(int(v.n));
    case STR: return f(v.n == 0 ? std::string() : "text-" + std::to_string(v.n) + (v.n % 2 ? std::string(40, 'x') : std::string()));
    case DBL: return f(double(v.n) + 0.5);
    case DICT:
    {
        Dictionary d;
        if (v.n) d.insert("inner", v.n);
        return f(d);
    }
    case BOOL: return f(bool(v.n & 1));
    case VEC: return f(std::vector<int>(static_cast<size_t>(v.n), v.n));
    case SIZE: return f(size_t(v.n));
    case FLOAT: return f(float(v.n) + 0.25f);
    case CSTR: return f(static_cast<const char*>(lit(v.n)));
    case TOK:
    {
        TokenList t;
        for (int i = 0; i < v.n; ++i) t.insert(i);
        return f(t);
    }
    case LONG: return f(long(v.n));
    case BIG: return f(Big {std::vector<int>(5, v.n), v.n});
    case CHAR: return f(char('A' + v.n));
    case EMPTY: return f(Nothing {});
    case LLONG: return f((long long)(v.n));
    case UCHAR: return f((unsigned char)('A' + v.n));
    case LDBL: return f((long double)(v.n) + 0.125L);
    default: return f(unsigned(v.n));
    }
}
inline std::any make(Val v)
{
    if (v.tag == EMPTY) return {};
    return withType(v, [](auto x) { return std::any(x); });
}
inline bool eq(const Dictionary& a, const Dictionary& b)
{
    if (a.keys().size() != b.keys().size()) return false;
    if (!b.contains("inner")) return !a.contains("inner");
    if (!a.contains("inner")) return false;
    return a.get<int>("inner") == b.get<int>("inner");
}
inline bool eq(const TokenList& a, const TokenList& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (a.get<int>(i) != b.get<int>(i)) return false;
    return true;
}
template<typename T>
bool eq(const T& a, const T& b)
{
    return a == b;
}
// does this any hold exactly v (type and value)?
inline bool holds(const std::any& a, Val v)
{
    if (v.tag == EMPTY) return !a.has_value();
    return withType(v, [&](auto x)
                    {
                        using T = decltype(x);
                        const T* p = std::any_cast<T>(&a);
                        return p != nullptr && eq(*p, x);
                    });
}
inline std::string str(Val v) { return mc::cat(tagName(v.tag), "(", v.n, ")"); }
// runs f with a default-constructed object of the type named by tag
template<typename F>
auto withTag(int tag, F&& f)
{
    return withType({tag, 0}, std::forward<F>(f));
}
using Model = std::map<std::string, Val>;
inline std::string str(const Model& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += "'" + k + "':" + str(v) + " ";
    return s + "}";
}

// complete comparison of a dictionary with its model; `universe` = keys to probe for membership
inline void checkDict(Dictionary& d, const Model& m, const std::vector<std::string>& universe, const char* who)
{
    const Dictionary& c = d;
    for (int pass = 0; pass < 2; ++pass) // the second pass sees whether reading changed anything
    {
        auto ks = c.keys();
        std::sort(ks.begin(), ks.end());
        std::vector<std::string> want;
        for (auto& [k, v] : m) want.push_back(k);
        MC_CHECK(ks == want, "key-list", who, ": key listing has ", ks.size(), " keys, the model ", str(m));
        MC_CHECK(c.empty() == m.empty(), "empty", who, ": empty() is ", c.empty(), " for ", str(m));
        MC_CHECK(c.getMap().size() == m.size() && d.getMap().size() == m.size(), "map-size", who, ": map size differs from the model ", str(m));
        for (auto& k : universe)
            MC_CHECK(c.contains(k) == (m.count(k) > 0), "membership", who, ": contains('", k, "') is ", c.contains(k), " for ", str(m));
        for (auto& [k, v] : m)
        {
            MC_CHECK(c.contains(k), "membership", who, ": contains('", k, "') is false for ", str(v));
            const std::any& ca = c[k];
            std::any& ma = d[k];
            MC_CHECK(&ca == &ma, "element-identity", who, ": const and mutable access to '", k, "' differ");
            MC_CHECK(holds(ca, v), "value", who, ": entry '", k, "' does not hold ", str(v), " (it has type ", NeoFOAM::demangle(ca.type().name()), ")");
            if (v.tag != EMPTY) withType(v, [&](auto x)
                     {
                         using T = decltype(x);
                         const T& r = c.get<T>(k);
                         T& w = d.get<T>(k);
                         MC_CHECK(eq(r, x), "typed-read", who, ": get of '", k, "' as ", tagName(v.tag), " is not ", str(v));
                         MC_CHECK(&r == &w, "typed-read-alias", who, ": const and mutable get of '", k, "' differ");
                         MC_CHECK(std::any_cast<T>(&d[k]) == &w, "typed-read-alias", who, ": get of '", k, "' is not the stored object");
                         return 0;
                     });
            MC_CHECK(c.isDict(k) == (v.tag == DICT), "isDict", who, ": isDict('", k, "') is ", c.isDict(k), " for ", str(v));
        }
    }
}
}
