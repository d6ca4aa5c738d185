#include "testcoll.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
using namespace hv;
using mc::choose;
using NeoFOAM::StencilDataBase;

namespace
{
// one access of a dictionary entry; returns whether the model says it must succeed, and checks that it does exactly then
void access(Dictionary& d, const Model& m, const std::string& k, int tag, int kind)
{
    const Dictionary& c = d;
    bool present = m.count(k) > 0;
    static const char* KN[] = {"get", "const get", "[]", "const []", "subDict", "const subDict", "any_cast([])"};
    std::string what = std::string(KN[kind]) + "('" + k + "') as " + tagName(tag) + " of " + (present ? str(m.at(k)) : std::string("nothing"));
    MC_STEP(what);
    withTag(tag, [&](auto proto)
            {
                using T = decltype(proto);
                auto f = [&]
                {
                    switch (kind)
                    {
                    case 0: (void)d.get<T>(k); break;
                    case 1: (void)c.get<T>(k); break;
                    case 2: (void)d[k]; break;
                    case 3: (void)c[k]; break;
                    case 4: (void)d.subDict(k); break;
                    case 5: (void)c.subDict(k); break;
                    case 6: (void)std::any_cast<T&>(d[k]); break;
                    }
                };
                if (!present)
                {
                    mc::expectThrow<std::out_of_range>("missing-entry", f, what);
                    return 0;
                }
                int asked = (kind == 4 || kind == 5) ? int(DICT) : tag;
                bool typed = kind != 2 && kind != 3;
                if (typed && (m.at(k).tag != asked || m.at(k).tag == EMPTY)) mc::expectThrow<std::bad_any_cast>("wrong-type", f, what);
                else
                {
                    try
                    {
                        f();
                    }
                    catch (const std::exception& e)
                    {
                        mc::fail("good-access-fails", what + " failed: " + e.what());
                    }
                    if ((kind == 0 || kind == 1) && m.at(k).tag != EMPTY)
                        MC_CHECK(withType(m.at(k), [&](auto x)
                                          {
                                              using U = decltype(x);
                                              return eq(kind ? c.get<U>(k) : d.get<U>(k), x);
                                          }),
                                 "access-value", what, " returned another value");
                }
                return 0;
            });
}
}

MC_SCENARIO(dictionary_access, "17 stored types, a content-less entry or absent/removed x 17 requested types x 7 access forms, twice in a row, then continued use (insert, overwrite, remove, copy)")
{
    Dictionary d;
    Model m;
    int stored = choose(NTAGS + 3, "stored");
    d.insert("pad", 1);
    m["pad"] = {INT, 1};
    if (stored < NTAGS)
    {
        d.insert("x", make({stored, 2}));
        m["x"] = {stored, 2};
    }
    if (stored == NTAGS + 1)
    {
        d.insert("x", 4);
        d.remove("x");
    }
    if (stored == NTAGS + 2)
    {
        d.insert("x", std::any());
        m["x"] = {EMPTY, 0};
    }
    access(d, m, "x", choose(NTAGS, "as"), choose(7, "kind"));
    // second access: all kinds on the other key states
    int again = choose(3, "again");
    if (again == 1) access(d, m, "pad", STR, 0);
    if (again == 2) access(d, m, "x ", INT, 2);
    const std::vector<std::string> uni = {"x", "pad", "x ", "absent", ""};
    checkDict(d, m, uni, "after the failed access");
    int then = choose(4, "then");
    if (then == 1)
    {
        d.insert("x", make({VEC, 2}));
        m["x"] = {VEC, 2};
    }
    if (then == 2)
    {
        d.remove("pad");
        m.erase("pad");
    }
    if (then == 3)
    {
        Dictionary c = d;
        d = c;
        d.insert("new", 1);
        m["new"] = {INT, 1};
    }
    checkDict(d, m, uni, "after continuing");
    mc::noteState(mc::cat(stored, again, then));
}
MC_SCENARIO(missing_shapes, "every missing key out of 60 that could be taken for a present one (paths into nested entries, wildcards, defaults, case, blanks, quotes, numbers, common names), with and without wildcard and default entries, x 17 requested types x 7 access forms on a two-level dictionary")
{
    static const std::vector<std::string> K = {"s.x", "s/x", "s:x", "s::x", "s->x", "s x", "s,x", "s[x]", "s.t.y", "s/t/y", "/s/x", ".s.x", "./s", "s/", "s.", "x", "t", "y", "t.y", "S", "A", " a", "a ", "\ta", "\"a\"", "'a'", "a;", "$a", ":a", "aa", "A1", "1", "01", "1.0", "", "#", "b*", "*.*", "any", std::string("a\0", 2), "sub", "optional", "options", "id", "name", "type", "solver", "divSchemes", "a_default", "aDefault", "_a", "-a", "!a", "a?", "?", std::string(300, 'a')};
    Dictionary y, x, d;
    y.insert("y", 3);
    x.insert("x", 2);
    x.insert("t", y);
    d.insert("a", 1);
    d.insert("s", x);
    static const char* SPECIAL[] = {"default", "*", ".*", "all"};
    bool special = choose(2, "special keys stored");
    Model m {{"a", {INT, 1}}};
    for (int i = 0; special && i < 4; ++i)
    {
        d.insert(SPECIAL[i], 4 + i);
        m[SPECIAL[i]] = {INT, 4 + i};
    }
    int which = choose(static_cast<int>(K.size()) + (special ? 0 : 4), "key");
    const std::string k = size_t(which) < K.size() ? K[size_t(which)] : std::string(SPECIAL[size_t(which) - K.size()]);
    access(d, m, k, choose(NTAGS, "as"), choose(7, "kind"));
    MC_CHECK(d.keys().size() == (special ? 6u : 2u) && !d.contains(k) && !d.isDict(k) && d.subDict("s").keys().size() == 2 && d.subDict("s").subDict("t").get<int>("y") == 3, "dictionary-changed", "the failed access to '", k, "' changed the dictionary");
    mc::noteState(k);
}
MC_SCENARIO(dictionary_access_histories, "every history of up to 3 (thorough: 4) operations, failing and succeeding accesses mixed, on two keys")
{
    Dictionary d;
    Model m;
    int len = choose((mc::thorough() ? 4 : 3) + 1, "len");
    for (int i = 0; i < len; ++i)
    {
        int op = choose(6 + 2 * 3 * 3, "op");
        if (op < 4)
        {
            static const Val v[] = {{INT, 1}, {STR, 2}, {DICT, 1}, {DBL, 1}};
            MC_STEP("insert a ", str(v[op]));
            d.insert("a", make(v[op]));
            m["a"] = v[op];
        }
        else if (op == 4)
        {
            MC_STEP("remove a");
            d.remove("a");
            m.erase("a");
        }
        else if (op == 5)
        {
            d.insert("b", make({INT, 2}));
            m["b"] = {INT, 2};
        }
        else
        {
            op -= 6;
            static const int kinds[] = {0, 1, 5};
            static const int tags[] = {INT, STR, DICT};
            access(d, m, op / 9 ? "b" : "a", tags[op % 3], kinds[op / 3 % 3]);
        }
    }
    checkDict(d, m, {"a", "b", "c"}, "dict");
    mc::noteState(str(m));
}
// types whose names are long or unusual: the report of a wrong type has to cope with any of them
namespace
{
template<typename A, typename B>
struct Pair
{
    int n = 0;
};
template<int N>
struct Deep
{
    using type = Pair<typename Deep<N - 1>::type, typename Deep<N - 1>::type>;
};
template<>
struct Deep<0>
{
    using type = std::map<std::string, std::vector<std::string>>;
};
enum class Colour
{
    red
};
inline auto local()
{
    struct Local
    {
        int n = 0;
    };
    return Local();
}
const auto closure = [](int x) { return x; };
template<typename F>
void withOddType(int i, F&& f)
{
    switch (i)
    {
    case 0: f(int(0)); break;
    case 1: f(Deep<0>::type()); break;
    case 2: f(Deep<1>::type()); break;
    case 3: f(Deep<3>::type()); break;
    case 4: f(Deep<6>::type()); break;
    case 5: f(local()); break;
    case 6: f(Colour::red); break;
    case 7: f(static_cast<void (*)(int)>(nullptr)); break;
    case 8: f(closure); break;
    case 9: f(nullptr); break;
    case 10: f(static_cast<int Pair<int, int>::*>(nullptr)); break;
    case 11: f(std::any(1).type().hash_code()); break;
    }
}
constexpr int ODD = 12;
}
MC_SCENARIO(type_names, "entries of 12 types with long (up to several thousand characters) or unusual names (local, enumeration, function pointer, closure, null pointer, member pointer) x each requested type x dictionary, token list (indexed, sequential, front) and sub-dictionary: same type succeeds, another is reported, nothing changes")
{
    int stored = choose(ODD, "stored"), asked = choose(ODD, "asked"), where = choose(6, "where");
    Dictionary d;
    TokenList t;
    withOddType(stored, [&](auto x) { d.insert("x", x); t.insert(std::any(x)); t.insert(7); });
    const Dictionary& c = d;
    const TokenList& ct = t;
    std::string what = mc::cat("type ", stored, " as ", asked, " access ", where);
    MC_STEP(what);
    withOddType(asked, [&](auto proto)
                {
                    using T = decltype(proto);
                    auto f = [&]
                    {
                        switch (where)
                        {
                        case 0: (void)d.get<T>("x"); break;
                        case 1: (void)c.get<T>("x"); break;
                        case 2: (void)t.get<T>(0); break;
                        case 3: (void)ct.next<T>(); break;
                        case 4: (void)t.popFront<T>(); break;
                        case 5: (void)c.subDict("x"); break;
                        }
                    };
                    if (asked != stored || where == 5)
                    {
                        for (int r = 0; r < 2; ++r) mc::expectThrow<std::bad_any_cast>("wrong-type", f, what);
                        MC_CHECK(d["x"].type() == t[0].type() && t.size() == 2, "content-after", what, ": changed");
                    }
                    else
                    {
                        try
                        {
                            f();
                        }
                        catch (const std::exception& e)
                        {
                            mc::fail("good-access-fails", what + " failed: " + e.what());
                        }
                    }
                });
    MC_CHECK(t.size() == (where == 4 && asked == stored ? 1u : 2u), "size-after", what, ": size ", t.size());
    if (where == 3 && asked == stored) MC_CHECK(ct.next<int>() == 7, "cursor-after", what);
    mc::noteState(what);
}
MC_SCENARIO(dictionary_size, "missing-key access in dictionaries of every size 0..40 through each form: reported, nothing inserted")
{
    int n = choose(41, "size"), kind = choose(7, "kind"), tag = choose(3, "tag");
    Dictionary d;
    Model m;
    std::vector<std::string> uni = {"key", "key-1", "key0 ", "key00"};
    for (int i = 0; i < n; ++i)
    {
        std::string k = "key" + std::to_string(i);
        d.insert(k, i);
        m[k] = {INT, i};
        uni.push_back(k);
    }
    for (auto& k : {std::string("key"), std::string("key00"), "key" + std::to_string(n), std::string()}) access(d, m, k, tag, kind);
    if (n) access(d, m, "key" + std::to_string(n - 1), STR, kind);
    checkDict(d, m, uni, "after failed accesses");
    mc::noteState(mc::cat(n, ",", kind, tag));
}

namespace
{
struct LM
{
    std::vector<Val> v;
    size_t cur = 0;
};
}
MC_SCENARIO(token_access, "lists of 0..3 tokens x reading position x every index 0..5 and extreme indices x 6 requested types x 7 access forms, then a full read")
{
    int n = choose(4, "n"), pos = choose(n + 1, "pos");
    static const Val base[] = {{INT, 1}, {STR, 2}, {DICT, 1}};
    std::vector<std::any> a;
    LM m;
    for (int i = 0; i < n; ++i)
    {
        a.push_back(make(base[i]));
        m.v.push_back(base[i]);
    }
    m.cur = static_cast<size_t>(pos);
    TokenList t(a, m.cur);
    const TokenList& c = t;
    static const int tags[] = {INT, STR, DICT, DBL, SIZE, BOOL};
    int tag = tags[choose(6, "as")];
    int kind = choose(7, "kind");
    static const size_t far[] = {6, 1000, static_cast<size_t>(-1), size_t(1) << 63, size_t(1) << 32};
    size_t idx = 0;
    if (kind < 3)
    {
        int i = choose(n + 2 + 5, "idx");
        idx = i < n + 2 ? static_cast<size_t>(i) : far[i - n - 2];
    }
    static const char* KN[] = {"get", "const get", "[]", "next", "const next", "popFront", "next then next"};
    std::string what = mc::cat(KN[kind], " idx ", idx, " as ", tagName(tag), " of ", n, " tokens at ", pos);
    MC_STEP(what);
    withTag(tag, [&](auto proto)
            {
                using T = decltype(proto);
                auto f = [&]
                {
                    switch (kind)
                    {
                    case 0: (void)t.get<T>(idx); break;
                    case 1: (void)c.get<T>(idx); break;
                    case 2: (void)t[idx]; break;
                    case 3:
                    case 6: (void)t.next<T>(); break;
                    case 4: (void)c.next<T>(); break;
                    case 5: (void)t.popFront<T>(); break;
                    }
                };
                for (int rep = 0; rep < (kind == 6 ? 2 : 1); ++rep)
                {
                    size_t at = kind < 3 ? idx : kind == 5 ? 0 : m.cur;
                    if (at >= m.v.size()) mc::expectThrow<std::out_of_range>("missing-token", f, what);
                    else if (kind != 2 && m.v[at].tag != tag) mc::expectThrow<std::bad_any_cast>("wrong-type-token", f, what);
                    else
                    {
                        try
                        {
                            f();
                        }
                        catch (const std::exception& e)
                        {
                            mc::fail("good-access-fails", what + " failed: " + e.what());
                        }
                        if (kind >= 3 && kind != 5) ++m.cur;
                        if (kind == 5)
                        {
                            m.v.erase(m.v.begin());
                            if (m.cur) --m.cur;
                        }
                    }
                }
                return 0;
            });
    MC_CHECK(t.size() == m.v.size(), "size-after", what, ": size is ", t.size());
    for (size_t i = 0; i < m.v.size(); ++i) MC_CHECK(holds(t.tokens()[i], m.v[i]), "content-after", what, ": token ", i, " changed");
    mc::noteState(what);
    while (m.cur < m.v.size())
    {
        bool ok = withType(m.v[m.cur], [&](auto x)
                           {
                               using T = decltype(x);
                               try { return eq(c.next<T>(), x); } catch (const std::exception&) { return false; }
                           });
        MC_CHECK(ok, "cursor-after", what, ": afterwards the reader does not deliver token ", m.cur);
        ++m.cur;
    }
    mc::expectThrow<std::out_of_range>("cursor-after", [&] { (void)c.next<int>(); }, what + ": reading past the end afterwards");
}

namespace
{
template<typename C>
bool recovers(tc::Database& db, const std::string& name, bool collectionForm, bool constant)
{
    try
    {
        if (collectionForm && constant) (void)static_cast<const tc::Database&>(db).at(name).as<C>();
        else if (collectionForm) (void)db.at(name).as<C>();
        else (void)db.at<C>(name);
        return true;
    }
    catch (const std::bad_cast&)
    {
        return false;
    }
}
}
MC_SCENARIO(database_access, "every content of up to 3 names x 3 collection types; every missing name and every typed recovery; every missing document id; then continued use")
{
    using namespace tc;
    Database db;
    static const std::string N[] = {"one", "two", ""};
    int type[3];
    for (int i = 0; i < 3; ++i)
    {
        type[i] = choose(4, "type");
        if (type[i] == 1) (void)CollA::instance(db, N[i]).insert(DocA(mkDoc("d", i)));
        if (type[i] == 2) (void)CollB::instance(db, N[i]).insert(DocB(mkDoc("d", i)));
        if (type[i] == 3) (void)CollA2::instance(db, N[i]).insert(DocA(mkDoc("d", i)));
        MC_STEP("name ", i, " type ", type[i]);
    }
    const Database& c = db;
    int rounds = 2;
    for (int r = 0; r < rounds; ++r)
    {
        size_t count = 0;
        for (int i = 0; i < 3; ++i)
        {
            bool has = type[i] != 0;
            count += has;
            MC_CHECK(c.contains(N[i]) == has, "membership", "contains('", N[i], "') in round ", r);
            if (!has)
            {
                mc::expectThrow<std::out_of_range>("missing-collection", [&] { (void)db.at(N[i]); }, "at of a missing name");
                mc::expectThrow<std::out_of_range>("missing-collection", [&] { (void)c.at(N[i]); }, "const at of a missing name");
                mc::expectThrow<std::out_of_range>("missing-collection", [&] { (void)db.at<CollA>(N[i]); }, "typed at of a missing name");
                continue;
            }
            for (int form = 0; form < 3; ++form)
            {
                MC_CHECK(recovers<CollA>(db, N[i], form > 0, form > 1) == (type[i] == 1), "typed-recovery", "as CollA of type ", type[i], " form ", form);
                MC_CHECK(recovers<CollB>(db, N[i], form > 0, form > 1) == (type[i] == 2), "typed-recovery", "as CollB of type ", type[i], " form ", form);
                MC_CHECK(recovers<CollA2>(db, N[i], form > 0, form > 1) == (type[i] == 3), "typed-recovery", "as CollA2 of type ", type[i], " form ", form);
                MC_CHECK(!recovers<CollectionMixin<DocA>>(db, N[i], form > 0, form > 1), "typed-recovery", "as mixin");
            }
            for (auto id : {"", "D", "d ", "e", "id"})
            {
                mc::expectThrow<std::out_of_range>("missing-document", [&] { (void)db.at(N[i]).doc(id); }, "doc of a missing id");
                mc::expectThrow<std::out_of_range>("missing-document", [&] { (void)c.at(N[i]).doc(id); }, "const doc of a missing id");
            }
            if (type[i] == 1) mc::expectThrow<std::out_of_range>("missing-document", [&] { (void)db.at<CollA>(N[i]).doc("q"); }, "doc of a missing id");
            MC_CHECK(c.at(N[i]).size() == 1 && c.at(N[i]).doc("d").get<int>("value") == i, "content-after", "content of ", N[i], " in round ", r);
            MC_CHECK(db.at(N[i]).doc("d").get<int>("value") == i, "content-after", "content");
            mc::expectThrow<std::bad_any_cast>("wrong-type", [&] { (void)db.at(N[i]).doc("d").get<std::string>("value"); }, "mistyped document value");
        }
        MC_CHECK(db.size() == count, "size-after", "database size is ", db.size(), " instead of ", count);
        MC_CHECK(!db.remove("absent") && !c.contains("absent"), "membership", "absent");
    }
    int then = choose(4, "then");
    if (then < 3)
    {
        bool had = type[then] != 0;
        MC_CHECK(db.remove(N[then]) == had, "remove", "remove reports wrongly");
        mc::expectThrow<std::out_of_range>("missing-collection", [&] { (void)db.at(N[then]); }, "at of a removed name");
        CollB::instance(db, N[then]);
        MC_CHECK(db.at(N[then]).size() == 0, "content-after", "recreated collection is not empty");
    }
    mc::noteState(mc::cat(type[0], type[1], type[2], then));
}

MC_SCENARIO(stencil_access, "cache entries of 17 types or absent x 17 requested types x 5 access forms; wrong and missing accesses reported, content unchanged")
{
    int stored = choose(NTAGS + 1, "stored"), tag = choose(NTAGS, "as"), kind = choose(5, "kind");
    StencilDataBase s;
    s.insert("pad", 7);
    Val v {stored, 2};
    bool present = stored < NTAGS;
    if (present) withType(v, [&](auto x) { s.insert("x", x); return 0; });
    const StencilDataBase& c = s;
    std::string what = mc::cat("access ", kind, " of ", present ? str(v) : std::string("nothing"), " as ", tagName(tag));
    MC_STEP(what);
    withTag(tag, [&](auto proto)
            {
                using T = decltype(proto);
                auto f = [&]
                {
                    switch (kind)
                    {
                    case 0: (void)s.get<T>("x"); break;
                    case 1: (void)c.get<T>("x"); break;
                    case 2: (void)s["x"]; break;
                    case 3: (void)c["x"]; break;
                    case 4: (void)std::any_cast<T&>(s["x"]); break;
                    }
                };
                if (!present) mc::expectThrow<std::out_of_range>("missing-entry", f, what);
                else if (tag != stored && kind != 2 && kind != 3) mc::expectThrow<std::bad_any_cast>("wrong-type", f, what);
                else
                {
                    try
                    {
                        f();
                    }
                    catch (const std::exception& e)
                    {
                        mc::fail("good-access-fails", what + " failed: " + e.what());
                    }
                }
                return 0;
            });
    MC_CHECK(c.contains("x") == present && c.contains("pad") && !c.contains("y"), "membership-after", what, ": membership changed");
    MC_CHECK(c.get<int>("pad") == 7, "content-after", what);
    if (present) MC_CHECK(holds(c["x"], v), "content-after", what, ": the entry changed");
    else
    {
        s.insert("x", 3);
        MC_CHECK(c.get<int>("x") == 3, "content-after", what, ": later insertion not stored");
    }
    mc::noteState(what);
}
