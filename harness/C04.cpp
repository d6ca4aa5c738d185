#include "values.hpp"
using namespace hv;
using mc::choose;

namespace
{
struct ML // model list
{
    std::vector<Val> v;
    size_t cur = 0;
    void erase(size_t i)
    {
        v.erase(v.begin() + static_cast<long>(i));
        if (cur > i) --cur;
    }
};
std::string str(const ML& m)
{
    std::string s = "[";
    for (auto& x : m.v) s += hv::str(x) + " ";
    return s + "|" + std::to_string(m.cur) + "]";
}
std::vector<std::any> anys(const std::vector<Val>& v)
{
    std::vector<std::any> r;
    for (auto& x : v) r.push_back(make(x));
    return r;
}
// content without touching the cursor
void checkContent(TokenList& t, const ML& m, const char* who)
{
    const TokenList& c = t;
    MC_CHECK(c.size() == m.v.size(), "size", who, ": size ", c.size(), " instead of ", str(m));
    MC_CHECK(c.empty() == m.v.empty(), "empty", who, ": empty() for ", str(m));
    MC_CHECK(t.tokens().size() == m.v.size(), "tokens", who, ": tokens() has ", t.tokens().size());
    for (size_t i = 0; i < m.v.size(); ++i)
    {
        MC_CHECK(holds(t.tokens()[i], m.v[i]), "token-value", who, ": token ", i, " is not ", hv::str(m.v[i]), " in ", str(m));
        MC_CHECK(&t[i] == &t.tokens()[i], "token-identity", who, ": operator[] of ", i);
        withType(m.v[i], [&](auto x)
                 {
                     using T = decltype(x);
                     MC_CHECK(eq(c.get<T>(i), x) && &t.get<T>(i) == &c.get<T>(i), "token-get", who, ": get of token ", i);
                     return 0;
                 });
    }
}
template<typename T>
T valueOf(const T& x) { return x; }
// reads everything that is left through the sequential reader (const or not)
void drain(TokenList& t, ML& m, const char* who, bool viaConst)
{
    const TokenList& c = t;
    while (m.cur < m.v.size())
    {
        Val v = m.v[m.cur];
        bool ok = withType(v, [&](auto x)
                           {
                               using T = decltype(x);
                               try
                               {
                                   return viaConst ? eq(c.next<T>(), x) : eq(valueOf(t.next<T>()), x);
                               }
                               catch (const std::exception&)
                               {
                                   return false;
                               }
                           });
        MC_CHECK(ok, "read-order", who, ": the sequential reader does not deliver ", hv::str(v), " next in ", str(m));
        ++m.cur;
    }
    mc::expectThrow<std::out_of_range>("read-past-end", [&] { if (viaConst) (void)c.next<int>(); else (void)t.next<int>(); }, std::string(who) + ": reading past the end");
    mc::expectThrow<std::out_of_range>("read-past-end", [&] { if (viaConst) (void)c.next<std::string>(); else (void)t.next<std::string>(); }, std::string(who) + ": reading past the end again");
}
void checkAll(TokenList& t, const ML& m, const char* who)
{
    checkContent(t, m, who);
    TokenList copy(t); // a copy continues at the same position
    ML mcopy = m;
    drain(copy, mcopy, who, true);
    checkContent(copy, mcopy, who);
    ML mm = m;
    drain(t, mm, who, false);
    checkContent(t, m, who);
}

struct World
{
    TokenList t, o;
    ML m, mo;
};
const Val VS[] = {{INT, 1}, {STR, 2}, {DBL, 3}};

template<typename T>
void doNext(World& w, bool viaConst, int tag)
{
    const TokenList& c = w.t;
    if (w.m.cur >= w.m.v.size())
        mc::expectThrow<std::out_of_range>("read-past-end", [&] { if (viaConst) (void)c.next<T>(); else (void)w.t.next<T>(); }, "next past the end");
    else if (w.m.v[w.m.cur].tag != tag)
        mc::expectThrow<std::bad_any_cast>("read-wrong-type", [&] { if (viaConst) (void)c.next<T>(); else (void)w.t.next<T>(); }, "next as a wrong type");
    else
    {
        const T* got = nullptr;
        try
        {
            got = viaConst ? &c.next<T>() : &w.t.next<T>();
        }
        catch (const std::exception& e)
        {
            mc::fail("read-fails", mc::cat("next as ", tagName(tag), " failed in ", str(w.m), ": ", e.what()));
        }
        MC_CHECK(eq(*got, std::any_cast<T>(make(w.m.v[w.m.cur]))), "read-value", "next delivered a wrong value in ", str(w.m));
        MC_CHECK(got == std::any_cast<T>(&w.t.tokens()[w.m.cur]), "read-alias", "next does not refer to the stored token");
        ++w.m.cur;
    }
}
template<typename T>
void doPop(World& w, int tag)
{
    if (w.m.v.empty()) mc::expectThrow<std::out_of_range>("pop-empty", [&] { (void)w.t.popFront<T>(); }, "popFront of an empty list");
    else if (w.m.v[0].tag != tag) mc::expectThrow<std::bad_any_cast>("pop-wrong-type", [&] { (void)w.t.popFront<T>(); }, "popFront as a wrong type");
    else
    {
        T got = w.t.popFront<T>();
        MC_CHECK(eq(got, std::any_cast<T>(make(w.m.v[0]))), "pop-value", "popFront delivered a wrong value in ", str(w.m));
        w.m.erase(0);
    }
}
void step(World& w, int op)
{
    if (op < 3)
    {
        MC_STEP("insert ", hv::str(VS[op]));
        w.t.insert(make(VS[op]));
        w.m.v.push_back(VS[op]);
        return;
    }
    op -= 3;
    if (op < 3)
    {
        MC_STEP("remove ", op);
        if (static_cast<size_t>(op) >= w.m.v.size()) mc::prune();
        w.t.remove(static_cast<size_t>(op));
        w.m.erase(static_cast<size_t>(op));
        return;
    }
    op -= 3;
    switch (op)
    {
    case 0: MC_STEP("next<int>"); doNext<int>(w, false, INT); break;
    case 1: MC_STEP("next<string>"); doNext<std::string>(w, false, STR); break;
    case 2: MC_STEP("const next<double>"); doNext<double>(w, true, DBL); break;
    case 3: MC_STEP("const next<int>"); doNext<int>(w, true, INT); break;
    case 4: MC_STEP("popFront<int>"); doPop<int>(w, INT); break;
    case 5: MC_STEP("popFront<string>"); doPop<std::string>(w, STR); break;
    case 6: MC_STEP("popFront<double>"); doPop<double>(w, DBL); break;
    case 7:
        MC_STEP("other = this");
        w.o = w.t;
        w.mo = w.m;
        break;
    case 8:
    {
        MC_STEP("this = copy of other");
        TokenList c(w.o);
        w.t = c;
        w.m = w.mo;
        c.insert(5);
        break;
    }
    case 9:
        MC_STEP("swap");
        std::swap(w.t, w.o);
        std::swap(w.m, w.mo);
        break;
    case 10:
        MC_STEP("observe content");
        checkContent(w.t, w.m, "this");
        break;
    case 11:
        MC_STEP("get<int>(0) = 9 / t[0] = string");
        if (w.m.v.empty()) mc::prune();
        if (w.m.v[0].tag == INT)
        {
            w.t.get<int>(0) = 9;
            w.m.v[0].n = 9;
        }
        else
        {
            w.t[0] = make({STR, 4});
            w.m.v[0] = {STR, 4};
        }
        break;
    case 12:
        MC_STEP("rebuilt from tokens at the second position");
        if (w.m.v.size() < 1) mc::prune();
        w.t = TokenList(std::vector<std::any>(w.t.tokens()), 1);
        w.m.cur = 1;
        break;
    case 13:
        MC_STEP("initializer list");
        w.t = TokenList({make({STR, 1}), make({INT, 2})});
        w.m = ML {{{STR, 1}, {INT, 2}}, 0};
        break;
    }
}
constexpr int NOPS = 20;
void finish(World& w)
{
    mc::noteState(str(w.m) + str(w.mo));
    checkAll(w.t, w.m, "this");
    checkAll(w.o, w.mo, "other");
}
}

MC_SCENARIO(histories, "every history of up to 4 (thorough: 5) of 20 operations on two token lists from empty")
{
    World w;
    int len = choose((mc::thorough() ? 5 : 4) + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    finish(w);
}
MC_SCENARIO(histories_mid_read, "every history of up to 3 (thorough: 4) of 20 operations on a list of four tokens at each reading position")
{
    World w;
    std::vector<Val> v = {{INT, 1}, {STR, 2}, {INT, 3}, {DBL, 4}};
    size_t pos = static_cast<size_t>(choose(5, "position"));
    w.t = TokenList(anys(v), pos);
    w.m = ML {v, pos};
    int len = choose((mc::thorough() ? 4 : 3) + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    finish(w);
}
MC_SCENARIO(own_tokens, "lists of 1..20 tokens whose own tokens are inserted again, assigned to each other, or assigned to the list itself (copied and moved), at every reading position")
{
    size_t n = 1 + static_cast<size_t>(choose(20, "tokens"));
    size_t cur = static_cast<size_t>(choose(3, "position"));
    if (cur > n) mc::prune();
    cur = cur == 2 ? n : cur;
    static const Val kinds[] = {{INT, 3}, {STR, 3}, {BIG, 2}, {TOK, 3}, {DICT, 2}};
    std::vector<Val> v;
    int shift = choose(5, "kinds");
    for (size_t i = 0; i < n; ++i) v.push_back(kinds[(i + size_t(shift)) % 5]);
    TokenList t(anys(v), cur);
    ML m {v, cur};
    size_t at[] = {0, n / 2, n - 1};
    size_t i = at[choose(3, "token")];
    switch (choose(6, "use"))
    {
    case 0:
        MC_STEP("insert(t[", i, "])");
        for (int k = 0; k < 3; ++k) // with and without reallocation
        {
            t.insert(t[i]);
            m.v.push_back(m.v[i]);
        }
        break;
    case 1:
        MC_STEP("insert(tokens()[", i, "]), remove(0)");
        t.insert(t.tokens()[i]);
        m.v.push_back(m.v[i]);
        t.remove(0);
        m.erase(0);
        break;
    case 2:
        MC_STEP("t[0] = t[", i, "]");
        t[0] = t[i];
        m.v[0] = m.v[i];
        break;
    case 3:
        MC_STEP("t = its token ", i);
        if (m.v[i].tag != TOK) mc::prune();
        t = t.get<TokenList>(i);
        m = ML {{{INT, 0}, {INT, 1}, {INT, 2}}, 0};
        break;
    case 4:
        MC_STEP("t = move(its token ", i, ")");
        if (m.v[i].tag != TOK) mc::prune();
        t = std::move(t.get<TokenList>(i));
        m = ML {{{INT, 0}, {INT, 1}, {INT, 2}}, 0};
        break;
    case 5:
    {
        MC_STEP("t = t, then inserted into itself");
        TokenList& self = t;
        t = self;
        t.insert(t);
        const TokenList& in = t.get<TokenList>(n);
        MC_CHECK(in.size() == n, "self-insert", "a list inserted into itself has ", in.size(), " tokens there instead of ", n);
        for (size_t k = 0; k < n; ++k)
            withType(v[k], [&](auto x) { MC_CHECK(eq(in.get<decltype(x)>(k), x), "self-insert", "token ", k); return 0; });
        t.remove(n);
        break;
    }
    }
    checkAll(t, m, "list");
    mc::noteState(str(m));
}
MC_SCENARIO(position_given, "lists of 0..4 tokens built at every reading position up to three past the end: exactly what is left is read, then front removal, insertion, indexed removal")
{
    int n = choose(5, "length"), pos = choose(n + 4, "position"), then = choose(4, "then");
    std::vector<Val> v;
    for (int i = 0; i < n; ++i) v.push_back({i % 2 ? STR : INT, 1 + i});
    TokenList t(anys(v), static_cast<size_t>(pos));
    ML m {v, static_cast<size_t>(pos)};
    MC_STEP("n=", n, " pos=", pos, " then ", then);
    if (then == 1)
    {
        t.insert(make({INT, 7}));
        m.v.push_back({INT, 7});
    }
    if (then == 2 && n)
    {
        t.remove(0);
        m.erase(0);
    }
    if (then == 3 && n)
    {
        MC_CHECK(t.popFront<int>() == 1, "pop-value", "front of ", n);
        m.erase(0);
    }
    mc::noteState(str(m));
    checkAll(t, m, "list");
}
// entries without content are tokens like others, which no typed read accepts
MC_SCENARIO(empty_tokens, "all lists of up to 4 tokens with and without content x from a vector, an initializer list, by insertion: sizes, sequential reads, removals")
{
    int n = choose(5, "length"), how = choose(3, "built");
    std::vector<Val> v;
    std::vector<std::any> a;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(choose(2, "content") ? Val {INT, i} : Val {EMPTY, 0});
        a.push_back(make(v.back()));
    }
    TokenList t;
    if (how == 0) t = TokenList(a);
    else if (how == 1)
        switch (n)
        {
        case 0: t = TokenList(std::initializer_list<std::any> {}); break;
        case 1: t = TokenList(std::initializer_list<std::any> {a[0]}); break;
        case 2: t = TokenList(std::initializer_list<std::any> {a[0], a[1]}); break;
        case 3: t = TokenList(std::initializer_list<std::any> {a[0], a[1], a[2]}); break;
        default: t = TokenList(std::initializer_list<std::any> {a[0], a[1], a[2], a[3]});
        }
    else
        for (auto& x : a) t.insert(x);
    std::string s;
    for (auto& x : v) s += hv::str(x) + " ";
    MC_STEP(s, "built ", how);
    const TokenList& c = t;
    auto content = [&](size_t gone)
    {
        MC_CHECK(c.size() == v.size() - gone && c.empty() == (v.size() == gone), "size", s, ": size ", c.size(), " after ", gone, " removals");
        for (size_t i = gone; i < v.size(); ++i) MC_CHECK(holds(t.tokens()[i - gone], v[i]), "token-value", s, ": token ", i, " after ", gone, " removals");
    };
    content(0);
    size_t read = 0;
    for (auto& x : v)
    {
        if (x.tag == EMPTY)
        {
            mc::expectThrow<std::bad_any_cast>("read-empty", [&] { (void)t.next<int>(); }, s + ": reading an entry without content");
            mc::expectThrow<std::bad_any_cast>("read-empty", [&] { (void)c.next<std::string>(); }, s + ": reading an entry without content");
            mc::expectThrow<std::bad_any_cast>("read-empty", [&] { (void)c.get<int>(read); }, s + ": reading an entry without content");
            break;
        }
        MC_CHECK(t.next<int>() == x.n, "read-order", s, ": token ", read);
        ++read;
    }
    content(0);
    for (size_t gone = 0; gone < v.size(); ++gone)
    {
        if (v[gone].tag == EMPTY)
        {
            mc::expectThrow<std::bad_any_cast>("pop-empty-token", [&] { (void)t.popFront<int>(); }, s + ": taking an entry without content");
            content(gone);
            t.remove(0);
        }
        else MC_CHECK(t.popFront<int>() == v[gone].n, "pop-value", s, ": token ", gone);
        content(gone + 1);
    }
    mc::noteState(s + std::to_string(how));
}
MC_SCENARIO(position_and_removal, "every list length 0..9 x reading position x removal of every token / front removal, twice, then read to the end")
{
    int n = choose(10, "length"), pos = choose(n + 1, "position");
    std::vector<Val> v;
    for (int i = 0; i < n; ++i) v.push_back({INT, 10 + i});
    TokenList t(anys(v));
    ML m {v, 0};
    for (int i = 0; i < pos; ++i)
    {
        MC_CHECK(t.next<int>() == 10 + i, "read-order", "token ", i, " of ", n);
        ++m.cur;
    }
    for (int round = 0; round < 2; ++round)
    {
        if (m.v.empty()) break;
        int k = choose(static_cast<int>(m.v.size()) + 1, "victim");
        MC_STEP("n=", n, " pos=", pos, " victim ", k);
        if (k == static_cast<int>(m.v.size()))
        {
            int x = t.popFront<int>();
            MC_CHECK(x == m.v[0].n, "pop-value", "popFront gives ", x, " instead of ", m.v[0].n);
            m.erase(0);
        }
        else
        {
            t.remove(static_cast<size_t>(k));
            m.erase(static_cast<size_t>(k));
        }
    }
    mc::noteState(str(m));
    checkAll(t, m, "list");
}
MC_SCENARIO(token_types, "every token type out of 17 between two others: sequential read, front removal, indexed read; every wrong requested type first (nothing consumed)")
{
    Val v {choose(NTAGS, "type"), choose(2, "n")};
    int wrong = choose(NTAGS, "requested first");
    int how = choose(3, "next/const next/popFront");
    TokenList t;
    ML m;
    Val pre {INT, 5}, post {STR, 2};
    if (how != 2)
    {
        t.insert(make(pre));
        m.v.push_back(pre);
    }
    for (Val x : {v, post})
    {
        t.insert(make(x));
        m.v.push_back(x);
    }
    if (how != 2)
    {
        MC_CHECK(t.next<int>() == 5, "read-order", "first token");
        m.cur = 1;
    }
    const TokenList& c = t;
    MC_STEP(str(v), " requested as ", tagName(wrong), " how ", how);
    if (wrong != v.tag)
    {
        withTag(wrong, [&](auto x)
                {
                    using T = decltype(x);
                    auto f = [&]
                    {
                        if (how == 0) (void)t.next<T>();
                        else if (how == 1) (void)c.next<T>();
                        else (void)t.popFront<T>();
                    };
                    mc::expectThrow<std::bad_any_cast>("read-wrong-type", f, "reading " + str(v) + " as " + tagName(wrong));
                    mc::expectThrow<std::bad_any_cast>("get-wrong-type", [&] { (void)c.get<T>(m.cur); }, "const get of " + str(v) + " as " + tagName(wrong));
                    mc::expectThrow<std::bad_any_cast>("get-wrong-type", [&] { (void)t.get<T>(m.cur); }, "get of " + str(v) + " as " + tagName(wrong));
                    return 0;
                });
    }
    if (how == 2)
    {
        bool ok = withType(v, [&](auto x) { using T = decltype(x); return eq(t.popFront<T>(), x); });
        MC_CHECK(ok, "pop-value", "popFront of ", str(v));
        m.erase(0);
    }
    mc::noteState(str(m) + std::to_string(how));
    checkAll(t, m, "list");
}
MC_SCENARIO(growth, "lists of every length 0..40: append one at a time while reading ahead by every lag 0..5; order and values exact, copies taken half way stay behind")
{
    int n = choose(41, "length"), lag = choose(6, "lag");
    TokenList t;
    ML m;
    TokenList half;
    ML mh;
    for (int i = 0; i < n; ++i)
    {
        Val v {i % NTAGS, i % 7};
        t.insert(make(v));
        m.v.push_back(v);
        if (i == n / 2)
        {
            half = t;
            mh = m;
        }
        if (static_cast<int>(m.v.size() - m.cur) > lag)
        {
            Val e = m.v[m.cur];
            bool ok = withType(e, [&](auto x) { using T = decltype(x); return eq(valueOf(t.next<T>()), x); });
            MC_CHECK(ok, "read-order", "token ", m.cur, " of ", m.v.size());
            ++m.cur;
        }
        mc::countStep();
    }
    mc::noteState(str(m));
    checkAll(t, m, "list");
    checkAll(half, mh, "copy");
}
MC_SCENARIO(large, "lists of 12 sizes around the usual limits up to 70000 (thorough: 140000), read by next from either end of the position range, tokens removed at 5 places before or behind the reading position or taken from the front, const and mutable: every remaining token delivered once, in order, then an error")
{
    static const int N[] = {33, 64, 65, 128, 129, 255, 256, 257, 1024, 32769, 65537, 70000};
    int n = N[choose(12, "size")];
    if (mc::thorough() && n == 70000) n *= 2;
    int how = choose(3, "built"), readBefore = choose(3, "read before"), victim = choose(7, "removed"), constRead = choose(2, "read as const");
    std::vector<std::any> init;
    TokenList t;
    if (how == 0)
        for (int i = 0; i < n; ++i) t.insert(i * 3);
    else
    {
        for (int i = 0; i < n; ++i) init.push_back(i * 3);
        t = how == 1 ? TokenList(init) : TokenList(init, 0);
    }
    std::vector<int> m;
    for (int i = 0; i < n; ++i) m.push_back(i * 3);
    size_t cur = 0;
    int pre = readBefore == 0 ? 0 : readBefore == 1 ? n / 2 : n - 1;
    std::string what = mc::cat(n, " tokens, built ", how, ", ", pre, " read, removed ", victim);
    MC_STEP(what);
    for (int i = 0; i < pre; ++i) MC_CHECK(t.next<int>() == m[cur++], "read-order", what, ": token ", i);
    TokenList copy = t;
    size_t copyCur = cur;
    auto cm = m;
    size_t at[] = {0, 1, size_t(n) / 2, size_t(n) - 2, size_t(n) - 1};
    if (victim < 5)
    {
        t.remove(at[victim]);
        m.erase(m.begin() + long(at[victim]));
        if (cur > at[victim]) --cur;
    }
    else if (victim == 5)
    {
        MC_CHECK(t.popFront<int>() == m[0], "pop-value", what);
        m.erase(m.begin());
        if (cur) --cur;
    }
    MC_CHECK(t.size() == m.size(), "size", what, ": ", t.size(), " instead of ", m.size());
    auto rest = [&](TokenList& l, const std::vector<int>& e, size_t c, const char* who)
    {
        for (size_t i = 0; i < e.size(); ++i) MC_CHECK(l.get<int>(i) == e[i], "token-value", what, ", ", who, ": token ", i, " is ", l.get<int>(i));
        const TokenList& cl = l;
        for (; c < e.size(); ++c)
        {
            int x = constRead ? cl.next<int>() : l.next<int>();
            MC_CHECK(x == e[c], "read-order", what, ", ", who, ": reading gives ", x, " where token ", c, " is ", e[c]);
        }
        for (int k = 0; k < 2; ++k)
            mc::expectAnyError("read-past-end", [&]
            {
                if (constRead) (void)cl.next<int>();
                else (void)l.next<int>();
            }, what + ", reading on at the end");
    };
    rest(t, m, cur, "list");
    rest(copy, cm, copyCur, "copy");
    mc::noteState(what);
}
MC_SCENARIO(nested_lists, "lists of 0..3 tokens read up to every position, kept as a token of another list or as an entry of a dictionary at every place, then copied, assigned, moved, taken out or read in place: the inner list goes on where it was, independently of every copy")
{
    int n = choose(4, "tokens"), pos = choose(n + 1, "position"), place = choose(3, "place"), how = choose(4, "stored"), then = choose(6, "then");
    std::vector<Val> v;
    for (int i = 0; i < n; ++i) v.push_back({i % 2 ? STR : INT, 1 + i});
    TokenList inner(anys(v));
    for (int i = 0; i < pos; ++i)
    {
        if (i % 2) (void)inner.next<std::string>();
        else (void)inner.next<int>();
    }
    ML m {v, static_cast<size_t>(pos)};
    MC_STEP(n, " tokens at ", pos, " stored ", how, " at ", place, " then ", then);
    TokenList t;
    Dictionary d;
    size_t at = static_cast<size_t>(place);
    if (how < 3)
    {
        std::vector<std::any> a {1, 2};
        a.insert(a.begin() + place, inner);
        if (how == 0)
            for (auto& x : a) t.insert(x);
        else if (how == 1) t = TokenList(a);
        else t = TokenList({a[0], a[1], a[2]});
    }
    else d.insert("list", inner);
    auto stored = [&](TokenList& o, Dictionary& e) -> TokenList& { return how < 3 ? o.get<TokenList>(at) : e.get<TokenList>("list"); };
    TokenList before(stored(t, d));
    checkAll(before, m, "copy of the stored list");
    switch (then)
    {
    case 0: break;
    case 1:
    {
        TokenList c(t);
        Dictionary e(d);
        TokenList& other = stored(c, e);
        ML mm = m;
        drain(other, mm, "list in a copy", false);
        break;
    }
    case 2:
    {
        TokenList c;
        Dictionary e;
        c = t;
        e = d;
        TokenList& own = stored(t, d);
        ML mm = m;
        drain(own, mm, "list in the source", true);
        t = c;
        d = e;
        break;
    }
    case 3:
        t.insert(8); // with reallocation
        t.insert(9);
        d.insert("more", 9);
        break;
    case 4:
        if (how == 3) mc::prune();
        for (size_t i = 0; i < at; ++i) t.remove(0);
        {
            TokenList out = t.popFront<TokenList>();
            TokenList look(out);
            checkAll(look, m, "list taken out");
            t = TokenList({std::any(out)});
            at = 0;
        }
        break;
    case 5:
    {
        TokenList c(std::move(t));
        Dictionary e(std::move(d));
        t = std::move(c);
        d = std::move(e);
        break;
    }
    }
    checkAll(stored(t, d), m, "stored list");
    mc::noteState(mc::cat(n, pos, place, how, then));
}
