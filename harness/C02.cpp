#include "values.hpp"
#include <memory>
using namespace hv;
using mc::choose;

namespace
{
// model: a tree with value semantics
struct Tree
{
    std::map<std::string, Val> leaf;
    std::map<std::string, Tree> sub;
    bool has(const std::string& k) const { return leaf.count(k) || sub.count(k); }
    void setLeaf(const std::string& k, Val v)
    {
        sub.erase(k);
        leaf[k] = v;
    }
    void setSub(const std::string& k, const Tree& t)
    {
        Tree copy = t;
        leaf.erase(k);
        sub[k] = copy;
    }
    void erase(const std::string& k)
    {
        leaf.erase(k);
        sub.erase(k);
    }
};
std::string str(const Tree& t)
{
    std::string s = "{";
    for (auto& [k, v] : t.leaf) s += k + "=" + hv::str(v) + " ";
    for (auto& [k, v] : t.sub) s += k + str(v) + " ";
    return s + "}";
}
const std::vector<std::string> UNI = {"a", "b", "x", "y", "z", "w", "s", "self", "absent", ""};

void checkTree(Dictionary& d, const Tree& t, const std::string& who)
{
    const Dictionary& c = d;
    std::vector<std::string> want;
    for (auto& [k, v] : t.leaf) want.push_back(k);
    for (auto& [k, v] : t.sub) want.push_back(k);
    std::sort(want.begin(), want.end());
    auto ks = c.keys();
    std::sort(ks.begin(), ks.end());
    MC_CHECK(ks == want, "nested-keys", who, ": holds ", ks.size(), " keys, the model ", str(t));
    MC_CHECK(c.empty() == want.empty(), "nested-empty", who, ": empty() is ", c.empty(), " for ", str(t));
    for (auto& k : UNI)
    {
        MC_CHECK(c.contains(k) == t.has(k), "nested-membership", who, ": contains('", k, "')");
        MC_CHECK(c.isDict(k) == (t.sub.count(k) > 0), "isDict", who, ": isDict('", k, "') is ", c.isDict(k), " for ", str(t));
    }
    for (auto& [k, v] : t.leaf)
    {
        MC_CHECK(holds(c[k], v), "nested-value", who, ": '", k, "' is not ", hv::str(v));
        mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)d.subDict(k); }, who + ": subDict('" + k + "') of a plain value");
        mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)c.subDict(k); }, who + ": const subDict('" + k + "') of a plain value");
    }
    for (auto& [k, v] : t.sub)
    {
        Dictionary& s = d.subDict(k);
        MC_CHECK(&s == &c.subDict(k) && &s == &d.get<Dictionary>(k) && &s == &c.get<Dictionary>(k) && &s == std::any_cast<Dictionary>(&d[k]), "sub-identity", who, ": the ways to reach '", k, "' give different objects");
        checkTree(s, v, who + "/" + k);
    }
    mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)d.subDict("absent"); }, who + ": subDict of an absent key");
    mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)c.subDict("absent"); }, who + ": const subDict of an absent key");
}

struct World
{
    Dictionary p, s;
    Tree mp, ms;
    Dictionary* hold = nullptr;
};

// runs f on the sub-dictionary if the model has it; otherwise the access must fail
template<typename F>
void onSub(Dictionary& d, Tree& t, const std::string& k, F&& f)
{
    if (t.sub.count(k)) f(d.subDict(k), t.sub[k]);
    else if (t.leaf.count(k)) mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)d.subDict(k); }, "subDict('" + k + "') of a value");
    else mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)d.subDict(k); }, "subDict('" + k + "') of an absent key");
}
void leafIn(Dictionary& d, Tree& t, const std::string& k, int n)
{
    d.insert(k, n);
    t.setLeaf(k, {INT, n});
}
Dictionary nest(Tree& t)
{
    Dictionary in;
    in.insert("y", 1);
    Dictionary a;
    a.insert("b", in);
    a.insert("x", 2);
    t = Tree();
    t.setLeaf("x", {INT, 2});
    Tree ti;
    ti.setLeaf("y", {INT, 1});
    t.setSub("b", ti);
    return a;
}
const char* OPS[] = {"P.insert(a,{})", "P.insert(a,nested)", "P.insert(a,5)", "P.sub(a).insert(x,1)", "P.sub(a).insert(b,{y})", "P.sub(a).sub(b).insert(y,3)", "P.sub(a).remove(x)", "P.get<Dictionary>(a).insert(z,4)", "any_cast(P[a]).insert(w,5)", "hold=&P.sub(a)", "hold->insert(x,7)", "hold->sub(b).remove(y)", "S=P", "S=P.sub(a)", "P=S", "P.sub(a)=S", "S.sub(a).insert(x,9)", "P.insert 24 keys, remove them", "P.remove(a)", "P.insert(s,S)", "P.insert(self,P)", "observe", "P=move(S)", "P.sub(a)=P.sub(a).sub(b)", "hold->clear by assignment", "P=P.sub(a)", "P=move(P.sub(a))", "P.sub(a)=P", "P.insert(x,P[a])"};
constexpr int NOPS = 29;

void step(World& w, int op)
{
    MC_STEP(OPS[op]);
    Tree t;
    switch (op)
    {
    case 0:
        w.p.insert("a", Dictionary());
        w.mp.setSub("a", Tree());
        w.hold = nullptr;
        break;
    case 1:
        w.p.insert("a", nest(t));
        w.mp.setSub("a", t);
        w.hold = nullptr;
        break;
    case 2:
        w.p.insert("a", 5);
        w.mp.setLeaf("a", {INT, 5});
        w.hold = nullptr;
        break;
    case 3: onSub(w.p, w.mp, "a", [](Dictionary& d, Tree& t) { leafIn(d, t, "x", 1); }); break;
    case 4:
        onSub(w.p, w.mp, "a", [](Dictionary& d, Tree& t)
              {
                  Dictionary in;
                  Tree ti;
                  leafIn(in, ti, "y", 2);
                  d.insert("b", in);
                  t.setSub("b", ti);
                  in.insert("y", 99); // the stored one is a copy
              });
        break;
    case 5:
        onSub(w.p, w.mp, "a", [](Dictionary& d, Tree& t) { onSub(d, t, "b", [](Dictionary& e, Tree& u) { leafIn(e, u, "y", 3); }); });
        break;
    case 6:
        onSub(w.p, w.mp, "a", [](Dictionary& d, Tree& t)
              {
                  d.remove("x");
                  t.erase("x");
              });
        break;
    case 7:
        if (!w.mp.sub.count("a")) mc::prune();
        leafIn(w.p.get<Dictionary>("a"), w.mp.sub["a"], "z", 4);
        break;
    case 8:
        if (!w.mp.sub.count("a")) mc::prune();
        leafIn(std::any_cast<Dictionary&>(w.p["a"]), w.mp.sub["a"], "w", 5);
        break;
    case 9:
        if (!w.mp.sub.count("a")) mc::prune();
        w.hold = &w.p.subDict("a");
        break;
    case 10:
        if (!w.hold) mc::prune();
        leafIn(*w.hold, w.mp.sub["a"], "x", 7);
        break;
    case 11:
        if (!w.hold) mc::prune();
        onSub(*w.hold, w.mp.sub["a"], "b", [](Dictionary& d, Tree& t)
              {
                  d.remove("y");
                  t.erase("y");
              });
        break;
    case 12:
        w.s = w.p;
        w.ms = w.mp;
        break;
    case 13:
        onSub(w.p, w.mp, "a", [&](Dictionary& d, Tree& t)
              {
                  w.s = d;
                  w.ms = t;
              });
        break;
    case 14:
        w.p = w.s;
        w.mp = w.ms;
        w.hold = nullptr;
        break;
    case 15:
        onSub(w.p, w.mp, "a", [&](Dictionary& d, Tree& t)
              {
                  d = w.s;
                  t = Tree(w.ms);
              });
        break;
    case 16: onSub(w.s, w.ms, "a", [](Dictionary& d, Tree& t) { leafIn(d, t, "x", 9); }); break;
    case 17:
        for (int i = 0; i < 24; ++i) w.p.insert("fill" + std::to_string(i), i);
        if (w.hold) MC_CHECK(w.hold == &w.p.subDict("a"), "sub-moved", "the stored sub-dictionary moved while other keys were inserted");
        for (int i = 0; i < 24; ++i) w.p.remove("fill" + std::to_string(i));
        break;
    case 18:
        w.p.remove("a");
        w.mp.erase("a");
        w.hold = nullptr;
        break;
    case 19:
        w.p.insert("s", w.s);
        w.mp.setSub("s", w.ms);
        break;
    case 20:
    {
        Tree copy = w.mp;
        w.p.insert("self", w.p);
        w.mp.setSub("self", copy);
        break;
    }
    case 21: checkTree(w.p, w.mp, "P"); break;
    case 22:
        w.p = std::move(w.s);
        w.s = Dictionary();
        w.mp = w.ms;
        w.ms = Tree();
        w.hold = nullptr;
        break;
    case 23:
        onSub(w.p, w.mp, "a", [&](Dictionary& d, Tree& t)
              { onSub(d, t, "b", [&](Dictionary& e, Tree& u)
                      {
                          Tree tu(u);
                          d = e; // a part of itself
                          t = tu;
                      }); });
        break;
    case 24:
        if (!w.hold) mc::prune();
        *w.hold = Dictionary();
        w.mp.sub["a"] = Tree();
        break;
    case 25:
    case 26:
        onSub(w.p, w.mp, "a", [&](Dictionary& d, Tree& t)
              {
                  Tree tu(t);
                  if (op == 25) w.p = d;
                  else w.p = std::move(d);
                  w.mp = tu;
              });
        w.hold = nullptr;
        break;
    case 27:
        onSub(w.p, w.mp, "a", [&](Dictionary& d, Tree& t)
              {
                  Tree tp(w.mp);
                  d = w.p;
                  t = tp;
              });
        break;
    case 28:
        if (!w.mp.sub.count("a")) mc::prune();
        {
            Tree tu = w.mp.sub["a"];
            w.p.insert("x", w.p["a"]);
            w.mp.setSub("x", tu);
        }
        break;
    }
}
void finish(World& w)
{
    checkTree(w.p, w.mp, "P");
    checkTree(w.s, w.ms, "S");
    mc::noteState(str(w.mp) + str(w.ms) + (w.hold ? "h" : ""));
}
}

MC_SCENARIO(nested_from_filled, "every history of up to 3 (thorough: 4) of 29 operations on a parent (P) with a three-level content, plus snapshot S")
{
    World w;
    Tree t;
    w.p.insert("a", nest(t));
    w.mp.setSub("a", t);
    w.p.insert("x", 8);
    w.mp.setLeaf("x", {INT, 8});
    if (choose(2, "snapshot first"))
    {
        w.s = w.p;
        w.ms = w.mp;
    }
    if (choose(2, "hold first")) w.hold = &w.p.subDict("a");
    int len = choose((mc::thorough() ? 4 : 3) + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    finish(w);
}
MC_SCENARIO(nested_from_empty, "every history of up to 4 (thorough: 5) of 29 operations from empty dictionaries")
{
    World w;
    int len = choose((mc::thorough() ? 5 : 4) + 1, "length");
    for (int i = 0; i < len; ++i) step(w, choose(NOPS, "op"));
    finish(w);
}

// depth: nests of any depth, an edit at any level, a snapshot taken at any level
MC_SCENARIO(depth, "all nesting depths 1..7, snapshot at every level, edit (insert, overwrite, remove, replace whole level) at every level, reached by const/mutable/typed access")
{
    int n = 1 + choose(7, "depth");
    auto key = [](int i) { return "L" + std::to_string(i); };
    Dictionary leaf;
    leaf.insert("v", 0);
    Dictionary d = leaf;
    for (int i = n - 1; i >= 0; --i)
    {
        Dictionary o;
        o.insert(key(i), d);
        o.insert("v", i);
        d = o;
    }
    auto at = [&](Dictionary& root, int lvl, int way) -> Dictionary*
    {
        Dictionary* p = &root;
        for (int i = 0; i < lvl; ++i)
        {
            if (way == 0) p = &p->subDict(key(i));
            else if (way == 1) p = &p->get<Dictionary>(key(i));
            else p = const_cast<Dictionary*>(&static_cast<const Dictionary*>(p)->subDict(key(i)));
        }
        return p;
    };
    int snapLvl = choose(n + 1, "snapshot level"), editLvl = choose(n + 1, "edit level"), kind = choose(4, "edit"), way = choose(3, "way"), who = choose(2, "edit which");
    MC_STEP("depth ", n, " snapshot@", snapLvl, " edit@", editLvl, " kind ", kind);
    Dictionary snap = *at(d, snapLvl, 2);
    int base = snapLvl;
    // edit either the original or the snapshot
    Dictionary* target = nullptr;
    if (who == 0) target = at(d, editLvl, way);
    else
    {
        if (editLvl < base) mc::prune();
        Dictionary* p = &snap;
        for (int i = base; i < editLvl; ++i) p = &p->subDict(key(i));
        target = p;
    }
    auto value = [&](int lvl) { return lvl == n ? 0 : lvl; };
    if (kind == 0) target->insert("new", 1);
    if (kind == 1) target->insert("v", 77);
    if (kind == 2) target->remove("v");
    if (kind == 3) *target = Dictionary({{"only", 1}});
    auto check = [&](Dictionary* p, int lvl, bool edited, const char* name)
    {
        for (;;)
        {
            bool here = edited && lvl == editLvl;
            if (here && kind == 3)
            {
                MC_CHECK(p->keys().size() == 1 && p->get<int>("only") == 1, "nested-edit", name, ": replaced level ", lvl);
                return;
            }
            if (here && kind == 2) MC_CHECK(!p->contains("v"), "nested-edit", name, ": removed entry still at level ", lvl);
            else MC_CHECK(p->get<int>("v") == (here && kind == 1 ? 77 : value(lvl)), "nested-edit", name, ": v at level ", lvl, " is ", p->get<int>("v"));
            MC_CHECK(p->contains("new") == (here && kind == 0), "nested-edit", name, ": new at level ", lvl);
            size_t want = (lvl < n ? 1u : 0u) + 1u + (here && kind == 0) - (here && kind == 2);
            MC_CHECK(p->keys().size() == want, "nested-edit", name, ": ", p->keys().size(), " keys at level ", lvl);
            if (lvl == n) return;
            MC_CHECK(p->isDict(key(lvl)), "isDict", name, ": level ", lvl);
            p = &p->subDict(key(lvl));
            ++lvl;
        }
    };
    check(&d, 0, who == 0, "original");
    check(&snap, base, who == 1, "snapshot");
    mc::noteState(mc::cat(n, snapLvl, editLvl, kind, way, who));
}

// isDict for every stored type, including types related to dictionaries
MC_SCENARIO(isdict_types, "isDict and subDict for each of 17 stored types under 10 keys, absent and removed keys, const and mutable")
{
    Val v {choose(NTAGS, "type"), choose(2, "n")};
    int mode = choose(3, "present/absent/removed");
    static const char* KEY[] = {"x", "", "_x", "x.y", "x/y", "*", "#x", "$x", "defaultX", "id"};
    const std::string k = KEY[choose(10, "key")];
    Dictionary d;
    d.insert("pad", Dictionary());
    if (mode != 1) d.insert(k, make(v));
    if (mode == 2) d.remove(k);
    const Dictionary& c = d;
    MC_STEP(str(v), " mode ", mode);
    bool want = mode == 0 && v.tag == DICT;
    MC_CHECK(c.isDict(k) == want, "isDict", "isDict is ", c.isDict(k), " for ", str(v), " mode ", mode);
    MC_CHECK(c.isDict("pad"), "isDict", "pad");
    if (mode == 0 && v.tag != DICT) mc::expectThrow<std::bad_any_cast>("subDict-of-value", [&] { (void)d.subDict(k); }, "subDict of " + str(v));
    if (mode != 0) mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)c.subDict(k); }, "subDict of an absent key");
    if (want) MC_CHECK(eq(d.subDict(k), std::any_cast<Dictionary>(make(v))), "sub-content", "content of ", str(v));
    MC_CHECK(d.contains(k) == (mode == 0), "access-inserts", "asking changed the membership");
    mc::noteState(str(v) + std::to_string(mode) + k);
}
MC_SCENARIO(wide_and_deep, "sub-dictionaries of 9 sizes up to 1025 entries at 3 depths up to 60: recognised, reached and edited in place through the parent, independent of copies taken before, gone completely when replaced or removed")
{
    static const int N[] = {0, 1, 15, 16, 17, 64, 129, 257, 1025};
    static const int D[] = {1, 8, 60};
    int n = N[choose(9, "entries")], depth = D[choose(3, "depth")], way = choose(3, "access"), end = choose(3, "end");
    Dictionary leaf;
    for (int i = 0; i < n; ++i) leaf.insert(mc::cat("e", i), i);
    Dictionary d = leaf;
    for (int i = depth; i-- > 0;)
    {
        Dictionary o;
        o.insert("sub", d);
        o.insert("level", i);
        d = o;
    }
    auto reach = [&](Dictionary& root, int levels)
    {
        Dictionary* p = &root;
        for (int i = 0; i < levels; ++i)
        {
            const Dictionary* cp = p;
            MC_CHECK(cp->isDict("sub"), "isDict", "level ", i, " of ", depth, " with ", n, " entries at the end is not a dictionary");
            MC_CHECK(!cp->isDict("level"), "isDict", "a number is a dictionary");
            const Dictionary* q = &cp->subDict("sub");
            p = way == 0 ? &p->subDict("sub") : way == 1 ? &p->get<Dictionary>("sub") : std::any_cast<Dictionary>(&(*p)["sub"]);
            MC_CHECK(p == q, "identity", "level ", i, ": const and mutable access differ");
        }
        return p;
    };
    auto content = [&](Dictionary& l, int changed, bool added, const char* who)
    {
        MC_CHECK(l.keys().size() == size_t(n + (added ? 1 : 0)), "sub-content", who, ": ", l.keys().size(), " entries instead of ", n + (added ? 1 : 0));
        for (int i = 0; i < n; ++i) MC_CHECK(l.contains(mc::cat("e", i)) && l.get<int>(mc::cat("e", i)) == (i == changed ? -7 : i), "sub-content", who, ": entry ", i);
    };
    MC_STEP(n, " entries at depth ", depth);
    content(*reach(d, depth), -1, false, "original");
    Dictionary snapshot = d;
    Dictionary sub = *reach(d, depth);
    int k = n / 2;
    Dictionary& l = *reach(d, depth);
    if (n) l[mc::cat("e", k)] = -7;
    l.insert("added", 1);
    content(*reach(d, depth), n ? k : -1, true, "edited in place");
    content(*reach(snapshot, depth), -1, false, "snapshot");
    content(sub, -1, false, "copy of the sub-dictionary");
    Dictionary* parent = reach(d, depth - 1);
    if (end == 0)
    {
        parent->remove("sub");
        MC_CHECK(!parent->contains("sub") && !parent->isDict("sub"), "removed", "still there after removal");
        mc::expectThrow<std::out_of_range>("subDict-absent", [&] { (void)parent->subDict("sub"); }, "subDict after removal");
    }
    else if (end == 1)
    {
        parent->insert("sub", Dictionary());
        MC_CHECK(parent->isDict("sub") && parent->subDict("sub").empty(), "replaced", "replacing kept old entries");
    }
    else
    {
        parent->insert("sub", sub);
        content(*reach(d, depth), -1, false, "replaced by the copy");
        reach(d, depth)->insert("added", 2);
        content(sub, -1, false, "copy after an edit of what it was inserted as");
    }
    content(*reach(snapshot, depth), -1, false, "snapshot at the end");
    mc::noteState(mc::cat(n, depth, way, end));
}
