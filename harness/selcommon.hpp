#pragma once
#include "sel.hpp"
#include "mc.hpp"
#include <algorithm>
#include <set>
namespace sel
{
inline std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
inline std::vector<std::string> namesOf(const std::string& base)
{
    std::vector<std::string> r;
    for (auto& e : expected())
        if (base == e.base) r.push_back(e.name);
    return sorted(r);
}
inline const std::vector<std::string>& bases()
{
    static const std::vector<std::string> b = {"Shape", "Model", "Nullary", "Solo", "Owner", "Interp<int>", "Interp<double>"};
    return b;
}
// calls f with a null pointer to the base class of that name
template<typename F>
auto withBase(const std::string& b, F&& f)
{
    if (b == "Shape") return f(static_cast<Shape*>(nullptr));
    if (b == "Model") return f(static_cast<Model*>(nullptr));
    if (b == "Nullary") return f(static_cast<Nullary*>(nullptr));
    if (b == "Solo") return f(static_cast<Solo*>(nullptr));
    if (b == "Owner") return f(static_cast<Owner*>(nullptr));
    if (b == "Interp<int>") return f(static_cast<Interp<int>*>(nullptr));
    return f(static_cast<Interp<double>*>(nullptr));
}
// creates `name` through base b with arguments derived from k and checks what arrives
template<typename B>
std::string createAndCheck(const std::string& n, int k)
{
    if constexpr (std::is_same_v<B, Shape>)
    {
        std::string label = "label" + std::to_string(k);
        auto p = Shape::create(n, label, k, 10 * k + 1);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        MC_CHECK(p->label == label && p->a == k && p->b == 10 * k + 1, "arguments", "'", n, "' received (", p->label, ",", p->a, ",", p->b, ")");
        return p->what();
    }
    else if constexpr (std::is_same_v<B, Model>)
    {
        Dictionary d;
        d.insert("k", k);
        double x = k;
        auto p = Model::create(n, d, x);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        MC_CHECK(p->dict == &d && p->x == &x, "arguments", "'", n, "' received other objects than the referenced ones");
        return p->what();
    }
    else if constexpr (std::is_same_v<B, Nullary>)
    {
        auto p = Nullary::create(n);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        return p->what();
    }
    else if constexpr (std::is_same_v<B, Solo>)
    {
        auto p = Solo::create(n, 3 * k);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        MC_CHECK(p->k == 3 * k, "arguments", "'", n, "' received ", p->k);
        return p->what();
    }
    else if constexpr (std::is_same_v<B, Owner>)
    {
        auto i = std::make_unique<int>(k);
        int* raw = i.get();
        Dictionary d;
        d.insert("k", k);
        NeoFOAM::TokenList t;
        t.insert(k);
        Input in = k % 2 ? Input(d) : Input(t);
        auto p = Owner::create(n, std::move(i), in);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        MC_CHECK(p->p.get() == raw && *p->p == k && p->in.index() == in.index(), "arguments", "'", n, "' received other arguments");
        if (k % 2) MC_CHECK(std::get<Dictionary>(p->in).get<int>("k") == k, "arguments", "dictionary");
        else MC_CHECK(std::get<NeoFOAM::TokenList>(p->in).next<int>() == k, "arguments", "token list");
        return p->what();
    }
    else
    {
        using V = std::remove_cv_t<std::remove_pointer_t<decltype(std::declval<B>().v)>>;
        V v(static_cast<size_t>(k), 1);
        auto p = B::create(n, v, k);
        MC_CHECK(p != nullptr, "create-null", "no object for '", n, "'");
        MC_CHECK(p->v == &v && p->i == k, "arguments", "'", n, "' received other arguments");
        return p->what();
    }
}
}
