// Selectable bases and classes spread over several translation units (linked in every order).
#pragma once
#include "mc.hpp"
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/core/input.hpp"

namespace sel
{
using NeoFOAM::Dictionary;
using NeoFOAM::Input;
using NeoFOAM::Parameters;
using NeoFOAM::RuntimeSelectionFactory;

// 1: by value, two arguments of the same type so that swapped arguments show
class Shape : public RuntimeSelectionFactory<Shape, Parameters<std::string, int, int>>
{
public:
    static std::string name() { return "Shape"; }
    Shape(std::string n, int a, int b) : label(n), a(a), b(b) {}
    virtual ~Shape() = default;
    virtual std::string what() const = 0;
    std::string label;
    int a, b;
};
// 2: references; class names overlapping with Shape's
class Model : public RuntimeSelectionFactory<Model, Parameters<const Dictionary&, double&>>
{
public:
    static std::string name() { return "Model"; }
    Model(const Dictionary& d, double& x) : dict(&d), x(&x) {}
    virtual ~Model() = default;
    virtual std::string what() const = 0;
    const Dictionary* dict;
    double* x;
};
// 3: no arguments
class Nullary : public RuntimeSelectionFactory<Nullary, Parameters<>>
{
public:
    static std::string name() { return "Nullary"; }
    virtual ~Nullary() = default;
    virtual std::string what() const = 0;
};
// 4: move-only and variant arguments
class Owner : public RuntimeSelectionFactory<Owner, Parameters<std::unique_ptr<int>, Input>>
{
public:
    static std::string name() { return "Owner"; }
    Owner(std::unique_ptr<int> p, Input in) : p(std::move(p)), in(std::move(in)) {}
    virtual ~Owner() = default;
    virtual std::string what() const = 0;
    std::unique_ptr<int> p;
    Input in;
};
// a base with a single class
class Solo : public RuntimeSelectionFactory<Solo, Parameters<int>>
{
public:
    static std::string name() { return "Solo"; }
    explicit Solo(int k) : k(k) {}
    virtual ~Solo() = default;
    virtual std::string what() const = 0;
    int k;
};
// 5: template base, one per value type
template<typename T>
class Interp : public RuntimeSelectionFactory<Interp<T>, Parameters<const std::vector<T>&, int>>
{
public:
    static std::string name() { return sizeof(T) == sizeof(int) ? "Interp<int>" : "Interp<double>"; }
    Interp(const std::vector<T>& v, int i) : v(&v), i(i) {}
    virtual ~Interp() = default;
    virtual std::string what() const = 0;
    const std::vector<T>* v;
    int i;
};

#define SEL_PARAMS_Shape (std::string n, int a, int b)
#define SEL_ARGS_Shape (n, a, b)
#define SEL_PARAMS_Model (const Dictionary& d, double& x)
#define SEL_ARGS_Model (d, x)
#define SEL_PARAMS_Nullary ()
#define SEL_ARGS_Nullary ()
#define SEL_PARAMS_Solo (int k)
#define SEL_ARGS_Solo (k)
#define SEL_PARAMS_Owner (std::unique_ptr<int> p, Input in)
#define SEL_ARGS_Owner (std::move(p), std::move(in))
#define SEL_PARAMS_InterpD (const std::vector<double>& v, int i)
#define SEL_ARGS_InterpD (v, i)
using InterpD = Interp<double>;

#define SEL_CLASS(BASE, CLS, NAME) SEL_CLASS_TEXTS(BASE, CLS, NAME, "doc of " #CLS, "schema of " #CLS)
#define SEL_CLASS_TEXTS(BASE, CLS, NAME, DOC, SCHEMA)                                                                      \
    class CLS : public BASE::template Register<CLS>                                                \
    {                                                                                              \
    public:                                                                                        \
        using Reg = BASE::template Register<CLS>;                                                  \
        CLS SEL_PARAMS_##BASE : Reg SEL_ARGS_##BASE {}                                             \
        static std::string name() { return NAME; }                                                 \
        static std::string doc() { return DOC; }                                        \
        static std::string schema() { return SCHEMA; }                                  \
        std::string what() const override { return #CLS; }                                         \
    };

// expected content: base -> class name -> class
struct Expect
{
    const char *base, *cls, *name;
    std::string doc() const
    {
        std::string c = cls;
        return c.starts_with("Silent") || c == "NothingNoDoc" ? "" : c == "NothingNone" ? "none" : c == "NothingLong" ? " doc\n\twith several lines\n\n" : "doc of " + c;
    }
    std::string schema() const
    {
        std::string c = cls;
        return c.starts_with("Silent") || c == "NothingNoSchema" ? "" : c == "NothingNone" ? "none" : c == "NothingLong" ? " { \"a\": \"b\" } " : "schema of " + c;
    }
};
inline const std::vector<Expect>& expected()
{
    static const std::vector<Expect> e = {
        {"Shape", "Circle", "circle"}, {"Shape", "Square", "square"}, {"Shape", "ShapeLinear", "linear"}, {"Shape", "Late", "late"},
        {"Model", "ModelLinear", "linear"}, {"Model", "ModelCircle", "circle"}, {"Model", "KOmega", "kOmega"},
        {"Nullary", "NothingA", "a"}, {"Nullary", "NothingEmptyName", ""}, {"Nullary", "NothingB", "b"}, {"Nullary", "NothingHidden", "_hidden"}, {"Nullary", "NothingSpaced", "a b"}, {"Nullary", "NothingQualified", "a::b<c>"}, {"Nullary", "NothingNumber", "1"},
        {"Nullary", "NothingNone", "none"}, {"Nullary", "NothingLong", "long"}, {"Nullary", "NothingNoDoc", "noDoc"}, {"Nullary", "NothingNoSchema", "noSchema"},
        {"Nullary", "NothingMany10", "many10"}, {"Nullary", "NothingMany11", "many11"}, {"Nullary", "NothingMany12", "many12"}, {"Nullary", "NothingMany13", "many13"}, {"Nullary", "NothingMany14", "many14"}, {"Nullary", "NothingMany15", "many15"}, {"Nullary", "NothingMany16", "many16"}, {"Nullary", "NothingMany17", "many17"}, {"Nullary", "NothingMany18", "many18"}, {"Nullary", "NothingMany19", "many19"}, {"Nullary", "NothingMany20", "many20"}, {"Nullary", "NothingMany21", "many21"},
        {"Solo", "SilentSolo", "solo"},
        {"Owner", "Own", "own"}, {"Owner", "Own2", "own2"},
        {"Interp<int>", "Upwind<int>", "upwind"}, {"Interp<int>", "LinearI<int>", "linear"},
        {"Interp<double>", "Upwind<double>", "upwind"}, {"Interp<double>", "LinearI<double>", "linear"}, {"Interp<double>", "OnlyDouble", "onlyDouble"},
    };
    return e;
}
template<typename T>
class Upwind : public Interp<T>::template Register<Upwind<T>>
{
public:
    using Base = typename Interp<T>::template Register<Upwind<T>>;
    Upwind(const std::vector<T>& v, int i) : Base(v, i) {}
    static std::string name() { return "upwind"; }
    static std::string cls() { return sizeof(T) == sizeof(int) ? "Upwind<int>" : "Upwind<double>"; }
    static std::string doc() { return "doc of " + cls(); }
    static std::string schema() { return "schema of " + cls(); }
    std::string what() const override { return cls(); }
};
template<typename T>
class LinearI : public Interp<T>::template Register<LinearI<T>>
{
public:
    using Base = typename Interp<T>::template Register<LinearI<T>>;
    LinearI(const std::vector<T>& v, int i) : Base(v, i) {}
    static std::string name() { return "linear"; }
    static std::string cls() { return sizeof(T) == sizeof(int) ? "LinearI<int>" : "LinearI<double>"; }
    static std::string doc() { return "doc of " + cls(); }
    static std::string schema() { return "schema of " + cls(); }
    std::string what() const override { return cls(); }
};
// The catalogue is also read while the program is still starting: each unit does so when its own classes are being
// registered.  What is found then may be incomplete; that it was read must not matter later.
template<typename B>
void readEarly()
{
    for (auto& n : B::entries())
    {
        try
        {
            (void)NeoFOAM::BaseClassDocumentation::entries(B::name());
            (void)NeoFOAM::BaseClassDocumentation::doc(B::name(), n);
            (void)NeoFOAM::BaseClassDocumentation::schema(B::name(), n);
        }
        catch (const std::exception&)
        {
        }
    }
    for (auto f : {&NeoFOAM::BaseClassDocumentation::doc, &NeoFOAM::BaseClassDocumentation::schema})
        for (auto n : {"linear", "a", "solo", "own", "upwind", "no such class"})
            try
            {
                (void)f(B::name(), n);
            }
            catch (const std::exception&)
            {
            }
    try
    {
        (void)NeoFOAM::BaseClassDocumentation::entries(B::name());
    }
    catch (const std::exception&)
    {
    }
}
inline bool readAllEarly()
{
    readEarly<Shape>();
    readEarly<Model>();
    readEarly<Nullary>();
    readEarly<Solo>();
    readEarly<Owner>();
    readEarly<Interp<int>>();
    readEarly<Interp<double>>();
    return true;
}
std::vector<std::string>& startLog();
}
