// The classes that are configured from user input: keyed and positional input select and deliver the same.
#include "terms.hpp"
using namespace fv;

namespace
{
int g_selected = 0;               // probes created
std::vector<std::string> g_forms; // and the form of the input each of them saw
// what a scheme with an option of its own reads from the input it is given
double option(const Input& in, const char* key)
{
    g_forms.push_back(std::holds_alternative<Dictionary>(in) ? "keyed" : "positional");
    ++g_selected;
    if (std::holds_alternative<Dictionary>(in)) return std::get<Dictionary>(in).get<double>(key);
    return std::get<TokenList>(in).next<double>();
}
// face value = option * owner + (1 - option) * neighbour
template<typename T>
struct Blend : fvcc::SurfaceInterpolationFactory<T>::template Register<Blend<T>>
{
    using Base = typename fvcc::SurfaceInterpolationFactory<T>::template Register<Blend<T>>;
    double w;
    Blend(const Executor& exec, const UnstructuredMesh& mesh, const Input& in) : Base(exec, mesh), w(option(in, "blend")) {}
    static std::string name() { return "blend"; }
    static std::string doc() { return "for the check"; }
    static std::string schema() { return "none"; }
    void interpolate(const Vol<T>& src, Surf<T>& dst) const override
    {
        auto o = val(this->mesh_.faceOwner());
        auto n = val(this->mesh_.faceNeighbour());
        auto v = val(src.internalField());
        auto b = val(src.boundaryField().value());
        auto r = val(dst.internalField());
        for (size_t f = 0; f < r.size(); ++f) r[f] = f < n.size() ? plus(scale(w, v[size_t(o[f])]), scale(1 - w, v[size_t(n[f])])) : b[f - n.size()];
        put(dst.internalField(), r);
    }
    void interpolate(const Surf<scalar>&, const Vol<T>& src, Surf<T>& dst) const override { interpolate(src, dst); }
    void weight(const Vol<T>&, Surf<scalar>& k) const override { put(k.internalField(), std::vector<scalar>(k.internalField().size(), w)); }
    void weight(const Surf<scalar>&, const Vol<T>& src, Surf<scalar>& k) const override { weight(src, k); }
    std::unique_ptr<fvcc::SurfaceInterpolationFactory<T>> clone() const override { return std::make_unique<Blend>(*this); }
};
// every face gradient is the option
template<typename T>
struct Constant : fvcc::FaceNormalGradientFactory<T>::template Register<Constant<T>>
{
    using Base = typename fvcc::FaceNormalGradientFactory<T>::template Register<Constant<T>>;
    double g;
    Constant(const Executor& exec, const UnstructuredMesh& mesh, const Input& in) : Base(exec, mesh), g(option(in, "gradient")), deltas_(surfField<scalar>(mesh, std::vector<scalar>(mesh.nInternalFaces() + mesh.nBoundaryFaces(), 1.0))) {}
    static std::string name() { return "constant"; }
    static std::string doc() { return "for the check"; }
    static std::string schema() { return "none"; }
    void faceNormalGrad(const Vol<T>&, Surf<T>& s) const override
    {
        put(s.internalField(), std::vector<T>(s.internalField().size(), of<T>(g)));
        put(s.boundaryField().value(), std::vector<T>(s.boundaryField().value().size(), of<T>(g)));
    }
    const Surf<scalar>& deltaCoeffs() const override { return deltas_; }
    std::unique_ptr<fvcc::FaceNormalGradientFactory<T>> clone() const override { return std::make_unique<Constant>(*this); }
    Surf<scalar> deltas_;
};
template struct Blend<scalar>;
template struct Blend<Vector>;
template struct Constant<scalar>;
template struct Constant<Vector>;

// an interpolation or gradient scheme as the user spells it
struct Choice
{
    std::string name;
    bool hasOption = false;
    double option = 0;
    std::string text() const { return hasOption ? mc::cat(name, " ", option) : name; }
};
Choice pickInterpolation(bool withUpwind)
{
    int c = choose(withUpwind ? 4 : 3, "interpolation");
    if (c == 0) return {"linear"};
    if (c == 3) return {"upwind"};
    return {"blend", true, c == 1 ? 0.25 : 2.0};
}
Choice pickGradient()
{
    int c = choose(3, "gradient");
    if (c == 0) return {"uncorrected"};
    return {"constant", true, c == 1 ? -3.0 : 0.5};
}
enum Form
{
    Positional,
    Keyed,
    KeyedAmongOthers,
    Forms
};
const char* FORM[] = {"positional", "keyed", "keyed among other entries"};
struct Spec // the option entries in positional order
{
    std::vector<std::pair<std::string, std::any>> e;
    std::string text;
    void add(const std::string& key, const std::string& v)
    {
        e.push_back({key, v});
        text += v + " ";
    }
    void add(const char* key, const char* optionKey, const Choice& c)
    {
        add(key, c.name);
        if (!c.hasOption) return;
        e.push_back({optionKey, c.option});
        text += mc::cat(c.option, " ");
    }
    TokenList list() const
    {
        TokenList t;
        for (auto& x : e) t.insert(x.second);
        return t;
    }
    Input input(int form) const
    {
        if (form == Positional) return Input(list());
        Dictionary d;
        // another order than the positional one
        for (auto it = e.rbegin(); it != e.rend(); ++it) d.insert(it->first, it->second);
        if (form == KeyedAmongOthers)
        {
            d.insert("limiter", std::string("upwind"));
            d.insert("Operator", std::string("linear"));
            d.insert("type", std::string("blend"));
            d.insert("0", std::string("Gauss"));
            d.insert("default", std::string("upwind"));
        }
        return Input(d);
    }
};
std::string show(const std::any& a);
std::string show(const Dictionary& d)
{
    auto k = d.keys();
    std::sort(k.begin(), k.end());
    std::string s = "{";
    for (auto& x : k) s += x + "=" + show(d[x]) + ";";
    return s + "}";
}
std::string show(const TokenList& t)
{
    std::string s = "(";
    TokenList c = t;
    for (auto& x : c.tokens()) s += show(x) + " ";
    // where reading goes on
    int left = 0;
    for (;; ++left)
    {
        try
        {
            (void)c.next<std::string>();
        }
        catch (const std::bad_any_cast&)
        {
            try
            {
                (void)c.next<double>();
            }
            catch (const std::exception&)
            {
                break;
            }
        }
        catch (const std::exception&)
        {
            break;
        }
    }
    return s + mc::cat(") with ", left, " left");
}
std::string show(const std::any& a)
{
    if (auto s = std::any_cast<std::string>(&a)) return "'" + *s + "'";
    if (auto s = std::any_cast<double>(&a)) return mc::cat(*s);
    if (auto s = std::any_cast<int>(&a)) return mc::cat("int ", *s);
    if (auto s = std::any_cast<TokenList>(&a)) return show(*s);
    if (auto s = std::any_cast<Dictionary>(&a)) return show(*s);
    return a.type().name();
}
std::string show(const Input& i) { return std::holds_alternative<Dictionary>(i) ? show(std::get<Dictionary>(i)) : show(std::get<TokenList>(i)); }

std::vector<MeshData>& meshes()
{
    static std::vector<MeshData> L = []
    {
        std::vector<MeshData> l;
        l.push_back(line({0, 0.5, 1, 3}, true));
        l.push_back(grid({0, 1, 3}, {0, 2, 2.5}));
        l.push_back(line({0, 1}));
        return l;
    }();
    return L;
}
std::vector<scalar> fluxOf(const MeshData& d)
{
    std::vector<scalar> r;
    for (size_t f = 0; f < d.nFaces(); ++f) r.push_back(f % 2 ? -1.5 : 2.0 + double(f));
    return r;
}
template<typename T>
std::vector<T> faceRef(const MeshData& d, const Choice& c, const std::vector<scalar>& flux, const std::vector<T>& v, const std::vector<T>& b)
{
    if (!c.hasOption) return faceValues(d, c.name == "linear" ? LinearScheme : UpwindScheme, flux, v, b);
    std::vector<T> r;
    for (size_t f = 0; f < d.nFaces(); ++f) r.push_back(f < d.nInt ? plus(scale(c.option, v[size_t(d.own[f])]), scale(1 - c.option, v[size_t(d.nei[f])])) : b[f - d.nInt]);
    return r;
}
template<typename T>
std::vector<T> gradRefOf(const MeshData& d, const Choice& c, const std::vector<T>& v, const std::vector<T>& b)
{
    if (!c.hasOption) return normalGradRef(d, v, b);
    return std::vector<T>(d.nFaces(), of<T>(c.option));
}
enum Klass
{
    InterpolationClass,
    GradientClass,
    DivClass,
    LaplacianClass,
    Classes
};
const char* CLASS[] = {"SurfaceInterpolation", "FaceNormalGradient", "DivOperator", "LaplacianOperator"};
template<typename T>
struct Bench
{
    const MeshData& d;
    UnstructuredMesh m;
    std::vector<T> v, b;
    std::vector<scalar> flux, one;
    Vol<T> phi;
    Surf<scalar> fl;
    Bench(const MeshData& md, const Executor& e)
        : d(md), m(md.make(e)), v(distinct<T>(d.nCells(), 1)), b(distinct<T>(d.nB(), 40)), flux(fluxOf(d)), one(d.nCells(), 1.0), phi(volField(m, v, b)), fl(surfField(m, flux))
    {}
    // what an object of the class, made from the input in the given way, computes
    std::vector<T> run(int klass, int how, const Input& in)
    {
        if (klass == InterpolationClass)
        {
            auto dst = surfField<T>(m, distinct<T>(d.nFaces(), 500));
            if (how == 0) fvcc::SurfaceInterpolationFactory<T>::create(m.exec(), m, in)->interpolate(fl, phi, dst);
            else
            {
                fvcc::SurfaceInterpolation<T> s(m.exec(), m, in);
                fvcc::SurfaceInterpolation<T> c(s);
                (how == 1 ? s : c).interpolate(fl, phi, dst);
            }
            return val(dst.internalField());
        }
        if (klass == GradientClass)
        {
            auto dst = surfField<T>(m, distinct<T>(d.nFaces(), 500));
            if (how == 0) fvcc::FaceNormalGradientFactory<T>::create(m.exec(), m, in)->faceNormalGrad(phi, dst);
            else
            {
                fvcc::FaceNormalGradient<T> s(m.exec(), m, in);
                s.faceNormalGrad(phi, dst);
            }
            return val(dst.internalField());
        }
        auto t = kh::make(m.exec(), std::vector<T>(d.nCells(), zeroOf<T>()));
        if (klass == DivClass)
        {
            if (how == 0) fvcc::DivOperatorFactory<T>::create(m.exec(), m, in)->div(t, fl, phi, dsl::Coeff(1.0));
            else
            {
                fvcc::DivOperator<T> o(dsl::Operator::Type::Explicit, fl, phi, in);
                fvcc::DivOperator<T> c(o);
                (how == 1 ? o : c).explicitOperation(t);
            }
        }
        else
        {
            if (how == 0) fvcc::LaplacianOperatorFactory<T>::create(m.exec(), m, in)->laplacian(t, fl, phi, dsl::Coeff(1.0));
            else
            {
                fvcc::LaplacianOperator<T> o(dsl::Operator::Type::Explicit, fl, phi, in);
                fvcc::LaplacianOperator<T> c(o);
                (how == 1 ? o : c).explicitOperation(t);
            }
        }
        return val(t);
    }
    std::vector<T> want(int klass, const Choice& ip, const Choice& gr)
    {
        if (klass == InterpolationClass) return faceRef(d, ip, flux, v, b);
        if (klass == GradientClass) return gradRefOf(d, gr, v, b);
        if (klass == DivClass) return perVolume(d, net(d, timesEach(flux, faceRef(d, ip, flux, v, b))), one);
        return perVolume(d, net(d, timesEach(flux, timesEach(d.magSf, gradRefOf(d, gr, v, b)))), one);
    }
};
Spec spell(int klass, const Choice& ip, const Choice& gr)
{
    Spec s;
    if (klass == DivClass) s.add("DivOperator", "Gauss");
    if (klass == LaplacianClass) s.add("LaplacianOperator", "Gauss");
    if (klass != GradientClass) s.add("surfaceInterpolation", "blend", ip);
    if (klass == GradientClass || klass == LaplacianClass) s.add("faceNormalGradient", "gradient", gr);
    return s;
}
Choice pickIp(int klass) { return klass == GradientClass ? Choice {"linear"} : pickInterpolation(true); }
Choice pickGr(int klass) { return klass == GradientClass || klass == LaplacianClass ? pickGradient() : Choice {"uncorrected"}; }

template<typename T>
void selection()
{
    kh::Pick p = kh::pick2(false);
    const MeshData& d = meshes()[size_t(choose(int(meshes().size()), "mesh"))];
    int klass = choose(Classes, "class"), how = choose(klass == GradientClass ? 2 : 3, "made by");
    Choice ip = pickIp(klass), gr = pickGr(klass);
    Spec s = spell(klass, ip, gr);
    Bench<T> w(d, p.exec);
    auto want = w.want(klass, ip, gr);
    int options = (klass != GradientClass && ip.hasOption) + ((klass == GradientClass || klass == LaplacianClass) && gr.hasOption);
    for (int form = 0; form < Forms; ++form)
    {
        std::string what = mc::cat(CLASS[klass], " (made ", how, ") from ", FORM[form], " input ", s.text, "on ", d.name);
        MC_STEP(what);
        Input in = s.input(form);
        std::string before = show(in);
        for (int round = 0; round < 2; ++round)
        {
            g_selected = 0;
            g_forms.clear();
            auto got = w.run(klass, how, in);
            checkNear(got, want, form == Positional ? "positional-settings" : "keyed-settings", mc::cat(what, ", round ", round));
            MC_CHECK(g_selected == options, "selected", what, ": ", g_selected, " schemes with an option of their own were created instead of ", options);
            for (auto& f : g_forms) MC_CHECK(f == (form == Positional ? "positional" : "keyed"), "input-form", what, ": a scheme was handed ", f, " input");
            if (form == Positional) in = s.input(form); // reading a positional input consumes it
            else MC_CHECK(show(in) == before, "keyed-unchanged", what, " changed the caller's dictionary from ", before, " to ", show(in));
        }
    }
    mc::noteState(mc::cat(klass, how, s.text, d.name, p.e));
}
}

MC_SCENARIO(scheme_selection, "4 configurable classes x 3 ways of making them x every combination of 4 interpolation and 3 gradient schemes (some with options of their own) x 3 input forms x 3 meshes x 3 executors, scalar fields: same entry, same values, caller's dictionary unchanged") { selection<scalar>(); }
MC_SCENARIO(scheme_selection_vector, "as scheme_selection, vector fields") { selection<Vector>(); }

MC_SCENARIO(scheme_rejected, "4 configurable classes x every entry of a valid input missing, of 3 other types, or naming 6 unknown schemes x 3 input forms: rejected, never defaulted")
{
    kh::Pick p = kh::pick2(false);
    int klass = choose(Classes, "class"), how = choose(2, "made by"), form = choose(Forms, "form");
    Choice ip = klass == GradientClass ? Choice {"linear"} : pickInterpolation(true), gr = pickGr(klass);
    Spec s = spell(klass, ip, gr);
    size_t i = size_t(choose(int(s.e.size()), "entry"));
    bool isOption = s.e[i].second.type() == typeid(double);
    int bad = choose(isOption ? 4 : 10, "what is wrong");
    Bench<scalar> w(meshes()[1], p.exec);
    static const char* UNKNOWN[] = {"", "Linear", "linear ", "gauss", "default", "none"};
    std::string what = s.e[i].first;
    if (bad == 0)
    {
        s.e.erase(s.e.begin() + long(i));
        what += " missing";
    }
    else if (bad < 4)
    {
        std::any v = bad == 1 ? std::any(7) : bad == 2 ? std::any(Dictionary()) : isOption ? std::any(std::string("0.5")) : std::any("linear");
        s.e[i].second = v;
        what += mc::cat(" of type ", v.type().name());
    }
    else
    {
        s.e[i].second = std::string(UNKNOWN[bad - 4]);
        what += mc::cat(" set to '", UNKNOWN[bad - 4], "'");
    }
    what = mc::cat(CLASS[klass], " from ", FORM[form], " input with ", what);
    MC_STEP(what);
    Input in = s.input(form);
    std::string before = show(in);
    mc::expectAnyError("rejected", [&] { (void)w.run(klass, how, in); }, what);
    if (form != Positional) MC_CHECK(show(in) == before, "keyed-unchanged", what, " changed the caller's dictionary from ", before, " to ", show(in));
    // a correct input is accepted afterwards
    Spec good = spell(klass, ip, gr);
    checkNear(w.run(klass, how, good.input(form)), w.want(klass, ip, gr), "accepted-afterwards", what);
    mc::noteState(what);
}

namespace
{
struct Named
{
    const char *flux, *phi;
};
const Named NAMES[] = {{"flux", "phi"}, {"phi", "flux"}, {"flux", "psi"}};
std::string entry(int k, const Named& n) { return mc::cat(k == 0 ? "div(" : "laplacian(", n.flux, ",", n.phi, ")"); }
}
MC_SCENARIO(builds, "operators built by their own entry of one set of schemes: every sequence of up to 2 (thorough: 3) builds of 4 operators out of the same keyed input or their own token lists, directly, as spatial operator and within an expression; each uses its own entry and the input serves every time")
{
    kh::Pick p = kh::pick2(false);
    const MeshData& d = meshes()[1];
    UnstructuredMesh m = d.make(p.exec);
    auto v = distinct<scalar>(d.nCells(), 1), b = distinct<scalar>(d.nB(), 40), flux = fluxOf(d), one = std::vector<scalar>(d.nCells(), 1.0);
    int pat = choose(3, "which operator gets which scheme");
    // operators 0, 1: divergence, 2, 3: laplacian
    Choice ip[4], gr[4];
    const Choice IP[] = {{"linear"}, {"upwind"}, {"blend", true, 0.25}}, GR[] = {{"uncorrected"}, {"constant", true, -3.0}, {"constant", true, 0.5}};
    for (int i = 0; i < 4; ++i)
    {
        ip[i] = IP[(pat + i) % 3];
        gr[i] = GR[(pat + 2 * i) % 3];
    }
    Vol<scalar> phi[2] = {volField(m, v, b, "phi"), volField(m, v, b, "psi")};
    Surf<scalar> fl = surfField(m, flux, "flux");
    Dictionary divs, laps, all;
    TokenList own[4];
    for (int i = 0; i < 4; ++i)
    {
        own[i] = spell(i < 2 ? DivClass : LaplacianClass, ip[i], gr[i]).list();
        (i < 2 ? divs : laps).insert(mc::cat(i < 2 ? "div(flux," : "laplacian(flux,", i % 2 ? "psi)" : "phi)"), own[i]);
    }
    // what belongs to somebody else
    divs.insert("default", spell(DivClass, {"blend", true, 9.0}, {}).list());
    divs.insert("div(psi,flux)", spell(DivClass, {"blend", true, 9.0}, {}).list());
    laps.insert("default", spell(LaplacianClass, {"linear"}, {"constant", true, 9.0}).list());
    laps.insert("laplacian(psi,flux)", spell(LaplacianClass, {"linear"}, {"constant", true, 9.0}).list());
    all.insert("divSchemes", divs);
    all.insert("laplacianSchemes", laps);
    const Input in(all);
    std::string before = show(in);
    std::vector<std::string> ownBefore;
    for (auto& o : own) ownBefore.push_back(show(o));
    const Input lists[4] = {Input(own[0]), Input(own[1]), Input(own[2]), Input(own[3])};
    auto E = dsl::Operator::Type::Explicit;
    int n = 1 + choose(mc::thorough() ? 3 : 2, "builds");
    for (int k = 0; k < n; ++k)
    {
        int i = choose(4, "operator"), form = choose(2, "form"), how = choose(form == 0 ? 3 : 2, "held");
        std::string what = mc::cat(k, ". build: ", i < 2 ? "div" : "laplacian", " of ", phi[i % 2].name, form == 0 ? " from the schemes" : " from its own tokens", how == 0 ? "" : how == 1 ? " as spatial operator" : " within an expression");
        MC_STEP(what);
        auto want = i < 2 ? perVolume(d, net(d, timesEach(flux, faceRef(d, ip[i], flux, v, b))), one) : perVolume(d, net(d, timesEach(flux, timesEach(d.magSf, gradRefOf(d, gr[i], v, b)))), one);
        auto t = kh::make(m.exec(), std::vector<scalar>(d.nCells(), 0.0));
        const Input& use = form == 0 ? in : lists[i];
        if (how == 0)
        {
            if (i < 2)
            {
                fvcc::DivOperator<scalar> o(E, fl, phi[i % 2]);
                o.build(use);
                o.explicitOperation(t);
            }
            else
            {
                fvcc::LaplacianOperator<scalar> o(E, fl, phi[i % 2]);
                o.build(use);
                o.explicitOperation(t);
            }
        }
        else
        {
            auto o = i < 2 ? dsl::SpatialOperator<scalar>(fvcc::DivOperator<scalar>(E, fl, phi[i % 2])) : dsl::SpatialOperator<scalar>(fvcc::LaplacianOperator<scalar>(E, fl, phi[i % 2]));
            if (how == 1)
            {
                o.build(use);
                o.explicitOperation(t);
            }
            else
            {
                dsl::Expression<scalar> e(m.exec());
                e.addOperator(o);
                e.build(std::get<Dictionary>(use));
                e.explicitOperation(t);
            }
        }
        checkNear(val(t), want, form == 0 ? "keyed-settings" : "positional-settings", what);
        MC_CHECK(show(in) == before, "keyed-unchanged", what, " changed the caller's schemes from ", before, " to ", show(in));
        MC_CHECK(show(lists[i]) == ownBefore[size_t(i)], "positional-unchanged", what, " changed the caller's tokens from ", ownBefore[size_t(i)], " to ", show(lists[i]));
    }
    mc::noteState(mc::cat(pat, n));
}
MC_SCENARIO(builds_rejected, "building an operator from schemes that lack its entry, its section, or hold something else there, or from tokens that end early: rejected, also when other operators' entries and a 'default' are there")
{
    kh::Pick p = kh::pick2(false);
    const MeshData& d = meshes()[1];
    UnstructuredMesh m = d.make(p.exec);
    Vol<scalar> phi = volField(m, distinct<scalar>(d.nCells(), 1), distinct<scalar>(d.nB(), 40), "phi");
    Surf<scalar> fl = surfField(m, fluxOf(d), "flux");
    bool lap = choose(2, "laplacian"), spatial = choose(2, "as spatial operator");
    int how = choose(9, "what is wrong");
    const std::string section = lap ? "laplacianSchemes" : "divSchemes", name = lap ? "laplacian(flux,phi)" : "div(flux,phi)";
    TokenList good = spell(lap ? LaplacianClass : DivClass, {"linear"}, {"uncorrected"}).list();
    Dictionary all, sec;
    for (auto k : {"default", "div(phi,flux)", "laplacian(phi,flux)", "div(flux,psi)", "laplacian(flux,psi)", "div(flux, phi)", "laplacian(flux, phi)", "div", "laplacian", "flux,phi", ""}) sec.insert(k, good);
    std::optional<Input> in;
    Dictionary other;
    other.insert(lap ? "div(flux,phi)" : "laplacian(flux,phi)", good);
    other.insert(name, good);
    all.insert(lap ? "divSchemes" : "laplacianSchemes", other);
    switch (how)
    {
    case 0: in = Input(Dictionary()); break;
    case 1: in = Input(all); break; // no section
    case 2:
        all.insert(section, sec);
        in = Input(all); // no entry
        break;
    case 3:
        all.insert(section, good);
        all.insert(name, good);
        in = Input(all); // the section is a list
        break;
    case 4:
        sec.insert(name, std::string("Gauss linear uncorrected"));
        all.insert(section, sec);
        in = Input(all);
        break;
    case 5:
        sec.insert(name, Dictionary({{"DivOperator", std::string("Gauss")}}));
        all.insert(section, sec);
        in = Input(all);
        break;
    case 6:
        sec.insert(name, TokenList());
        all.insert(section, sec);
        in = Input(all);
        break;
    case 7:
        sec.insert(name, tokens({"Gauss"}));
        all.insert(section, sec);
        in = Input(all);
        break;
    default: in = Input(lap ? tokens({"Gauss", "linear"}) : tokens({"Gauss"})); break;
    }
    std::string before = show(*in), what = mc::cat("building ", name, spatial ? " as spatial operator" : "", " from ", before);
    MC_STEP(what);
    auto E = dsl::Operator::Type::Explicit;
    fvcc::DivOperator<scalar> dv(E, fl, phi);
    fvcc::LaplacianOperator<scalar> lp(E, fl, phi);
    dsl::SpatialOperator<scalar> so = lap ? dsl::SpatialOperator<scalar>(lp) : dsl::SpatialOperator<scalar>(dv);
    mc::expectAnyError("rejected", [&]
    {
        if (spatial) so.build(*in);
        else if (lap) lp.build(*in);
        else dv.build(*in);
    }, what);
    MC_CHECK(show(*in) == before, "keyed-unchanged", what, " changed the caller's input to ", show(*in));
    // still not usable, but a complete input makes it so
    auto t = kh::make(m.exec(), std::vector<scalar>(d.nCells(), 0.0));
    sec.insert(name, good);
    if (!spatial)
    {
        if (lap) mc::expectAnyError("rejected", [&] { lp.explicitOperation(t); }, what + ", then using it");
        else mc::expectAnyError("rejected", [&] { dv.explicitOperation(t); }, what + ", then using it");
    }
    Dictionary fixed;
    sec.insert(name, good);
    fixed.insert(section, sec);
    if (spatial)
    {
        so.build(Input(fixed));
        so.explicitOperation(t);
    }
    else if (lap)
    {
        lp.build(Input(fixed));
        lp.explicitOperation(t);
    }
    else
    {
        dv.build(Input(fixed));
        dv.explicitOperation(t);
    }
    mc::noteState(mc::cat(lap, spatial, how));
}
MC_SCENARIO(rebuilt, "one operator configured two or three times in a row from different inputs in either form, directly, as spatial operator, through a copy, or within an expression: the last input counts, copies made before keep theirs")
{
    kh::Pick p = kh::pick2(false);
    const MeshData& d = meshes()[1];
    UnstructuredMesh m = d.make(p.exec);
    auto v = distinct<scalar>(d.nCells(), 1), b = distinct<scalar>(d.nB(), 40), flux = fluxOf(d), one = std::vector<scalar>(d.nCells(), 1.0);
    Vol<scalar> phi = volField(m, v, b, "phi");
    Surf<scalar> fl = surfField(m, flux, "flux");
    bool lap = choose(2, "laplacian"), made = choose(2, "made with a scheme");
    int held = choose(3, "held");
    const Choice IP[] = {{"linear"}, {"upwind"}, {"blend", true, 0.25}}, GR[] = {{"uncorrected"}, {"constant", true, -3.0}, {"constant", true, 0.5}};
    auto spec = [&](int c) { return spell(lap ? LaplacianClass : DivClass, lap ? IP[0] : IP[c], GR[c]); };
    auto want = [&](int c) { return lap ? perVolume(d, net(d, timesEach(flux, timesEach(d.magSf, gradRefOf(d, GR[c], v, b)))), one) : perVolume(d, net(d, timesEach(flux, faceRef(d, IP[c], flux, v, b))), one); };
    auto input = [&](int c, bool keyed)
    {
        if (!keyed) return Input(spec(c).list());
        Dictionary all;
        all.insert(lap ? "laplacianSchemes" : "divSchemes", Dictionary({{lap ? "laplacian(flux,phi)" : "div(flux,phi)", spec(c).list()}}));
        return Input(all);
    };
    auto E = dsl::Operator::Type::Explicit;
    std::string what = mc::cat(lap ? "laplacian" : "div", made ? " made with a scheme" : "", " held ", held);
    fvcc::DivOperator<scalar> dv = made ? fvcc::DivOperator<scalar>(E, fl, phi, spell(DivClass, IP[2], GR[0]).input(Positional)) : fvcc::DivOperator<scalar>(E, fl, phi);
    fvcc::LaplacianOperator<scalar> lp = made ? fvcc::LaplacianOperator<scalar>(E, fl, phi, spell(LaplacianClass, IP[0], GR[2]).input(Positional)) : fvcc::LaplacianOperator<scalar>(E, fl, phi);
    dsl::SpatialOperator<scalar> so = lap ? dsl::SpatialOperator<scalar>(lp) : dsl::SpatialOperator<scalar>(dv);
    dsl::Expression<scalar> ex(m.exec());
    ex.addOperator(so);
    auto compute = [&](dsl::SpatialOperator<scalar>& s, dsl::Expression<scalar>& e)
    {
        auto t = kh::make(m.exec(), std::vector<scalar>(d.nCells(), 0.0));
        if (held == 2) e.explicitOperation(t);
        else if (held == 1) s.explicitOperation(t);
        else if (lap) lp.explicitOperation(t);
        else dv.explicitOperation(t);
        return val(t);
    };
    int n = 2 + choose(2, "builds"), last = -1;
    for (int k = 0; k < n; ++k)
    {
        int c = choose(3, "scheme");
        bool keyed = held == 2 || choose(2, "keyed");
        auto so0 = so;
        auto ex0 = ex;
        Input in = input(c, keyed);
        what += mc::cat(keyed ? ", keyed " : ", positional ", c);
        MC_STEP(what);
        if (held == 2) ex.build(std::get<Dictionary>(in));
        else if (held == 1) so.build(in);
        else if (lap) lp.build(in);
        else dv.build(in);
        checkNear(compute(so, ex), want(c), "last-input-counts", what);
        if (held != 0 && last >= 0) checkNear(compute(so0, ex0), want(last), "copy-keeps-input", what + ", copy made before the last build");
        last = c;
    }
    mc::noteState(what);
}
