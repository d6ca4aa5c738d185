// Volume boundary conditions: building fields with chosen conditions and the model of what they say.
#pragma once
#include "fv.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
namespace fv
{
enum Bc
{
    FixedValueBc,
    FixedGradientBc,
    ExtrapolatedBc,
    CalculatedBc,
    EmptyBc
};
inline const char* BCNAME[] = {"fixedValue", "fixedGradient", "extrapolated", "calculated", "empty"};
template<typename T>
struct Conditions
{
    std::vector<int> type; // per patch
    std::vector<T> number; // the prescribed value or gradient
    explicit Conditions(const MeshData& d)
    {
        for (size_t p = 0; p < d.nPatches(); ++p) type.push_back(FixedValueBc), number.push_back(of<T>(2.5 + double(p) * 1.5));
    }
    Dictionary dict(size_t p) const
    {
        Dictionary r({{"type", std::string(BCNAME[type[p]])}});
        if (type[p] == FixedValueBc) r.insert("fixedValue", number[p]);
        if (type[p] == FixedGradientBc) r.insert("fixedGradient", number[p]);
        return r;
    }
    std::vector<fvcc::VolumeBoundary<T>> make(const UnstructuredMesh& m) const
    {
        std::vector<fvcc::VolumeBoundary<T>> r;
        for (size_t p = 0; p < type.size(); ++p) r.push_back(fvcc::VolumeBoundary<T>(m, dict(p), p));
        return r;
    }
    // boundary values that belong to the cell values v
    std::vector<T> values(const MeshData& d, const std::vector<T>& v, const std::vector<T>& before) const
    {
        auto r = before;
        for (size_t f = 0; f < d.nB(); ++f)
        {
            size_t p = d.patchOf(f);
            const T& c = v[size_t(d.faceCells[f])];
            if (type[p] == FixedValueBc) r[f] = number[p];
            if (type[p] == FixedGradientBc) r[f] = plus(c, scale(1 / d.bdc[f], number[p]));
            if (type[p] == ExtrapolatedBc) r[f] = c;
        }
        return r;
    }
    std::string text() const
    {
        std::string s;
        for (size_t p = 0; p < type.size(); ++p) s += mc::cat(p ? ", " : "", BCNAME[type[p]]);
        return s.empty() ? "no patches" : s;
    }
};
// all assignments of n types for up to two patches, shifts of the list of types beyond that
template<typename T>
Conditions<T> pickConditions(const MeshData& d, int n)
{
    Conditions<T> c(d);
    if (d.nPatches() <= 2)
        for (auto& t : c.type) t = choose(n, "condition");
    else
    {
        int s = choose(2 * n, "conditions");
        for (size_t p = 0; p < c.type.size(); ++p) c.type[p] = s < n ? int(p + size_t(s)) % n : s - n;
    }
    return c;
}
template<typename T>
Vol<T> conditioned(const UnstructuredMesh& m, const Conditions<T>& c, const std::vector<T>& v, const std::vector<T>& before, const std::string& name = "phi")
{
    Vol<T> f(m.exec(), name, m, c.make(m));
    put(f.internalField(), v);
    put(f.boundaryField().value(), before);
    put(f.boundaryField().refValue(), distinct<T>(before.size(), 7000));
    put(f.boundaryField().refGrad(), distinct<T>(before.size(), 8000));
    put(f.boundaryField().valueFraction(), std::vector<scalar>(before.size(), 0.375));
    return f;
}
// registers a copy of the field with a database
template<typename T>
Vol<T>& registered(NeoFOAM::Database& db, const Vol<T>& f, const std::string& collection = "fields")
{
    auto& fc = fvcc::FieldCollection::instance(db, collection);
    return fc.registerField<Vol<T>>(fvcc::CreateFromExistingField<Vol<T>> {.name = f.name, .field = f, .timeIndex = 5, .iterationIndex = 1, .subCycleIndex = 2});
}
}
