_CC="include/NeoFOAM/finiteVolume/cellCentred/"
kseed("volume-bc-stops-at-empty-patch","C24",[(_CC+"fields/volumeField.hpp",
"        for (auto& boundaryCondition : boundaryConditions_)\n        {\n            boundaryCondition.correctBoundaryCondition(this->field_);\n        }",
"        for (size_t patchi = 0; patchi < boundaryConditions_.size(); ++patchi)\n        {\n            auto& boundaryCondition = boundaryConditions_[patchi];\n            if (boundaryCondition.patchEnd() == boundaryCondition.patchStart())\n            {\n                break; // nothing left on the boundary\n            }\n            boundaryCondition.correctBoundaryCondition(this->field_);\n        }")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = abstractMesh(3, {{0, 1}, {1, 2}}, {{0}, {}, {2}});
    auto m = d.make(execOf(0));
    Conditions<scalar> c(d);
    c.type = {FixedValueBc, ExtrapolatedBc, ExtrapolatedBc};
    auto phi = conditioned<scalar>(m, c, {1, 2, 4}, {70, 80});
    phi.correctBoundaryConditions();
    EXPECT(val(phi.boundaryField().value())[1] == 4);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"a patch without faces in front of another one","the conditions of patches behind an empty one are not applied",inc=("bcs.hpp",))
kseed("surface-fixed-from-end","C24",[(_CC+"boundary/surface/fixedValue.hpp",
"    auto nInternalFaces = mesh.nInternalFaces();",
"    auto nInternalFaces = internalValues.size() - range.second;")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    std::vector<fvcc::SurfaceBoundary<scalar>> c;
    for (size_t p = 0; p < 2; ++p) c.push_back(fvcc::SurfaceBoundary<scalar>(m, Dictionary({{"type", std::string("fixedValue")}, {"fixedValue", 3.0 + double(p)}}), p));
    Surf<scalar> f(m.exec(), "flux", m, c);
    put(f.internalField(), std::vector<scalar> {1, 1, 1});
    f.correctBoundaryConditions();
    auto v = val(f.internalField());
    EXPECT(v[0] == 1 && v[1] == 3 && v[2] == 4);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"a patch that is not the last one","the face values of another patch are overwritten",inc=("bcs.hpp",))
kseed("coeff-takeover-drops-number","C25",[("src/dsl/coeff.cpp",
"        view_ = rhs.view_;\n        hasView_ = true;","        *this = rhs;\n        return *this;")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto f = make<scalar>(execOf(0), {1, 2});
    dsl::Coeff a(2.0), b(3.0, f);
    auto p = a * b;
    EXPECT(p[0] == 6 && p[1] == 12);
    return 0;
}
''',_c.ALLFV,"a number times a coefficient that has both a number and a field","the number of the right-hand side is lost",inc=("terms.hpp",))
kseed("explicit-stops-at-implicit","C25",[("include/NeoFOAM/dsl/expression.hpp",
"            if (op.getType() == Operator::Type::Explicit)\n            {\n                op.explicitOperation(source);\n            }",
"            // explicit terms come first\n            if (op.getType() == Operator::Type::Implicit)\n            {\n                break;\n            }\n            op.explicitOperation(source);")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    auto phi = volField<scalar>(m, {1, 3}, {0, 0});
    auto k = volField<scalar>(m, {2, 5}, {0, 0}, "k");
    dsl::Expression<scalar> e(m.exec());
    e.addOperator(dsl::imp::source(k, phi));
    e.addOperator(dsl::exp::source(k, phi));
    auto r = val(e.explicitOperation(2));
    EXPECT(r[0] == 2 && r[1] == 15);
    return 0;
}
''',_c.ALLFV,"an implicit term in front of an explicit one","the explicit term is ignored",inc=("terms.hpp",))
_STEP=r'''
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
'''
kseed("forward-euler-boundary-before-update","C26",[("include/NeoFOAM/timeIntegration/forwardEuler.hpp",
"        solutionField.internalField() = oldSolutionField.internalField() - source * dt;\n        solutionField.correctBoundaryConditions();",
"        solutionField.correctBoundaryConditions();\n        solutionField.internalField() = oldSolutionField.internalField() - source * dt;")],_STEP+r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    c.type = {ExtrapolatedBc, FixedValueBc};
    auto& phi = registered(db, conditioned<scalar>(m, c, {1, 3}, {0, 0}));
    auto k = volField<scalar>(m, {2, 2}, {0, 0}, "k");
    phi.correctBoundaryConditions();
    dsl::Expression<scalar> e(m.exec());
    e.addOperator(dsl::imp::ddt(phi));
    e.addOperator(dsl::exp::source(k, phi));
    auto s = schemes("forwardEuler");
    Dictionary sol;
    dsl::solve(e, phi, 0.0, 0.25, s, sol);
    EXPECT(val(phi.internalField())[0] == 0.5);
    EXPECT(val(phi.boundaryField().value())[0] == 0.5);
    return 0;
}
''',_c.ALLFV+_c.TIME,"a boundary condition that depends on the solution","boundary values lag one step behind the solution",inc=("terms.hpp",))
kseed("backward-euler-keeps-first-state","C26",[("include/NeoFOAM/timeIntegration/backwardEuler.hpp",
"        oldSolutionField.internalField() = solutionField.internalField();",
"        if (t <= 0)\n        {\n            oldSolutionField.internalField() = solutionField.internalField();\n        }"),
("include/NeoFOAM/timeIntegration/backwardEuler.hpp","        [[maybe_unused]] scalar t,\n        scalar dt","        scalar t,\n        scalar dt")],_STEP+r'''
#include "standin_solver.hpp"
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    auto& phi = registered(db, conditioned<scalar>(m, c, {1, 3}, {0, 0}));
    auto k = volField<scalar>(m, {2, 2}, {0, 0}, "k");
    double want = 1;
    for (int n = 0; n < 3; ++n)
    {
        dsl::Expression<scalar> e(m.exec());
        e.addOperator(dsl::imp::ddt(phi));
        e.addOperator(dsl::imp::source(k, phi));
        auto s = schemes("backwardEuler");
        Dictionary sol({{"solver", std::string("exact")}});
        dsl::solve(e, phi, 1 + 0.25 * n, 0.25, s, sol);
        want /= 1.5;
        EXPECT(std::abs(val(phi.internalField())[0] - want) < 1e-12);
    }
    return 0;
}
''',_c.ALLFV+_c.TIME,"two implicit steps after time zero","the second step starts from the state before the first",inc=("terms.hpp",))
kseed("register-iteration-zero-inherits","C27",[("include/NeoFOAM/core/database/fieldCollection.hpp",
"            if (iterationIndex == std::numeric_limits<std::int64_t>::max())",
"            if (iterationIndex == std::numeric_limits<std::int64_t>::max() || !iterationIndex)")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    auto& a = registered(db, conditioned<scalar>(m, c, {1, 3}, {0, 0}));
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto& b = fc.registerField<Vol<scalar>>(fvcc::CreateFromExistingField<Vol<scalar>> {.name = "b", .field = a, .timeIndex = 0, .iterationIndex = 0, .subCycleIndex = 0});
    EXPECT(fc.fieldDoc(b.key).timeIndex() == 0 && fc.fieldDoc(b.key).iterationIndex() == 0 && fc.fieldDoc(b.key).subCycleIndex() == 0);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"a copy of a registered field registered with the iteration index 0","the copy gets the index of its source",inc=("bcs.hpp",))
kseed("register-collection-name-kept","C27",[("include/NeoFOAM/core/database/fieldCollection.hpp",
"        FieldType& field = fd.field<FieldType>();\n        field.key = key;\n        field.fieldCollectionName = name();",
"        FieldType& field = fd.field<FieldType>();\n        field.key = key;\n        if (field.fieldCollectionName.empty())\n        {\n            field.fieldCollectionName = name();\n        }")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    auto& a = registered(db, conditioned<scalar>(m, c, {1, 3}, {0, 0}));
    auto& fc = fvcc::FieldCollection::instance(db, "others");
    auto& b = fc.registerField<Vol<scalar>>([&](NeoFOAM::Database&) { return fvcc::FieldDocument(a, 1, 2, 3); });
    EXPECT(b.fieldCollectionName == "others" && &fvcc::FieldCollection::instance(b) == &fc);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"a registered field registered again in another collection by a creator of the user's","the copy claims to be in the collection of its source",inc=("bcs.hpp",))
kseed("oldtime-find-by-prefix","C28",[("src/core/database/oldTimeCollection.cpp",
"    auto keys = find([id](const Document& doc) { return doc.get<std::string>(\"nextTime\") == id; });",
"    auto keys = find([id](const Document& doc)\n                     { return doc.get<std::string>(\"nextTime\").starts_with(id); });")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    std::vector<Vol<scalar>*> f;
    for (int i = 0; i < 12; ++i) f.push_back(&registered(db, conditioned<scalar>(m, c, {1.0 * i, 3}, {0, 0}, "f" + std::to_string(i))));
    for (int i = 0; i < 12; ++i)
        for (int j = 0; j < 12; ++j)
            if (i != j && f[size_t(j)]->key.starts_with(f[size_t(i)]->key))
            {
                auto &o = fvcc::oldTime(*f[size_t(j)]), &p = fvcc::oldTime(*f[size_t(i)]);
                EXPECT(&o != &p && p.name == "f" + std::to_string(i) + "_0" && val(p.internalField())[0] == i);
                return 0;
            }
    EXPECT(false);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"a field whose key is the beginning of the key of another one that has an old time","the old time of another field is handed out",inc=("bcs.hpp",))
kseed("oldtime-clamps-index","C28",[("include/NeoFOAM/core/database/oldTimeCollection.hpp",
"                .timeIndex = fieldDoc.timeIndex() - 1,",
"                .timeIndex = fieldDoc.timeIndex() > 0 ? fieldDoc.timeIndex() - 1 : 0,")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    NeoFOAM::Database db;
    Conditions<scalar> c(d);
    auto& a = registered(db, conditioned<scalar>(m, c, {1, 3}, {0, 0}));
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    fc.fieldDoc(a.key).timeIndex() = 1;
    auto &o = fvcc::oldTime(a), &oo = fvcc::oldTime(o);
    EXPECT(fc.fieldDoc(o.key).timeIndex() == 0 && fc.fieldDoc(oo.key).timeIndex() == -1);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"levels below the start of the simulation","two levels of a field have the same time index",inc=("bcs.hpp",))
_MPI=dict(shims=("fakempi",),support=("fakempi/fakempi.cpp",),defs="-DNF_WITH_MPI_SUPPORT")
kseed("comm-type-change-grows-only","C29",[("include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp",
"        if (0 == (typeSize_ - sizeof(valueType))) return;",
"        if (typeSize_ >= sizeof(valueType)) return; // there is room already")],r'''
int main()
{
    using namespace NeoFOAM;
    std::atomic<int> bad {0};
    fmpi::run(2, fmpi::Eager, [&](int r)
    {
        mpi::MPIEnvironment env;
        mpi::FullDuplexCommBuffer b(env, {1, 1}, {1, 1});
        b.initComm<double>("a"), b.startComm(), b.waitComplete(), b.finaliseComm();
        b.initComm<int>("b");
        if (b.getSend<int>(0).size() != 1 || b.getSend<int>(1).size() != 1) bad++;
        b.startComm(), b.waitComplete(), b.finaliseComm();
    });
    EXPECT(bad == 0);
    return 0;
}
''',_c.PRIM+_c.HALF,"a buffer used for a smaller type after a larger one","the buffer is divided into a wrong number of entries",inc=("kkh.hpp","fakempi.hpp","atomic","NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"),**_MPI)
kseed("comm-receive-stops-at-silent-rank","C29",[("src/core/mpi/halfDuplexCommBuffer.cpp",
"        if (rankOffset_[rank + 1] - rankOffset_[rank] == 0) continue;\n        irecv",
"        if (rankOffset_.back() - rankOffset_[rank] == 0 || rankOffset_[rank + 1] == rankOffset_[rank]) break;\n        irecv")],r'''
int main()
{
    using namespace NeoFOAM;
    std::atomic<int> bad {0};
    fmpi::run(2, fmpi::Eager, [&](int r)
    {
        mpi::MPIEnvironment env;
        // only to the other rank
        std::vector<std::size_t> n {r == 1 ? 1u : 0u, r == 0 ? 1u : 0u};
        mpi::FullDuplexCommBuffer b(env, n, n);
        b.initComm<double>("a");
        b.getSend<double>(size_t(1 - r))[0] = 10 + r;
        b.startComm(), b.waitComplete();
        if (b.getReceive<double>(size_t(1 - r))[0] != 10 + (1 - r)) bad++;
        b.finaliseComm();
    });
    EXPECT(bad == 0);
    return 0;
}
''',_c.PRIM+_c.HALF,"a rank without messages in front of one that sends","messages of later ranks are not received",inc=("kkh.hpp","fakempi.hpp","atomic","NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"),**_MPI)
kseed("halo-asymmetric-exchange-skipped","C30",[("include/NeoFOAM/mesh/unstructured/communicator.hpp",
"            auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);",
"            if (sendMap_[rank].empty()) continue; // not a neighbour\n            const auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);")],r'''
int main()
{
    using namespace NeoFOAM;
    kk::begin();
    std::atomic<int> bad {0};
    fmpi::run(2, fmpi::Eager, [&](int r)
    {
        mpi::MPIEnvironment env;
        // rank 0 tells rank 1 something, nothing comes back
        CommMap s(2), v(2);
        if (r == 0) s[1] = {NodeCommMap {0}};
        else v[0] = {NodeCommMap {1}};
        Communicator c(env, s, v);
        Field<scalar> f(SerialExecutor(), std::vector<scalar> {7.0 + r, 0});
        c.startComm(f, "x");
        c.finaliseComm(f, "x");
        if (r == 1 && (f.view()[1] != 7 || f.view()[0] != 8)) bad++;
    });
    EXPECT(bad == 0);
    return 0;
}
''',_c.EXE+_c.PRIM+_c.HALF+["src/mesh/unstructured/communicator.cpp"],"ranks of which only one sends to the other","received values are not stored",inc=("kkh.hpp","fakempi.hpp","atomic","NeoFOAM/mesh/unstructured/communicator.hpp"),**_MPI)
kseed("environment-size-of-world","C31",[("include/NeoFOAM/core/mpi/environment.hpp",
"        MPI_Comm_size(communicator, &mpi_size);","        MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);")],r'''
int main()
{
    using namespace NeoFOAM;
    std::atomic<int> bad {0};
    fmpi::run(3, fmpi::Eager, [&](int r)
    {
        auto sub = fmpi::makeComm({0, 2});
        if (r == 1) return;
        mpi::MPIEnvironment env(sub);
        if (env.sizeRank() != 2 || env.rank() != size_t(r / 2)) bad++;
    });
    EXPECT(bad == 0);
    return 0;
}
''',_c.PRIM,"an environment of a group of ranks","the environment reports the number of all ranks",inc=("kkh.hpp","fakempi.hpp","atomic","NeoFOAM/core/mpi/environment.hpp"),**_MPI)
kseed("reduce-vector-max-wrong-count","C31",[("include/NeoFOAM/core/mpi/operators.hpp",
"        static_cast<mpi_label_t>(vector.size()),\n        getType<scalar>(),\n        getOp(op),",
"        static_cast<mpi_label_t>(op == ReduceOp::Sum ? vector.size() : vector.size() - 1),\n        getType<scalar>(),\n        getOp(op),")],r'''
int main()
{
    using namespace NeoFOAM;
    std::atomic<int> bad {0};
    fmpi::run(2, fmpi::Eager, [&](int r)
    {
        Vector v(1.0 * r, 2.0 - r, 5.0 * r);
        mpi::allReduce(v, mpi::ReduceOp::Max, MPI_COMM_WORLD);
        if (v[0] != 1 || v[1] != 2 || v[2] != 5) bad++;
    });
    EXPECT(bad == 0);
    return 0;
}
''',_c.PRIM,"a reduction of vectors other than a sum","the last component is not reduced",inc=("kkh.hpp","fakempi.hpp","atomic","NeoFOAM/core/mpi/operators.hpp"),**_MPI)
kseed("csr-entry-first-not-less","C32",[("include/NeoFOAM/linearAlgebra/CSRMatrix.hpp",
"            if (colIdxs[localCol] == j)\n            {\n                return values[localCol];","            if (colIdxs[localCol] >= j)\n            {\n                return values[localCol];")],r'''
#include "NeoFOAM/linearAlgebra/CSRMatrix.hpp"
int main()
{
    using namespace kh;
    kk::begin();
    // columns of a row in the order in which faces are met
    la::CSRMatrix<scalar, localIdx> a(make<scalar>(execOf(0), {1, 2, 3}), make<localIdx>(execOf(0), {2, 0, 1}), make<localIdx>(execOf(0), {0, 3}));
    auto v = a.view();
    EXPECT(v.entry(0, 0) == 2 && v.entry(0, 1) == 3 && v.entry(0, 2) == 1);
    return 0;
}
'''.replace("la::","NeoFOAM::la::").replace("localIdx","NeoFOAM::localIdx"),_c.EXE+_c.PRIM,"a row whose columns are not sorted","the value of another column is handed out",inc=("kkh.hpp",))
kseed("steady-source-first-volume","C33",[("include/NeoFOAM/dsl/solver.hpp",
"rhs[i] -= expSource[i] * vol[i]; }","rhs[i] -= expSource[i] * vol[0]; }")],_STEP+r'''
#include "standin_solver.hpp"
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 3});
    auto m = d.make(execOf(0));
    Conditions<scalar> c(d);
    auto phi = conditioned<scalar>(m, c, {1, 3}, {0, 0});
    auto k = volField<scalar>(m, {2, 2}, {0, 0}, "k");
    auto q = volField<scalar>(m, {6, 10}, {0, 0}, "q");
    dsl::Expression<scalar> e(m.exec());
    e.addOperator(dsl::imp::source(k, phi));
    e.addOperator(dsl::exp::source(k, q));
    auto s = schemes("");
    Dictionary sol({{"solver", std::string("exact")}});
    dsl::solve(e, phi, 0.0, 1.0, s, sol);
    auto x = val(phi.internalField());
    EXPECT(std::abs(x[0] + 6) < 1e-12 && std::abs(x[1] + 10) < 1e-12);
    return 0;
}
''',_c.ALLFV+_c.TIME,"cells of different volumes and an explicit term","the explicit term is weighted with the volume of the first cell",inc=("terms.hpp",))
kseed("courant-touched-cells-only","C35",[("src/finiteVolume/cellCentred/auxiliary/coNum.cpp",
"""        {0, mesh.nCells()},
        KOKKOS_LAMBDA(const size_t celli, NeoFOAM::scalar& lmax) {""",
"""        {0, std::min(mesh.nCells(), nInternalFaces + 1)},
        KOKKOS_LAMBDA(const size_t celli, NeoFOAM::scalar& lmax) {""")],r'''
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
int main()
{
    using namespace fv;
    kk::begin();
    auto d = abstractMesh(3, {{0, 1}}, {{2, 2}});
    auto m = d.make(execOf(0));
    auto f = surfField<scalar>(m, {0.5, 3, 4});
    double want = std::max(0.5 * (3 + 4) / d.V[2], 0.5 * 0.5 / std::min(d.V[0], d.V[1]));
    EXPECT(std::abs(fvcc::computeCoNum(f, 1.0) - want) < 1e-12);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD+[_c.FV+"auxiliary/coNum.cpp"],"a mesh of several parts","cells beyond the number of internal faces are not considered",inc=("fv.hpp",))
