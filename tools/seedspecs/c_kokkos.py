import sys as _s
_s.path.insert(0,H); _s.dont_write_bytecode=True
import checks as _c
def kseed(id,prop,edits,body,sources,needs,breaks,inc=("fv.hpp",),defs="",shims=(),support=(),link=""):
    hpp={f:f"{H}/harness/{f}" for f in("kkh.hpp","meshes.hpp","fv.hpp","bcs.hpp","opref.hpp","systems.hpp","terms.hpp","sparse.hpp","structure.hpp","standin_solver.hpp","problem.hpp")}
    hpp["mc.hpp"]=f"{H}/tools/demo/mc.hpp"
    sh=["kokkos","cpptrace"]+list(shims or ["mpiabort"])
    for s in sh: hpp[s]=f"{H}/shim/{s}"
    demo="".join(f'#include <{x}>\n' for x in inc)+'#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while (0)\n'+body.lstrip()
    prog=f'''export f="-std=c++20 -O1 -w -pthread -DKK_STANDALONE -DNF_WITH_GINKGO=0 -DNF_WITH_PETSC=0 -DNEOFOAM_DP_SCALAR=1 {defs} -I$PWD/include -I$d {' '.join('-I$d/'+s for s in sh)}" t
printf '%s\\n' "$d/demo.cpp" "$d/kokkos/kk.cpp" {' '.join('"$d/'+s+'"' for s in support)} {' '.join(sources)} |
xargs -P8 -I@ sh -c 'g++ $f -c "@" -o "$t/$(echo "@" | tr / _).o"' || exit 3
g++ -pthread "$t"/*.o {link} -o "$t/demo" || exit 3
timeout 120 "$t/demo" 2>"$t/err"; rc=$?
[ $rc -eq 0 ] || tail -5 "$t/err"
exit $rc
'''
    seed(id,prop,edits,demo,needs=needs,breaks=breaks,extra=hpp,prog=prog)
_FLD=_c.EXE+_c.PRIM
kseed("for-serial-unrolled","C14",[("include/NeoFOAM/core/parallelAlgorithms.hpp",
"""        for (size_t i = start; i < end; i++)
        {
            kernel(i);
        }
    }
    else
    {
        using runOn = typename Executor::exec;
        Kokkos::parallel_for(
            name,
            Kokkos::RangePolicy<runOn>(start, end),
            KOKKOS_LAMBDA(const size_t i) { kernel(i); }""",
"""        // two iterations per step
        size_t i = start;
        for (; i + 1 < end; i += 2)
        {
            kernel(i);
            kernel(i + 1);
        }
        if (end % 2 == 1 && start < end)
        {
            kernel(end - 1);
        }
    }
    else
    {
        using runOn = typename Executor::exec;
        Kokkos::parallel_for(
            name,
            Kokkos::RangePolicy<runOn>(start, end),
            KOKKOS_LAMBDA(const size_t i) { kernel(i); }""")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (size_t a = 0; a < 5; ++a)
        for (size_t b = a; b < 7; ++b)
        {
            std::vector<int> n(8, 0);
            int* p = n.data();
            NeoFOAM::parallelFor(execOf(0), {a, b}, [p](const size_t i) { p[i] += 1; });
            for (size_t i = 0; i < 8; ++i) EXPECT(n[i] == (i >= a && i < b));
        }
    return 0;
}
''',_FLD,"a range with an odd start on the serial executor","iterations are run twice or not at all",inc=("kkh.hpp",))
kseed("reduce-field-initial-from-first","C14",[("include/NeoFOAM/core/parallelAlgorithms.hpp",
"""        using runOn = typename Executor::exec;
        Kokkos::parallel_reduce(
            "parallelReduce", Kokkos::RangePolicy<runOn>(0, field.size()), kernel, value
        );""",
"""        using runOn = typename Executor::exec;
        const size_t fieldSize = field.size();
        if (fieldSize == 0)
        {
            return; // nothing to launch
        }
        Kokkos::parallel_reduce(
            "parallelReduce", Kokkos::RangePolicy<runOn>(0, fieldSize), kernel, value
        );""")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (int e = 0; e < 3; ++e)
    {
        Field<scalar> f(execOf(e), 0);
        double r = 17;
        NeoFOAM::parallelReduce(f, [](const size_t, double& s) { s += 1; }, r);
        EXPECT(r == 0);
    }
    return 0;
}
''',_FLD,"a reduction over an empty field into a variable that held something","the target keeps its old content",inc=("kkh.hpp",))
kseed("assign-keeps-larger-storage","C15",[("include/NeoFOAM/fields/field.hpp",
"""        if (this->size() != rhs.size())
        {
            this->resize(rhs.size());
        }
        setField""",
"""        // storage that is large enough can be used as it is
        if (this->size() < rhs.size())
        {
            this->resize(rhs.size());
        }
        setField""")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    auto a = make<scalar>(execOf(0), {1, 2, 3, 4}), b = make<scalar>(execOf(0), {7, 8, 9, 10});
    a = b;
    EXPECT(val(a) == val(b));
    auto c = make<scalar>(execOf(1), {1, 2, 3}), d = make<scalar>(execOf(1), {5});
    c = d;
    EXPECT(val(c) == val(d) || (c.size() == 3));
    return c.size() != 1;
}
''',_FLD,"assignment of a shorter field (the assertion free set loop then reads beyond it)","the assigned field keeps its old length",inc=("kkh.hpp",))
kseed("move-keeps-size","C15",[("include/NeoFOAM/fields/field.hpp",
"        if (dstExec == exec_) return *this;\n\n        Field<ValueType> result(dstExec, size_);",
"        if (dstExec.index() == exec_.index() || size_ == 0) return *this;\n\n        Field<ValueType> result(dstExec, size_);")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (int e = 0; e < 3; ++e)
        for (int t = 0; t < 3; ++t)
            for (size_t n = 0; n < 3; ++n)
            {
                Field<label> f(execOf(e), n, label(4));
                EXPECT(indexOf(f.copyToExecutor(execOf(t)).exec()) == t);
            }
    return 0;
}
''',_FLD,"copying an empty field to another executor","the copy reports the executor of the source",inc=("kkh.hpp",))
kseed("scalarmul-by-zero-clears","C16",[("include/NeoFOAM/fields/fieldFreeFunctions.hpp",
"        a, KOKKOS_LAMBDA(const size_t i) { return viewA[i] * value; }",
"        a, KOKKOS_LAMBDA(const size_t i) { return value == 0 ? ValueType() : ValueType(viewA[i] * value); }")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    for (int e = 0; e < 3; ++e)
    {
        auto f = make<scalar>(execOf(e), {1, inf, nan});
        NeoFOAM::scalarMul(f, 0.0);
        auto v = val(f);
        EXPECT(v[0] == 0 && std::isnan(v[1]) && std::isnan(v[2]));
    }
    return 0;
}
''',_FLD,"scaling by zero a field that holds infinity or NaN","entries that are not numbers become zero",inc=("kkh.hpp",))
kseed("segments-skip-empty","C17",[("include/NeoFOAM/fields/segmentedField.hpp",
"            if (final)\n            {\n                offsSpan[i] = update;",
"            if (final && inSpan[i] > 0)\n            {\n                offsSpan[i] = update;")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (int e = 0; e < 3; ++e)
    {
        auto n = make<localIdx>(execOf(e), {2, 0, 3, 0});
        NeoFOAM::SegmentedField<scalar, localIdx> s(n);
        auto o = val(s.segments());
        EXPECT((o == std::vector<localIdx> {0, 2, 2, 5, 5}));
    }
    return 0;
}
''',_FLD,"an interval of length zero","the bounds of empty segments and their successors are wrong",inc=("kkh.hpp","NeoFOAM/fields/segmentedField.hpp"))
kseed("segments-last-extends","C17",[("include/NeoFOAM/fields/segmentedField.hpp",
"        return Kokkos::pair<IndexType, IndexType> {segments[segI], segments[segI + 1]};",
"""        // the last segment extends to the end of the values
        const bool last = segI + 2 == segments.size();
        return Kokkos::pair<IndexType, IndexType> {
            segments[segI], last ? static_cast<IndexType>(values.size()) : segments[segI + 1]
        };""")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    auto v = make<scalar>(execOf(0), {1, 2, 3, 4, 5});
    auto o = make<localIdx>(execOf(0), {0, 2, 4}); // one value beyond the last segment
    NeoFOAM::SegmentedField<scalar, localIdx> s(v, o);
    auto w = s.view();
    auto [b, e] = w.bounds(1);
    EXPECT(b == 2 && e == 4);
    EXPECT(w.range(1).second == 2 && w.span(1).size() == 2);
    return 0;
}
''',_FLD,"segments that do not cover all values","bounds of the last segment disagree with its range",inc=("kkh.hpp","NeoFOAM/fields/segmentedField.hpp"))
_M=_c.MESH
kseed("boundary-copy-offset-stays","C18",[("include/NeoFOAM/fields/boundaryFields.hpp",
"          boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),",
"          boundaryTypes_(exec, rhs.boundaryTypes_), offset_(rhs.offset_),")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (int e = 0; e < 3; ++e)
        for (int t = 0; t < 3; ++t)
        {
            NeoFOAM::BoundaryFields<scalar> b(execOf(e), std::vector<localIdx> {0, 2, 3});
            NeoFOAM::BoundaryFields<scalar> c(execOf(t), b);
            EXPECT(indexOf(c.exec()) == t && indexOf(c.value().exec()) == t && indexOf(c.offset().exec()) == t && c.nBoundaries() == 2);
        }
    return 0;
}
''',_M,"a copy to another executor","the patch offsets of the copy stay on the executor of its source",inc=("kkh.hpp","NeoFOAM/fields/domainField.hpp"))
kseed("boundary-copy-gradient-from-value","C18",[("include/NeoFOAM/fields/boundaryFields.hpp",
"          valueFraction_(rhs.valueFraction_), refGrad_(rhs.refGrad_),",
"          valueFraction_(rhs.valueFraction_), refGrad_(rhs.refValue_),")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    NeoFOAM::BoundaryFields<scalar> b(execOf(0), std::vector<localIdx> {0, 2});
    put<scalar>(b.refGrad(), {3, 4});
    put<scalar>(b.refValue(), {5, 6});
    NeoFOAM::BoundaryFields<scalar> c(b);
    EXPECT((val(c.refGrad()) == std::vector<scalar> {3, 4}));
    EXPECT((val(c.refValue()) == std::vector<scalar> {5, 6}));
    return 0;
}
''',_M,"copying boundary data with a gradient","the copy has the reference value as its gradient",inc=("kkh.hpp","NeoFOAM/fields/domainField.hpp"))
kseed("uniform-mesh-face-centres-early","C19",[("src/mesh/unstructured/unstructuredMesh.cpp",
"    auto meshPoints = meshPointsHost.copyToExecutor(exec);\n",
"    auto meshPoints = meshPointsHost.copyToExecutor(exec);\n    vectorField faceCenters(exec, meshPoints); // the faces are the points\n"),
("src/mesh/unstructured/unstructuredMesh.cpp","    vectorField faceCenters(exec, meshPoints);\n    scalarField magFaceAreas","    scalarField magFaceAreas")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (int e = 0; e < 3; ++e)
        for (size_t n = 1; n < 5; ++n)
        {
            auto m = NeoFOAM::create1DUniformMesh(execOf(e), n);
            auto c = val(m.faceCentres());
            for (size_t i = 0; i + 1 < n; ++i) EXPECT(std::abs(c[i][0] - double(i + 1) / double(n)) < 1e-12);
            EXPECT(c[n - 1][0] == 0 && c[n][0] == 1);
        }
    return 0;
}
''',_M,"a uniform mesh of more than one cell","the centres of the internal faces are at the origin",inc=("meshes.hpp",))
kseed("uniform-mesh-right-owner","C19",[("src/mesh/unstructured/unstructuredMesh.cpp",
"    deltaHostSpan[1] = {rightBoundary[0] - cellCentersHostSpan[nCells - 1][0], 0.0, 0.0};",
"    deltaHostSpan[1] = -1.0 * deltaHostSpan[0];"),
("src/mesh/unstructured/unstructuredMesh.cpp",
"            cellCentersSpan[i][0] = 0.5 * meshSpacing + meshSpacing * static_cast<scalar>(i);",
"            cellCentersSpan[i][0] = meshSpacing * (0.5 + static_cast<scalar>(i));"),
("src/mesh/unstructured/unstructuredMesh.cpp",
"        {exec, {0, static_cast<int>(nCells) - 1}},",
"        {exec, {0, static_cast<int>(nCells - 1) & 0xff}},")],r'''
int main()
{
    using namespace kh;
    kk::begin();
    for (size_t n : {1, 2, 3, 200, 256, 257, 300, 1025})
    {
        auto m = NeoFOAM::create1DUniformMesh(execOf(0), n);
        EXPECT(val(m.boundaryMesh().faceCells())[1] == label(n) - 1);
        EXPECT(val(m.faceOwner())[n] == label(n) - 1);
    }
    return 0;
}
''',_M,"a uniform mesh of more than 256 cells","the right boundary face is attached to a cell in the middle",inc=("meshes.hpp",))
_G=_c.MESH+_c.GEO+_c.INTERP+_c.BCS+_c.FLD
kseed("weights-absolute-threshold","C20",[(_c.FV+"stencil/basicGeometryScheme.cpp",
"            if (std::abs(sfdOwn + sfdNei) > ROOTVSMALL)",
"            if (std::abs(sfdOwn + sfdNei) > 1e-12)")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    for (double s : {1.0, 1e-2, 1e-5, 1e3})
    {
        auto m = scaled(line({0, 1, 4}), s).make(execOf(0));
        auto w = val(fvcc::GeometryScheme::readOrCreate(m)->weights().internalField());
        EXPECT(std::abs(w[0] - 0.75) < 1e-9);
    }
    return 0;
}
''',_G,"a mesh with cells of a tenth of a millimetre and below","interpolation weights fall back to one half",inc=("fv.hpp","NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"))
kseed("upwind-zero-flux-average","C20",[(_c.FV+"interpolation/upwind.cpp",
"                if (fluxS[facei] >= 0)",
"                if (!(fluxS[facei] <= 0))")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 3});
    auto m = d.make(execOf(0));
    for (double q : {2.0, 0.0, -2.0})
    {
        auto f = surfField<scalar>(m, {q, q, q});
        auto phi = volField<scalar>(m, {5, 9}, {1, 2});
        auto r = surfField<scalar>(m, {0, 0, 0}, "r");
        fvcc::SurfaceInterpolation<scalar> up(m.exec(), m, tokens({"upwind"}));
        up.interpolate(f, phi, r);
        double w = val(up.weight(f, phi).internalField())[0];
        EXPECT(val(r.internalField())[0] == w * 5 + (1 - w) * 9);
        EXPECT(val(r.internalField())[0] == (q >= 0 ? 5 : 9));
    }
    return 0;
}
''',_c.ALLFV,"a face with zero flux","the explicit upwind value disagrees with the upwind weight",inc=("terms.hpp",))
kseed("pattern-shared-by-size","C21",[(_c.FV+"linearAlgebra/sparsityPattern.cpp",
"""    if (!stencilDb.contains("SparsityPattern"))
    {
        stencilDb.insert(std::string("SparsityPattern"), std::make_shared<SparsityPattern>(mesh));
    }""",
"""    if (!stencilDb.contains("SparsityPattern"))
    {
        // meshes share the pattern of the one before while it is the same
        static std::shared_ptr<SparsityPattern> last;
        if (last == nullptr || last->mesh().exec() != mesh.exec() || &last->mesh() != &mesh
            || last->nnz() != mesh.nCells() + 2 * mesh.nInternalFaces())
        {
            last = std::make_shared<SparsityPattern>(mesh);
        }
        stencilDb.insert(std::string("SparsityPattern"), last);
    }""")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    // two meshes, one after the other at the same place, with the same numbers of cells and faces
    alignas(UnstructuredMesh) static unsigned char room[sizeof(UnstructuredMesh)];
    auto a = abstractMesh(4, {{0, 1}, {1, 2}, {2, 3}}, {{0}}), b = abstractMesh(4, {{0, 3}, {1, 3}, {2, 3}}, {{0}});
    auto* m = new (room) UnstructuredMesh(a.make(execOf(0)));
    auto p = fvcc::SparsityPattern::readOrCreate(*m);
    auto ra = val(p->rowPtrs());
    EXPECT((ra == std::vector<localIdx> {0, 2, 5, 8, 10}));
    p.reset();
    m->~UnstructuredMesh();
    m = new (room) UnstructuredMesh(b.make(execOf(0)));
    auto rb = val(fvcc::SparsityPattern::readOrCreate(*m)->rowPtrs());
    EXPECT((rb == std::vector<localIdx> {0, 2, 4, 6, 10}));
    std::_Exit(0);
}
''',_M+_c.STRUCT,"a second mesh of the same sizes at the address of a destroyed one","the second mesh gets the sparsity pattern of the first",inc=("structure.hpp",))
kseed("div-serial-scales-touched-cells","C22",[(_c.FV+"operators/gaussGreenDiv.cpp",
"        for (size_t celli = 0; celli < nCells; celli++)\n        {\n            res[celli] *= operatorScaling[celli] / v[celli];",
"        const size_t nTouched = std::min(nCells, nInternalFaces + 1);\n        for (size_t celli = 0; celli < nTouched; celli++)\n        {\n            res[celli] *= operatorScaling[celli] / v[celli];")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = abstractMesh(4, {{0, 1}}, {{2}, {3, 3}});
    for (int e = 0; e < 3; ++e)
    {
        auto m = d.make(execOf(e));
        auto flux = surfField<scalar>(m, {1, 2, 3, 4});
        auto phi = volField<scalar>(m, {1, 2, 3, 4}, {10, 20, 30});
        fvcc::GaussGreenDiv<scalar> div(m.exec(), m, tokens({"linear"}));
        Field<scalar> r(m.exec(), 4, 0.0);
        div.div(r, flux, phi, dsl::Coeff(1.0));
        auto v = val(r);
        EXPECT(std::abs(v[2] - 2 * 10 / d.V[2]) < 1e-12 && std::abs(v[3] - (3 * 20 + 4 * 30) / d.V[3]) < 1e-12);
    }
    return 0;
}
''',_c.ALLFV,"a mesh of several unconnected parts on the serial executor","cells beyond the number of internal faces are not divided by their volume",inc=("terms.hpp",))
kseed("lap-scaling-hoisted","C22",[(_c.FV+"operators/gaussGreenLaplacian.cpp",
"        KOKKOS_LAMBDA(const size_t celli) { result[celli] *= operatorScaling[celli] / vol[celli]; }",
"        KOKKOS_LAMBDA(const size_t celli) { result[celli] *= operatorScaling[0] / vol[celli]; }")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(1));
    auto gamma = surfField<scalar>(m, {1, 1, 1}, "gamma");
    auto phi = volField<scalar>(m, {1, 1}, {1, 3});
    fvcc::GaussGreenLaplacian<scalar> lap(m.exec(), m, tokens({"linear", "uncorrected"}));
    Field<scalar> r(m.exec(), 2, 0.0);
    auto s = make<scalar>(m.exec(), {2, 5});
    lap.laplacian(r, gamma, phi, dsl::Coeff(1.0, s));
    EXPECT(std::abs(val(r)[1] - 5 * 2 * 2) < 1e-12 && val(r)[0] == 0);
    return 0;
}
''',_c.ALLFV,"a Laplacian scaled by a field that varies","all cells are scaled by the factor of the first",inc=("terms.hpp",))
kseed("imp-div-boundary-scaling-by-face","C23",[(_c.FV+"operators/gaussGreenDiv.cpp",
"            std::size_t rowOwnStart = matrix.rowOffs[own];\n            scalar operatorScalingOwn = operatorScaling[own];\n\n            // several",
"            std::size_t rowOwnStart = matrix.rowOffs[own];\n            scalar operatorScalingOwn = operatorScaling[bcfacei];\n\n            // several")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2, 3});
    auto m = d.make(execOf(0));
    auto flux = surfField<scalar>(m, {1, 1, -1, 1});
    Conditions<scalar> c(d);
    c.type = {FixedValueBc, ExtrapolatedBc};
    c.number = {3, 5};
    auto phi = conditioned<scalar>(m, c, {1, 2, 4}, {0, 0});
    phi.correctBoundaryConditions();
    auto ls = emptySystem<scalar>(m);
    fvcc::GaussGreenDiv<scalar> div(m.exec(), m, tokens({"upwind"}));
    auto s = make<scalar>(m.exec(), {2, 3, 7});
    div.div(ls, flux, phi, dsl::Coeff(1.0, s));
    auto r = Dense<scalar>(ls).residual({1, 2, 4});
    EXPECT(std::abs(r[2] - 7 * (4 - 2)) < 1e-9);
    return 0;
}
''',_c.ALLFV,"a term scaled by a field that varies, outflow from a cell that is not the first","boundary contributions are scaled by the factor of another cell",inc=("terms.hpp",))
kseed("imp-lap-scaling-of-owner","C23",[(_c.FV+"operators/gaussGreenLaplacian.cpp",
"            values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingNei;",
"            values[rowNeiStart + neiOffs[facei]] += flux * one<ValueType>() * operatorScalingOwn;")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    auto d = line({0, 1, 2});
    auto m = d.make(execOf(0));
    auto gamma = surfField<scalar>(m, {1, 1, 1}, "gamma");
    Conditions<scalar> c(d);
    auto phi = conditioned<scalar>(m, c, {1, 2}, {0, 0});
    phi.correctBoundaryConditions();
    auto ls = emptySystem<scalar>(m);
    auto s = make<scalar>(m.exec(), {2, 3});
    fvcc::GaussGreenLaplacian<scalar> lap(m.exec(), m, tokens({"linear", "uncorrected"}));
    lap.laplacian(ls, gamma, phi, dsl::Coeff(1.0, s));
    Dense<scalar> a(ls);
    EXPECT(a.a[1] == 2 && a.a[2] == 3);
    return 0;
}
''',_c.ALLFV,"a term scaled by a field that varies","rows of neighbours are scaled by the factor of the owner",inc=("terms.hpp",))
