kseed("extrapolated-reuses-previous-face","C34",[(_CC+"boundary/volume/extrapolated.hpp",
"            ValueType internalCellValue = iField[static_cast<size_t>(faceCells[i])];",
"""            // consecutive faces often belong to the same cell
            const bool sameCell = i > range.first && faceCells[i] == faceCells[i - 1];
            ValueType internalCellValue =
                sameCell ? value[i - 1] : iField[static_cast<size_t>(faceCells[i])];""")],r'''
int main()
{
    using namespace fv;
    kk::begin(kk::Reverse); // the iterations of a kernel may run in any order
    auto d = abstractMesh(2, {{0, 1}}, {{0, 0, 1}});
    auto m = d.make(execOf(1));
    Conditions<scalar> c(d);
    c.type = {ExtrapolatedBc};
    auto phi = conditioned<scalar>(m, c, {3, 5}, {70, 80, 90});
    phi.correctBoundaryConditions();
    auto b = val(phi.boundaryField().value());
    EXPECT(b[0] == 3 && b[1] == 3 && b[2] == 5);
    return 0;
}
''',_c.MESH+_c.BCS+_c.FLD,"two consecutive boundary faces of one cell handled by different threads, the later one first","the later face gets the value of the time before",inc=("bcs.hpp",))
kseed("sundials-keeps-first-equation","C36",[("src/timeIntegration/rungeKutta.cpp",
"    pdeExpr_ = std::make_unique<dsl::Expression<ValueType>>(exp);",
"""    // the equation does not change between the steps
    if (!pdeExpr_ || pdeExpr_->size() != exp.size())
    {
        pdeExpr_ = std::make_unique<dsl::Expression<ValueType>>(exp);
    }""")],r'''
int main()
{
    using namespace fv;
    kk::begin();
    fsun::begin();
    auto d = line({0, 1, 2});
    World<scalar> w(d, execOf(0), Conditions<scalar>(d));
    NeoFOAM::Database db;
    Problem<scalar> a(w, db, {{ExpSource, 1.0}}, "phi", 1), b(w, db, {{ExpSource, 5.0}}, "psi", 2);
    Dictionary s = schemes("Runge-Kutta");
    s.subDict("ddtSchemes").insert("Runge-Kutta-Method", std::string("Forward-Euler"));
    auto sol = solution(nullptr);
    a.e.build(s), b.e.build(s);
    NeoFOAM::timeIntegration::TimeIntegration<Vol<scalar>> in(s.subDict("ddtSchemes"), sol);
    in.solve(a.e, *a.phi, 0, 0.5);
    in.solve(b.e, *b.phi, 0, 0.5);
    EXPECT(fsun::steps.size() == 2);
    auto want = shifted(std::vector<double>(b.v.size(), 0.0), -1.0, w.values(b.terms, 0, b.v, b.b));
    EXPECT(same(fsun::steps[1].rhs, want));
    return 0;
}
''',_c.ALLFV+_c.TIME+["src/timeIntegration/rungeKutta.cpp"],"one integrator used for two equations with the same number of terms","the integrator steps the second unknown with the first equation",inc=("problem.hpp","NeoFOAM/timeIntegration/timeIntegration.hpp","NeoFOAM/timeIntegration/rungeKutta.hpp","fakesun.hpp"),defs="-DNF_WITH_SUNDIALS=1",shims=("mpiabort","sundials"),support=("sundials/fakesun.cpp",))
kseed("ginkgo-drops-empty-settings","C36",[("src/linearAlgebra/ginkgo.cpp",
"        if (dict.isDict(key))\n        {\n            node = parse(dict.subDict(key));\n        }",
"        const bool section = dict.isDict(key);\n        if (section && dict.subDict(key).empty())\n        {\n            continue; // nothing is set there\n        }\n        if (section)\n        {\n            node = parse(dict.subDict(key));\n        }")],r'''
int main()
{
    NeoFOAM::Dictionary d;
    d.insert("preconditioner", NeoFOAM::Dictionary());
    auto p = NeoFOAM::la::ginkgo::parse(d);
    EXPECT(p.get_map().count("preconditioner") == 1);
    return 0;
}
''',_c.ALLFV+["src/linearAlgebra/ginkgo.cpp","src/linearAlgebra/utilities.cpp"],"settings with an empty sub-dictionary","the external solver does not get a setting the caller made",inc=("fv.hpp","NeoFOAM/linearAlgebra/ginkgo.hpp"),defs="-UNF_WITH_GINKGO -DNF_WITH_GINKGO=1",shims=("mpiabort","ginkgo"),support=("ginkgo/fakeginkgo.cpp",))
