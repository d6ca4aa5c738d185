// What every external linear solver must see and give back.  Included inside the anonymous namespace of
// the harness of one solver, which defines settings(), begin(), afresh(), handed(), answered(), setFactor(),
// left() and SPACES.
template<typename T>
std::vector<double> dense(const Model<T>& m)
{
    std::vector<double> a(m.n() * m.n(), 0.0);
    size_t k = 0;
    for (size_t i = 0; i < m.n(); ++i)
        for (auto c : m.rows[i]) a[i * m.n() + c] = m.values[k++];
    return a;
}
// does every row and every column have an entry?  (otherwise there is no solution)
template<typename T>
bool solvable(const Model<T>& m)
{
    std::vector<bool> c(m.n(), false);
    for (auto& r : m.rows)
    {
        if (r.empty()) return false;
        for (auto k : r) c[k] = true;
    }
    return std::find(c.begin(), c.end(), false) == c.end();
}
template<typename T, typename I>
void unchanged(const la::LinearSystem<T, I>& s, const Model<T>& m, const std::string& what)
{
    const Field<I> col = s.matrix().colIdxs();
    MC_CHECK(same(val(s.matrix().values()), m.values) && same(val(col), m.template cols<I>()) && same(val(s.matrix().rowPtrs()), m.template offs<I>()) && same(val(s.rhs()), m.rhs), "system-changed", what, " changed the system");
}
void one(const Model<scalar>& m, int e, double factor)
{
    auto ex = execOf(e);
    begin();
    setFactor(factor);
    std::string what = mc::cat(m.text(), ", values ", show(m.values), ", right-hand side ", show(m.rhs), " on ", EXEC[e]);
    {
        auto s = system<scalar, localIdx>(ex, m);
        auto x = kh::make(ex, distinct<scalar>(m.n(), 3));
        auto* at = x.data();
        la::Solver(ex, settings()).solve(s, x);
        handed(dense(m), m.rhs, e, what);
        auto y = answered();
        MC_CHECK(indexOf(x.exec()) == e, "executor", what, ": the solution is on ", EXEC[indexOf(x.exec())]);
        MC_CHECK(same(val(x), y), "answer", what, ": the solver answered ", show(y), ", stored is ", show(val(x)));
        (void)at;
        if (factor == 1) // it solves the system
        {
            auto r = m.residual(y);
            for (size_t i = 0; i < r.size(); ++i) MC_CHECK(std::abs(r[i]) < 1e-6 * (1 + std::abs(m.rhs[i])), "solution", what, ": x = ", show(y), " leaves ", show(r));
        }
        unchanged(s, m, what);
        MC_STEP(what);
    }
    MC_CHECK(left() == 0, "released", what, ": ", left(), " objects are left over");
}
void systems()
{
    int e = choose(SPACES, "executor");
    double factor = choose(2, "answer") ? 3 : 1;
    kk::begin(kk::Forward);
    int large = choose(2, "size");
    auto m = large ? pickLarge<scalar>() : pickModel<scalar>(mc::thorough() ? 3 : 2);
    if (!solvable(m) || m.n() == 0) mc::prune();
    one(m, e, factor);
}
// in quick runs of three rows, the executor follows from the matrix
void three()
{
    auto& s = selections(3);
    int a = choose(int(s.size()), "columns"), b = choose(int(s.size()), "columns"), c = choose(int(s.size()), "columns");
    if (!mc::thorough() && (a + 2 * b + 3 * c) % 4) mc::prune();
    kk::begin(kk::Forward);
    auto m = fill<scalar>({s[size_t(a)], s[size_t(b)], s[size_t(c)]});
    if (!solvable(m)) mc::prune();
    one(m, (a + b + c) % SPACES, a % 2 ? 1 : 3);
}
// solver objects of any age solve any system
void reuse()
{
    int e = choose(SPACES, "executor");
    kk::begin(kk::Forward);
    begin();
    auto ex = execOf(e);
    static const std::vector<Model<scalar>> M = [] {
        std::vector<Model<scalar>> r;
        r.push_back(fill<scalar>({{1, 0}, {1}}));
        r.push_back(fill<scalar>({{0, 2}, {1, 0}, {2, 1}}));
        r.push_back(fill<scalar>({{0}}));
        return r;
    }();
    int before = left();
    {
        std::vector<la::LinearSystem<scalar, localIdx>> s;
        std::vector<Field<scalar>> x;
        std::vector<std::vector<scalar>> v;
        for (auto& m : M) s.push_back(system<scalar, localIdx>(ex, m)), v.push_back(distinct<scalar>(m.n(), 3)), x.push_back(kh::make(ex, v.back()));
        std::vector<std::unique_ptr<la::Solver>> solver;
        solver.push_back(std::make_unique<la::Solver>(ex, settings()));
        std::string h;
        for (int i = 0; i < (mc::thorough() ? 5 : 4); ++i)
        {
            int op = choose(7, "operation");
            h += mc::cat(" ", op);
            std::string what = mc::cat("history", h, " on ", EXEC[e]);
            size_t last = solver.size() - 1;
            if (op < 3) // solve with the youngest
            {
                afresh();
                setFactor(i % 2 ? 1 : 2);
                solver[last]->solve(s[size_t(op)], x[size_t(op)]);
                handed(dense(M[size_t(op)]), M[size_t(op)].rhs, e, what);
                v[size_t(op)] = answered();
            }
            if (op == 3) // solve with the oldest
            {
                if (!last) mc::prune();
                afresh();
                solver[0]->solve(s[1], x[1]);
                handed(dense(M[1]), M[1].rhs, e, what);
                v[1] = answered();
            }
            if (op == 4) solver.push_back(std::make_unique<la::Solver>(*solver[last]));
            if (op == 5)
            {
                auto m = std::make_unique<la::Solver>(std::move(*solver[last]));
                solver[last] = std::move(m);
            }
            if (op == 6)
            {
                if (!last) mc::prune();
                solver.erase(solver.begin()); // the oldest dies
            }
            for (size_t k = 0; k < x.size(); ++k)
            {
                MC_CHECK(same(val(x[k]), v[k]), "answer", what, ": solution ", k, " is ", show(val(x[k])), ", expected ", show(v[k]));
                unchanged(s[k], M[k], what);
            }
            MC_STEP(what);
        }
        mc::noteState(h);
    }
    MC_CHECK(left() == before, "released", left() - before, " objects are left over");
}
// whole equations
void steady()
{
    auto p = pick2();
    if (p.e >= SPACES) mc::prune();
    static const std::vector<MeshData> L = [] {
        auto& a = meshList();
        std::vector<MeshData> l {a[1], a[7], a[3]};
        l.push_back(skewed());
        return l;
    }();
    const MeshData& d = L[size_t(choose(4, "mesh"))];
    World<scalar> w(d, p.exec, pickConditions<scalar>(d, 2));
    auto terms = pickTerms(ExpSource, Terms, mc::thorough() ? 3 : 2);
    bool imp = false;
    for (auto& u : terms) imp = imp || isImplicit(u.term);
    if (!imp) mc::prune();
    std::string what = mc::cat(show(terms), " = 0 on ", d.name, ", conditions ", w.c.text());
    auto v = distinct<scalar>(d.nCells(), 1);
    auto phi = conditioned<scalar>(w.m, w.c, v, distinct<scalar>(d.nB(), 40), "phi");
    phi.correctBoundaryConditions();
    auto b = val(phi.boundaryField().value());
    dsl::Expression<scalar> e(w.m.exec());
    for (auto& u : terms) e.addOperator(w.make(u, phi));
    begin();
    dsl::solve(e, phi, 2.0, 0.5, schemes("", SCHEME[w.div]), settings());
    auto x = val(phi.internalField());
    MC_CHECK(same(x, answered()), "answer", what, ": the solver answered ", show(answered()), ", stored is ", show(x));
    auto r = sum(w.values(terms, 0, v, b), w.values(terms, 1, x, w.c.values(d, x, b)));
    double size = 1;
    for (auto q : x) size = std::max(size, std::abs(q));
    for (size_t i = 0; i < r.size(); ++i) MC_CHECK(std::abs(r[i]) < 1e-8 * size, "solution", what, ": x = ", show(x), " leaves ", show(r));
    w.untouched(what);
    MC_CHECK(left() == 0, "released", what, ": ", left(), " objects are left over");
    MC_STEP(what);
}
