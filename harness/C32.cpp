// Sparse matrices and linear systems keep structure and values together.
#include "sparse.hpp"
using namespace fv;

namespace
{
template<typename F>
bool refused(F&& f)
{
    try
    {
        f();
    }
    catch (const mc::ExitCalled&)
    {
        return true;
    }
    catch (const std::exception&)
    {
        return true;
    }
    return false;
}
// everything a matrix says about itself
template<typename T, typename I>
void checkMatrix(const la::CSRMatrix<T, I>& c, const Model<T>& m, const Executor& ex, const std::string& what)
{
    MC_CHECK(indexOf(c.exec()) == indexOf(ex), "executor", what, " reports ", EXEC[indexOf(c.exec())], ", expected ", EXEC[indexOf(ex)]);
    MC_CHECK(size_t(c.nRows()) == m.n() && size_t(c.nNonZeros()) == m.values.size(), "size", what, ": ", c.nRows(), " rows, ", c.nNonZeros(), " entries; expected ", m.n(), ", ", m.values.size());
    checkField(c.values(), m.values, "values", what + ": values");
    const Field<I> col = c.colIdxs(); // whatever it returns
    MC_CHECK(same(val(col), m.template cols<I>()), "columns", what, ": columns ", show(val(col)));
    checkField(c.rowPtrs(), m.template offs<I>(), "rows", what + ": row offsets");
    MC_CHECK(indexOf(c.values().exec()) == indexOf(ex) && indexOf(col.exec()) == indexOf(ex) && indexOf(c.rowPtrs().exec()) == indexOf(ex), "executor", what, ": values, columns and rows are on ", EXEC[indexOf(c.values().exec())], ", ",
             EXEC[indexOf(col.exec())], ", ", EXEC[indexOf(c.rowPtrs().exec())]);
}
template<typename T, typename I>
void checkSystem(const la::LinearSystem<T, I>& s, const Model<T>& m, const Executor& ex, const std::string& what)
{
    checkMatrix(s.matrix(), m, ex, what);
    checkField(s.rhs(), m.rhs, "rhs", what + ": right-hand side");
    MC_CHECK(indexOf(s.exec()) == indexOf(ex) && indexOf(s.rhs().exec()) == indexOf(ex), "executor", what, ": the system reports ", EXEC[indexOf(s.exec())], ", its right-hand side ", EXEC[indexOf(s.rhs().exec())]);
}
// reading and updating every position, in kernels on the executor
template<typename T, typename I>
void positions(const Model<T>& m)
{
    auto p = pick2();
    auto c = build<T, I>(p.exec, m);
    checkMatrix(c, m, p.exec, "the matrix " + m.text());
    auto mm = c.colIdxs();
    MC_CHECK(same(val(mm), m.template cols<I>()), "columns", m.text(), ": columns ", show(val(mm)));
    Model<T> now = m;
    size_t k = 0;
    for (size_t i = 0; i < m.n(); ++i)
        for (size_t j = 0; j < m.n() + 1; ++j)
        {
            auto it = std::find(m.rows[i].begin(), m.rows[i].end(), j);
            if (it == m.rows[i].end())
            {
                // a position that is not stored is refused
                auto w = c.view();
                bool no = refused([&] { NeoFOAM::parallelFor(p.exec, {0, 1}, KOKKOS_LAMBDA(const size_t) { w.entry(static_cast<I>(i), static_cast<I>(j)) = zeroOf<T>(); }); });
                MC_CHECK(no, "not-stored", m.text(), ": writing to (", i, ",", j, ") was accepted");
                MC_CHECK(same(val(c.values()), now.values), "not-stored", m.text(), ": the refused write to (", i, ",", j, ") left ", show(val(c.values())));
                continue;
            }
            k = size_t(m.template offs<I>()[i]) + size_t(it - m.rows[i].begin());
            auto r = kh::make(p.exec, std::vector<T>(3, of<T>(-1)));
            auto rv = r.view();
            auto w = c.view();
            const auto& cc = c;
            const auto cw = cc.view();
            size_t kk_ = k;
            bool no = refused([&]
                {
                    NeoFOAM::parallelFor(p.exec, {0, 1}, KOKKOS_LAMBDA(const size_t) {
                        rv[0] = w.entry(static_cast<I>(i), static_cast<I>(j));
                        rv[1] = cw.entry(static_cast<I>(i), static_cast<I>(j));
                        rv[2] = w.entry(static_cast<I>(kk_));
                    });
                });
            MC_CHECK(!no, "stored-refused", m.text(), ": reading the stored position (", i, ",", j, ") was refused");
            auto got = val(r);
            for (auto& g : got) MC_CHECK(same(g, now.values[k]), "stored", m.text(), ": the entry at (", i, ",", j, ") reads ", show(got), ", stored is ", show(now.values[k]));
            T nv = of<T>(500 + double(k));
            bool both = (i + j) % 2;
            NeoFOAM::parallelFor(p.exec, {0, 1}, KOKKOS_LAMBDA(const size_t) {
                if (both) w.entry(static_cast<I>(kk_)) = nv;
                else w.entry(static_cast<I>(i), static_cast<I>(j)) = nv;
            });
            now.values[k] = nv;
            MC_STEP("entry (", i, ",", j, ")");
        }
    checkMatrix(c, now, p.exec, "after updates the matrix " + m.text());
}
// every cell of the kernel writes its own row, all at once
template<typename T, typename I>
void sweep(const Model<T>& m)
{
    auto p = pick2(m.values.size() < 20000 || mc::thorough());
    auto s = system<T, I>(p.exec, m);
    auto v = s.view();
    size_t n = m.n();
    Model<T> now = m;
    NeoFOAM::parallelFor(p.exec, {0, n}, KOKKOS_LAMBDA(const size_t i) {
        for (auto k = v.matrix.rowOffs[i]; k < v.matrix.rowOffs[i + 1]; ++k) v.matrix.values[k] = v.matrix.values[k] + v.rhs[i];
        v.rhs[i] = v.rhs[i] * 2.0;
    });
    size_t k = 0;
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < m.rows[i].size(); ++j, ++k) now.values[k] = plus(now.values[k], m.rhs[i]);
        now.rhs[i] = scale(2, m.rhs[i]);
    }
    checkSystem(s, now, p.exec, "after a sweep the system " + m.text());
    const auto& cs = s;
    auto cv = cs.view();
    auto out = kh::make(p.exec, std::vector<T>(n, zeroOf<T>()));
    auto o = out.view();
    NeoFOAM::parallelFor(p.exec, {0, n}, KOKKOS_LAMBDA(const size_t i) {
        T t = cv.rhs[i];
        for (auto q = cv.matrix.rowOffs[i]; q < cv.matrix.rowOffs[i + 1]; ++q) t = t + cv.matrix.values[q] * static_cast<scalar>(cv.matrix.colIdxs[q] + 1);
        o[i] = t;
    });
    std::vector<T> want;
    k = 0;
    for (size_t i = 0; i < n; ++i)
    {
        T t = now.rhs[i];
        for (auto c : m.rows[i]) t = plus(t, scale(double(c + 1), now.values[k++]));
        want.push_back(t);
    }
    checkNear(val(out), want, "view", "read through the view: " + m.text());
    s.reset();
    for (auto& x : now.values) x = zeroOf<T>();
    for (auto& x : now.rhs) x = zeroOf<T>();
    checkSystem(s, now, p.exec, "after a reset the system " + m.text());
    MC_STEP("sweep");
}
template<typename I>
void products(const Model<scalar>& m)
{
    auto p = pick2(m.values.size() < 20000 || mc::thorough());
    auto s = system<scalar, I>(p.exec, m);
    auto x = distinct<scalar>(m.n(), 3);
    auto f = kh::make(p.exec, x);
    auto r = la::spmv(s, f);
    MC_CHECK(indexOf(r.exec()) == p.e && r.size() == m.n(), "product-shape", m.text(), ": the residual has ", r.size(), " entries on ", EXEC[indexOf(r.exec())]);
    checkNear(val(r), m.residual(x), "product", "A x - b of " + m.text() + (m.label.empty() ? " with x = " + show(x) : std::string()));
    checkSystem(s, m, p.exec, "after a product the system " + m.text());
    MC_CHECK(same(val(f), x), "product", m.text(), ": the product changed x");
    MC_STEP("product ", m.text());
}
// conversions of matrix and system
template<typename T, typename I, typename T2, typename I2>
void conversion(const Model<T>& m)
{
    auto p = pick2(m.values.size() < 20000 || mc::thorough());
    auto s = system<T, I>(p.exec, m);
    Model<T2> w;
    w.rows = m.rows;
    for (auto& v : m.values) w.values.push_back(T2(v));
    for (auto& v : m.rhs) w.rhs.push_back(T2(v));
    const auto& cs = s;
    auto c = la::convert<T, I, T2, I2>(p.exec, cs.view().matrix);
    checkMatrix(c, w, p.exec, "converted matrix of " + m.text());
    auto t = la::convertLinearSystem<T, I, T2, I2>(cs);
    checkSystem(t, w, p.exec, "converted system of " + m.text());
    checkSystem(s, m, p.exec, "the system that was converted, " + m.text());
    // independent of each other
    put(s.matrix().values(), distinct<T>(m.values.size(), 900)), put(s.rhs(), distinct<T>(m.n(), 700));
    checkMatrix(c, w, p.exec, "converted matrix after its source changed, " + m.text());
    checkSystem(t, w, p.exec, "converted system after its source changed, " + m.text());
    MC_STEP("conversion ", m.text());
}
template<typename T, typename I>
void checkHostMatrix(const la::CSRMatrix<T, I>& c, const Model<T>& m, const std::string& what)
{
    // a host copy of something already on the host may stay on its executor
    MC_CHECK(indexOf(c.exec()) != 2, "host-copy", what, " is on ", EXEC[indexOf(c.exec())]);
    checkMatrix(c, m, c.exec(), what);
}
template<typename T, typename I>
void transfers(const Model<T>& m)
{
    auto p = pick2(m.values.size() < 20000 || mc::thorough());
    int to = choose(3, "destination"), how = choose(4, "form");
    Executor dst = execOf(to);
    auto src = std::make_unique<la::LinearSystem<T, I>>(system<T, I>(p.exec, m));
    std::string what = mc::cat(how == 0 ? "copy" : how == 1 ? "transfer" : how == 2 ? "host copy" : "host copy of the system", " from ", EXEC[p.e], " to ", EXEC[to], " of ", m.text());
    MC_STEP(what);
    Model<T> other = m;
    other.values = distinct<T>(m.values.size(), 900), other.rhs = distinct<T>(m.n(), 700);
    auto spoil = [&] { put(src->matrix().values(), other.values), put(src->rhs(), other.rhs); };
    if (how == 0)
    {
        if (to) mc::prune();
        la::LinearSystem<T, I> c(*src);
        la::CSRMatrix<T, I> k(src->matrix());
        checkSystem(c, m, p.exec, what), checkMatrix(k, m, p.exec, what);
        spoil();
        checkSystem(c, m, p.exec, what + ", after the source changed"), checkMatrix(k, m, p.exec, what + ", after the source changed");
        put(c.rhs(), m.values.empty() ? m.rhs : other.rhs);
        src.reset();
        checkMatrix(c.matrix(), m, p.exec, what + ", after the source is gone");
    }
    if (how == 1)
    {
        auto c = src->matrix().copyToExecutor(dst);
        checkMatrix(c, m, dst, what);
        spoil();
        checkMatrix(c, m, dst, what + ", after the source changed");
        auto back = c.copyToExecutor(p.exec);
        checkMatrix(back, m, p.exec, what + " and back");
    }
    if (how == 2)
    {
        if (to) mc::prune();
        auto c = src->matrix().copyToHost();
        checkHostMatrix(c, m, what);
        spoil();
        checkHostMatrix(c, m, what + ", after the source changed");
    }
    if (how == 3)
    {
        if (to) mc::prune();
        auto c = src->copyToHost();
        checkHostMatrix(c.matrix(), m, what);
        MC_CHECK(indexOf(c.rhs().exec()) != 2 && same(val(c.rhs()), m.rhs), "host-copy", what, ": right-hand side ", show(val(c.rhs())), " on ", EXEC[indexOf(c.rhs().exec())]);
        spoil();
        checkHostMatrix(c.matrix(), m, what + ", after the source changed");
        MC_CHECK(same(val(c.rhs()), m.rhs), "host-copy", what, ", after the source changed: right-hand side ", show(val(c.rhs())));
    }
}
// histories on two systems
void histories()
{
    auto p = pick2();
    using S = la::LinearSystem<scalar, localIdx>;
    std::vector<Model<scalar>> m {fill<scalar>({{1, 0}, {1}}), fill<scalar>({{0}, {1, 2}, {2, 0, 1}})};
    m[1].rhs = {5, 6, 7};
    std::vector<std::unique_ptr<S>> s;
    for (auto& x : m) s.push_back(std::make_unique<S>(system<scalar, localIdx>(p.exec, x)));
    std::vector<Executor> ex {p.exec, p.exec};
    std::string h;
    for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i)
    {
        int op = choose(6, "operation"), a = choose(2, "system");
        h += mc::cat(" ", op, a);
        auto& t = *s[size_t(a)];
        auto& w = m[size_t(a)];
        int b = 1 - a;
        if (op == 0) s[size_t(b)] = std::make_unique<S>(t), m[size_t(b)] = w, ex[size_t(b)] = ex[size_t(a)];
        if (op == 1)
        {
            t.reset();
            for (auto& x : w.values) x = 0;
            for (auto& x : w.rhs) x = 0;
        }
        if (op == 2)
        {
            auto v = t.view();
            NeoFOAM::parallelFor(ex[size_t(a)], {0, w.n()}, KOKKOS_LAMBDA(const size_t r) {
                v.matrix.entry(localIdx(r), localIdx(r == 1 ? 1 : 0)) += 10;
                v.rhs[r] -= 3;
            });
            // the rows of both models hold that column, except the first system's second row has 1 and third row of the second has 0
            auto off = w.offs<size_t>();
            for (size_t r = 0; r < w.n(); ++r)
            {
                auto it = std::find(w.rows[r].begin(), w.rows[r].end(), r == 1 ? 1u : 0u);
                w.values[off[r] + size_t(it - w.rows[r].begin())] += 10, w.rhs[r] -= 3;
            }
        }
        if (op == 3)
        {
            auto f = kh::make(ex[size_t(a)], distinct<scalar>(w.n(), 3));
            auto r = la::spmv(t, f);
            checkNear(val(r), w.residual(distinct<scalar>(w.n(), 3)), "product", "history" + h);
        }
        if (op == 4) // to another executor
        {
            int to = (indexOf(ex[size_t(a)]) + 1) % 3;
            auto k = t.matrix().copyToExecutor(execOf(to));
            auto r = t.rhs().copyToExecutor(execOf(to));
            s[size_t(a)] = std::make_unique<S>(k, r), ex[size_t(a)] = execOf(to);
        }
        if (op == 5 && indexOf(ex[0]) == indexOf(ex[1])) // assignment
        {
            if (m[0].n() != m[1].n()) continue;
            *s[size_t(b)] = t, m[size_t(b)] = w;
        }
        MC_STEP("history", h);
        for (size_t k = 0; k < 2; ++k) checkSystem(*s[k], m[k], ex[k], mc::cat("history", h, ", system ", k));
    }
    mc::noteState(h);
}
// in debug builds inconsistent parts are refused
void mismatches()
{
    auto m = fill<scalar>({{1, 0}, {1}});
    int a = choose(3, "values"), b = choose(3, "columns"), c = choose(3, "rows"), d = choose(3, "rhs"), n = choose(3, "rhs size");
    auto v = kh::make(execOf(a), m.values);
    auto col = kh::make(execOf(b), m.cols<localIdx>()), off = kh::make(execOf(c), m.offs<localIdx>());
    auto rhs = kh::make(execOf(d), std::vector<scalar>(size_t(n + 1), 3.0));
    using Mat = la::CSRMatrix<scalar, localIdx>;
    std::unique_ptr<Mat> k;
    bool no = refused([&] { k = std::make_unique<Mat>(v, col, off); });
    bool bad = a != b || a != c;
    bool debug = false;
#ifdef NF_DEBUG
    debug = true;
#endif
    (void)debug;
    MC_STEP("parts on ", EXEC[a], EXEC[b], EXEC[c], no ? " refused" : "");
    MC_CHECK(no == bad, "mismatch", "a matrix with parts on ", EXEC[a], ", ", EXEC[b], ", ", EXEC[c], no ? " was refused" : " was accepted");
    if (no) return;
    bool no2 = refused([&] { la::LinearSystem<scalar, localIdx> s(*k, rhs); });
    MC_CHECK(no2 == (d != a || n != 1), "mismatch", "a system of a matrix with 2 rows on ", EXEC[a], " with ", n + 1, " right-hand sides on ", EXEC[d], no2 ? " was refused" : " was accepted");
}
}
MC_SCENARIO(positions_scalar, "all matrices of up to 2 rows (and one more column to ask for) with every ordered selection of columns per row x executors x orders: every position read, updated or refused") { positions<scalar, localIdx>(pickModel<scalar>(2)); }
MC_SCENARIO(positions_three, "all matrices of 3 rows out of the ordered selections of columns (thorough), every third otherwise")
{
    auto& s = selections(3);
    std::vector<std::vector<size_t>> rows;
    for (int i = 0; i < 3; ++i) rows.push_back(s[size_t(mc::thorough() ? choose(int(s.size()), "columns") : (i == 1 ? choose(int(s.size()), "columns") : 5 * choose(4, "columns")))]);
    positions<scalar, localIdx>(fill<scalar>(rows));
}
MC_SCENARIO(positions_vector, "the same for vector entries, up to 2 rows") { positions<Vector, localIdx>(pickModel<Vector>(2)); }
MC_SCENARIO(positions_int, "the same with int indices, up to 2 rows") { positions<scalar, int>(pickModel<scalar>(2)); }
MC_SCENARIO(positions_large, "shapes with 4 to 7 rows: diagonal, full, cyclic, empty rows") { positions<scalar, localIdx>(pickLarge<scalar>()); }
MC_SCENARIO(sweep_scalar, "kernels over all rows through the views, reset") { sweep<scalar, localIdx>(choose(2, "large") ? pickLarge<scalar>() : pickModel<scalar>(2)); }
MC_SCENARIO(sweep_vector, "the same for vectors") { sweep<Vector, localIdx>(choose(2, "large") ? pickLarge<Vector>() : pickModel<Vector>(2)); }
MC_SCENARIO(products_, "A x - b against the dense matrix: all matrices of up to 2 rows and the larger shapes, two index types")
{
    auto m = choose(2, "large") ? pickLarge<scalar>() : pickModel<scalar>(2);
    if (choose(2, "index type")) products<int>(m);
    else products<localIdx>(m);
}
MC_SCENARIO(conversions, "conversions between value and index types")
{
    auto m = choose(2, "large") ? pickLarge<scalar>() : pickModel<scalar>(2);
    int k = choose(5, "types");
    if (k == 0) conversion<scalar, localIdx, scalar, int>(m);
    if (k == 1) conversion<scalar, localIdx, float, int>(m);
    if (k == 2) conversion<scalar, int, scalar, localIdx>(m);
    if (k == 3) conversion<scalar, localIdx, scalar, localIdx>(m);
    if (k == 4)
    {
        Model<Vector> v;
        v.rows = m.rows, v.values = distinct<Vector>(m.values.size(), 2), v.rhs = distinct<Vector>(m.n(), 4);
        conversion<Vector, localIdx, Vector, int>(v);
    }
}
MC_SCENARIO(huge_, "a full matrix of 40 rows, a row and a column of 300 entries, 12000 rows of 3, 3000 rows of 25: products, conversions, sweeps, transfers")
{
    auto m = pickHuge<scalar>();
    static const int FEW[] = {0, 2, 4, 5};
    int k = m.values.size() < 20000 || mc::thorough() ? choose(7, "use") : FEW[choose(4, "use")];
    if (k == 0) products<localIdx>(m);
    if (k == 1) products<int>(m);
    if (k == 2) conversion<scalar, localIdx, scalar, int>(m);
    if (k == 3) conversion<scalar, int, scalar, localIdx>(m);
    if (k == 4) conversion<scalar, localIdx, float, int>(m);
    if (k == 5) sweep<scalar, localIdx>(m);
    if (k == 6) transfers<scalar, localIdx>(m);
    mc::noteState(mc::cat("huge ", m.label, k));
}
MC_SCENARIO(transfers_scalar, "copies, transfers between all executors and back, host copies; independence of the source") { transfers<scalar, localIdx>(choose(2, "large") ? pickLarge<scalar>() : pickModel<scalar>(2)); }
MC_SCENARIO(transfers_vector, "the same for vectors") { transfers<Vector, int>(choose(2, "large") ? pickLarge<Vector>() : pickModel<Vector>(1)); }
MC_SCENARIO(histories_, "all histories of 3 (4 thorough) copies, resets, updates, products, moves to other executors, assignments on two systems") { histories(); }
MC_SCENARIO(mismatches_, "parts on all combinations of executors and right-hand sides of three sizes") { mismatches(); }
