// Checks on a symbolic matrix: entries against expected moments, flags, symbol lists and every form of its basis expansion.
#pragma once
#include "worlds.h"
#include "dictionary/operator_sequence_generator.h"
#include "matrix/matrix_basis.h"
#include "symbolic/symbol_table.h"

namespace mref {
    using namespace world;
    using Terms = std::vector<std::tuple<symbol_name_t, cd, bool>>;   // id, factor, conjugated
    using Expected = std::function<Expr(size_t, size_t)>;

    inline Terms terms(const SymbolicMatrix &m, size_t i, size_t j) {
        Terms t;
        if (auto *mm = dynamic_cast<const MonomialMatrix *>(&m)) { const auto &x = mm->SymbolMatrix(i, j); t.emplace_back(x.id, x.factor, x.conjugated); }
        else { const auto &p = dynamic_cast<const PolynomialMatrix &>(m).SymbolMatrix(i, j); for (auto &x : p) { t.emplace_back(x.id, x.factor, x.conjugated); } }
        return t;
    }
    /** linear form of a term list over basis elements: key = index (real) or -1-index (imaginary) */
    inline std::map<long, cd> linear(const SymbolTable &st, const Terms &t) {
        std::map<long, cd> o;
        for (auto &[id, f, c] : t) { auto [re, im] = st[id].basis_key(); if (re >= 0) { o[re] += f; } if (im >= 0) { o[-1 - im] += f * cd(0, c ? -1.0 : 1.0); } }
        return tidy(o);
    }
    inline Expr expr(const World &w, const SymbolTable &st, const Terms &t) {
        Expr o; for (auto &[id, f, c] : t) { Monomial m{id, f, c}; for (auto &[k, v] : w.expr(st, m)) { o[k] += v; } } return tidy(o);
    }

    /** flattened basis: element k of (real, then imaginary), row i, column j at (k*n + j)*n + i */
    using Flat = std::vector<cd>;
    template<class M, class Sink> void each_entry(const M &m, Sink &&sink) {
        if constexpr (std::is_base_of_v<Eigen::SparseMatrixBase<M>, M>) { for (Eigen::Index o = 0; o < m.outerSize(); ++o) { for (typename M::InnerIterator it(m, o); it; ++it) { sink(size_t(it.row()), size_t(it.col()), cd(it.value())); } } }
        else { for (Eigen::Index j = 0; j < m.cols(); ++j) { for (Eigen::Index i = 0; i < m.rows(); ++i) { const cd v(m(i, j)); if (v != cd(0)) { sink(size_t(i), size_t(j), v); } } } }
    }
    inline void compare_flat(mc::Ctx &c, const std::string &key, const std::string &what, const char *form, const Flat &got, const Flat &want, size_t n, size_t re) {
        c.transitions += want.size();
        for (size_t x = 0; x < want.size(); ++x) {
            if (got[x] == want[x] || std::abs(got[x] - want[x]) < EPS) { continue; }
            const size_t k = x / (n * n), j = (x / n) % n, i = x % n;
            c.fail(key, mc::cat(what, " ", form, ": basis ", k < re ? "re " : "im ", k < re ? k : k - re, " at (", i, ",", j, ") is ", got[x], ", expected ", want[x])); return;
        }
    }
    template<class P> void compare_cellular(mc::Ctx &c, const std::string &key, const std::string &what, const char *form, const P &basis, const Flat &want, size_t n, size_t re, size_t im) {
        const auto &[R, I] = basis;
        bool ok = R.size() == re && I.size() == im;
        for (auto &m : R) { ok = ok && size_t(m.rows()) == n && size_t(m.cols()) == n; } for (auto &m : I) { ok = ok && size_t(m.rows()) == n && size_t(m.cols()) == n; }
        if (!c.require(ok, key, [&] { return mc::cat(what, " ", form, ": ", R.size(), "+", I.size(), " basis matrices, expected ", re, "+", im, " of dimension ", n); })) { return; }
        Flat got(want.size());
        for (size_t k = 0; k < re; ++k) { each_entry(R[k], [&](size_t i, size_t j, cd v) { got[(k * n + j) * n + i] += v; }); }
        for (size_t k = 0; k < im; ++k) { each_entry(I[k], [&](size_t i, size_t j, cd v) { got[((re + k) * n + j) * n + i] += v; }); }
        compare_flat(c, key, what, form, got, want, n, re);
    }
    template<class P> void compare_monolithic(mc::Ctx &c, const std::string &key, const std::string &what, const char *form, const P &basis, const Flat &want, size_t n, size_t re, size_t im) {
        const auto &[R, I] = basis;
        if (!c.require(size_t(R.rows()) == re && size_t(I.rows()) == im && size_t(R.cols()) == n * n && size_t(I.cols()) == n * n, key, [&] { return mc::cat(what, " ", form, ": ", R.rows(), "x", R.cols(), " and ", I.rows(), "x", I.cols()); })) { return; }
        Flat got(want.size());
        each_entry(R, [&](size_t k, size_t x, cd v) { got[k * n * n + x] += v; });
        each_entry(I, [&](size_t k, size_t x, cd v) { got[(re + k) * n * n + x] += v; });
        compare_flat(c, key, what, form, got, want, n, re);
    }
    template<class F> void guarded(mc::Ctx &c, const std::string &key, const std::string &what, bool may, F &&f) {
        bool threw = false; std::string msg;
        try { f(); } catch (const errors::bad_basis_error &e) { threw = true; msg = e.what(); }
        c.require(threw == !may, key, [&] { return mc::cat(what, threw ? " refused to make a basis: " + msg : " made a real basis though coefficients are complex"); });
    }

    /** everything that must agree with the entries themselves, whatever the scenario */
    inline void check_self(mc::Ctx &c, const SymbolicMatrix &m, const std::string &key, const std::string &what, bool bases = true, bool may_understate_hermitian = false) {
        const auto &st = m.symbols; const size_t n = m.Dimension(); ++c.states;
        std::set<symbol_name_t> ids; std::set<symbol_name_t> re, im; bool complex_coefficient = false, imaginary = false;
        std::vector<std::vector<std::map<long, cd>>> lin(n, std::vector<std::map<long, cd>>(n));
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
            const auto t = terms(m, i, j);
            for (auto &[id, f, cj] : t) {
                if (!c.require(id >= 0 && size_t(id) < st.size(), key + " symbol-range", [&] { return mc::cat(what, " (", i, ",", j, ") names symbol ", id); })) { return; }
                ids.insert(id); if (std::abs(f.imag()) > EPS) { complex_coefficient = true; }
                if (m.is_monomial()) { auto [r, q] = st[id].basis_key(); if (r >= 0) { re.insert(r); } if (q >= 0) { im.insert(q); } }
            }
            lin[i][j] = linear(st, t);
            if (!m.is_monomial()) { for (auto &[k, v] : lin[i][j]) { if (k >= 0) { re.insert(k); } else { im.insert(-1 - k); } } }
        }
        imaginary = !im.empty();
        bool herm = true;
        for (size_t i = 0; i < n && herm; ++i) for (size_t j = 0; j <= i && herm; ++j) { auto t = lin[j][i]; for (auto &[k, v] : t) { v = std::conj(v); } herm = eq(lin[i][j], t); }
        c.require(m.Hermitian() == herm || (may_understate_hermitian && herm), key + " hermitian", [&] { return mc::cat(what, " says Hermitian=", m.Hermitian(), ", entries say ", herm); });
        c.require(m.HasComplexCoefficients() == complex_coefficient, key + " complex-coefficients", [&] { return mc::cat(what, " says complex coefficients=", m.HasComplexCoefficients(), ", entries say ", complex_coefficient); });
        c.require(m.HasComplexBasis() == imaginary, key + " complex-basis", [&] { return mc::cat(what, " says complex basis=", m.HasComplexBasis(), ", entries say ", imaginary); });
        c.require(std::set<symbol_name_t>(m.IncludedSymbols().begin(), m.IncludedSymbols().end()) == ids, key + " included", [&] { return mc::cat(what, " list of included symbols differs from entries"); });
        c.require(std::set<symbol_name_t>(m.RealBasisIndices().begin(), m.RealBasisIndices().end()) == re && std::set<symbol_name_t>(m.ImaginaryBasisIndices().begin(), m.ImaginaryBasisIndices().end()) == im, key + " basis-indices", [&] {
            return mc::cat(what, " basis indices ", mc::show(std::vector<int>(m.RealBasisIndices().begin(), m.RealBasisIndices().end())), "/", mc::show(std::vector<int>(m.ImaginaryBasisIndices().begin(), m.ImaginaryBasisIndices().end())), ", entries say ", mc::show(std::vector<int>(re.begin(), re.end())), "/", mc::show(std::vector<int>(im.begin(), im.end()))); });
        bool keys = m.BasisKey().size() == ids.size(); for (auto &[id, k] : m.BasisKey()) { keys = keys && ids.contains(id) && k == st[id].basis_key(); }
        c.require(keys, key + " basis-key", [&] { return what; });
        if (!bases) { return; }
        const size_t nr = st.Basis.RealSymbolCount(), ni = st.Basis.ImaginarySymbolCount(); const std::string bk = key + " basis";
        Flat want((nr + ni) * n * n);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) for (auto &[k, v] : lin[i][j]) { want[((k >= 0 ? size_t(k) : nr + size_t(-1 - k)) * n + j) * n + i] += v; }
        compare_cellular(c, bk, what, "dense[C,C]", m.Basis.DenseComplex(), want, n, nr, ni);
        compare_cellular(c, bk, what, "sparse[C,C]", m.Basis.SparseComplex(), want, n, nr, ni);
        compare_monolithic(c, bk, what, "dense-monolithic[C,C]", m.Basis.DenseMonolithicComplex(), want, n, nr, ni);
        compare_monolithic(c, bk, what, "sparse-monolithic[C,C]", m.Basis.SparseMonolithicComplex(), want, n, nr, ni);
        guarded(c, bk, what, !complex_coefficient, [&] { compare_cellular(c, bk, what, "dense[R,C]", m.Basis.Dense(), want, n, nr, ni); });
        guarded(c, bk, what, !complex_coefficient, [&] { compare_cellular(c, bk, what, "sparse[R,C]", m.Basis.Sparse(), want, n, nr, ni); });
        guarded(c, bk, what, !complex_coefficient, [&] { compare_monolithic(c, bk, what, "dense-monolithic[R,C]", m.Basis.DenseMonolithic(), want, n, nr, ni); });
        guarded(c, bk, what, !complex_coefficient, [&] { compare_monolithic(c, bk, what, "sparse-monolithic[R,C]", m.Basis.SparseMonolithic(), want, n, nr, ni); });
    }

    inline bool check_entries(mc::Ctx &c, const World &w, const SymbolicMatrix &m, size_t dim, const Expected &want, const std::string &key, const std::string &what) {
        if (!c.require(m.Dimension() == dim, key + " dimension", [&] { return mc::cat(what, " has dimension ", m.Dimension(), ", expected ", dim); })) { return false; }
        bool ok = true;
        for (size_t i = 0; i < dim && ok; ++i) for (size_t j = 0; j < dim && ok; ++j) {
            const Expr a = want(i, j), b = expr(w, m.symbols, terms(m, i, j)); ++c.transitions;
            ok = c.require(eq(a, b), key + " entry", [&] { return mc::cat(what, " (", i, ",", j, ") is ", text(b), ", expected ", text(a)); });
        }
        return ok;
    }
    inline void check_matrix(mc::Ctx &c, const World &w, const SymbolicMatrix &m, size_t dim, const Expected &want, const std::string &key, const std::string &what, bool bases = true, bool may_understate_hermitian = false) {
        check_entries(c, w, m, dim, want, key, what);
        check_self(c, m, key, what, bases, may_understate_hermitian);
    }
    /** generators of a level (checked separately, by the dictionary property) */
    inline std::vector<Elem> generators(const MatrixSystem &sys, size_t level) { std::vector<Elem> g; for (auto &s : sys.Context().operator_sequence_generator(level)) { g.push_back(World::elem(s)); } return g; }
}
