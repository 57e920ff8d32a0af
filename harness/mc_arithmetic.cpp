// P13: products, sums and copies of matrices, against products and sums of their entries in the reference algebra.
#include "matrix_ref.h"
#include "matrix/composite_matrix.h"
#include "matrix/value_matrix.h"
#include "symbolic/polynomial_factory.h"

using namespace Moment;
using namespace mref;
using MTP = Multithreading::MultiThreadPolicy;

namespace {
    const cd I(0, 1);
    struct Mat { std::string name; const SymbolicMatrix *m; std::vector<Elem> at; size_t n; bool multiplies; std::shared_ptr<SymbolicMatrix> own; };
    Expected expected(const World &w, const Mat &a, std::function<Elem(const Elem &)> f) { return [&w, &a, f](size_t i, size_t j) { return w.expect(f(a.at[j * a.n + i])); }; }

    RawPolynomial raw_poly(const World &w, const Context &ctx, const Elem &e) { RawPolynomial p; for (auto &[k, v] : e) { p.emplace_back(w.seq(ctx, k), v); } return p; }
    std::vector<Raw> spread(std::vector<Raw> all, size_t n) { if (all.size() <= n) { return all; } std::vector<Raw> out; for (size_t k = 0; k < n; ++k) { out.push_back(all[k * all.size() / n]); } return out; }

    std::vector<Mat> matrices(mc::Ctx &c, const World &w, MatrixSystem &sys) {
        std::vector<Mat> out; const auto words = spread(w.canonical(size_t(std::min(2, w.words))), size_t(c.bound(3, 6)));
        for (int k = 0; k <= 1; ++k) {
            const auto g = generators(sys, size_t(k)); const size_t n = g.size();
            auto fill = [&](const Elem &mid) { std::vector<Elem> at; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { at.push_back(w.mul(w.mul(w.conj(g[i]), mid), g[j])); } return at; };
            out.push_back({mc::cat("moment ", k), &sys.MomentMatrix.create(size_t(k), MTP::Never).second, fill(Elem{{{}, 1.0}}), n, true, nullptr});
            int ph = 0; for (auto &x : words) { if (x.empty()) { continue; } ++ph; out.push_back({mc::cat("localizing ", k, " i^", ph % 4, mc::show(x)), &sys.LocalizingMatrix.create(LocalizingMatrixIndex{size_t(k), w.seq(sys.Context(), x, ph % 4)}, MTP::Never).second, fill(w.word(x, pref::iphase(ph))), n, true, nullptr}); }
            if (words.size() > 1) {
                Elem e; e[words[1]] += 1.0; e[{}] += I; if (words.size() > 2) { e[words[2]] += -2.0; } e = tidy(e);
                out.push_back({mc::cat("polynomial localizing ", k), &sys.create_and_register_localizing_matrix(size_t(k), raw_poly(w, sys.Context(), e), MTP::Never).second, fill(e), n, false, nullptr});
            }
            // products of words that keep their weight in front
            for (const cd u : {cd(-2.0), cd(1, 1)}) {
                const auto &x = words.back(); const SymbolicMatrix &src = sys.MomentMatrix.create(size_t(k), MTP::Never).second; if (x.empty() || !src.has_unaliased_operator_matrix()) { continue; }
                std::shared_ptr<SymbolicMatrix> own = src.post_multiply(w.seq(sys.Context(), x), u, sys.polynomial_factory(), sys.Symbols(), MTP::Never); auto at = fill(Elem{{{}, 1.0}}); for (auto &e : at) { e = w.mul(e, w.word(x, u)); }
                out.push_back({mc::cat("weighted product ", k, " ", u, mc::show(x)), own.get(), at, n, own->has_unaliased_operator_matrix(), own});
            }
            // numbers
            std::vector<std::vector<cd>> vals{std::vector<cd>(n * n, 0), std::vector<cd>(n * n, 0), std::vector<cd>(n * n, 0), std::vector<cd>(n * n, 0), std::vector<cd>(n * n, 0)};
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { const size_t x = j * n + i; vals[0][x] = double(i) - 2.0 * double(j); vals[1][x] = double(i + j) - 1.0; vals[2][x] = i == j ? cd(double(i)) : i < j ? cd(1, -1) : cd(1, 1); vals[3][x] = vals[2][x] * I; }
            for (size_t v = 0; v < vals.size(); ++v) for (int sparse = 0; sparse < 2; ++sparse) for (int z = 0; z < 2; ++z) {
                if (!z && (v == 2 || v == 3)) { continue; } if (c.quick() && v < 2 && z != int(v + k) % 2) { continue; }
                Eigen::MatrixXcd d(n, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { d(Eigen::Index(i), Eigen::Index(j)) = vals[v][j * n + i]; }
                Eigen::MatrixXd r = d.real(); std::shared_ptr<SymbolicMatrix> own; auto &st = sys.Symbols(); const double tol = sys.polynomial_factory().zero_tolerance;
                if (sparse) { Eigen::SparseMatrix<cd> s = d.sparseView(); Eigen::SparseMatrix<double> t = r.sparseView(); if (z) { own = std::make_shared<ValueMatrix>(sys.Context(), st, tol, s); } else { own = std::make_shared<ValueMatrix>(sys.Context(), st, tol, t); } }
                else if (z) { own = std::make_shared<ValueMatrix>(sys.Context(), st, tol, d); } else { own = std::make_shared<ValueMatrix>(sys.Context(), st, tol, r); }
                std::vector<Elem> at; bool anti = true; for (size_t x = 0; x < n * n; ++x) { Elem e; e[{}] = vals[v][x]; at.push_back(tidy(e)); const size_t i = x % n, j = x / n; anti = anti && std::abs(vals[v][x] + std::conj(vals[v][i * n + j])) < EPS; }
                const std::string name = mc::cat("values", v, sparse ? " sparse" : " dense", z ? " complex " : " real ", k);
                c.require(dynamic_cast<ValueMatrix &>(*own).AntiHermitian() == anti, mc::cat(w.name, " values antihermitian"), [&] { return mc::cat(w.name, " ", name, " says anti-Hermitian=", !anti); });
                out.push_back({name, own.get(), at, n, true, own});
            }
        }
        return out;
    }
    /** a product of words with a complex weight is i times an anti-Hermitian matrix when it is Hermitian, and may vanish: the code does not claim to notice */
    bool complex_weighted(const SymbolicMatrix &m) { const auto *k = dynamic_cast<const MonomialMatrix *>(&m); return k && (std::abs(k->global_factor().imag()) > 0 || m.IncludedSymbols() == std::set<symbol_name_t>{0}); }

    bool same_entries(const SymbolicMatrix &a, const SymbolicMatrix &b) { if (a.Dimension() != b.Dimension()) { return false; } for (size_t i = 0; i < a.Dimension(); ++i) for (size_t j = 0; j < a.Dimension(); ++j) { if (terms(a, i, j) != terms(b, i, j)) { return false; } } return a.Hermitian() == b.Hermitian() && a.HasComplexCoefficients() == b.HasComplexCoefficients(); }

    void products(mc::Ctx &c, const World &w) {
        auto sys = w.make(); auto &st = sys->Symbols(); const auto &f = sys->polynomial_factory(); auto list = matrices(c, w, *sys);
        for (auto &a : list) { check_matrix(c, w, *a.m, a.n, expected(w, a, [](const Elem &e) { return e; }), w.name + " source", mc::cat(w.name, " ", a.name), true, complex_weighted(*a.m)); }
        const auto words = spread(w.canonical(size_t(std::min(2, w.words))), size_t(c.bound(5, 14))); size_t number = 0;
        const std::vector<cd> weights{1.0, -2.0, I, cd(1, 1), 0.0};
        auto judge = [&](const Mat &a, const std::string &kind, const std::string &what, bool may_refuse, std::function<std::unique_ptr<SymbolicMatrix>(MTP)> make, std::function<Elem(const Elem &)> want) {
            ++number; ++c.traces; c.step("%s", what.c_str());
            try {
                const auto m = make(MTP::Never); check_matrix(c, w, *m, a.n, expected(w, a, want), mc::cat(w.name, " ", kind), what, number % 5 == 0, complex_weighted(*m));
                if (number % 3 == 0) { const auto m2 = make(MTP::Always); c.require(same_entries(*m, *m2), mc::cat(w.name, " ", kind, " threads"), [&] { return what; }); }
            } catch (const Moment::errors::cannot_multiply_exception &e) { c.count("refused"); c.require(may_refuse || !a.multiplies, mc::cat(w.name, " ", kind, " refused"), [&] { return what + ": " + e.what(); }); }
        };
        // words with phases and weights
        for (auto &a : list) for (auto &x : words) for (int ph = 0; ph < 4; ++ph) for (auto &u : weights) {
            if ((ph + number) % 2 && u != cd(1.0)) { ++number; continue; }
            const Elem e = w.word(x, pref::iphase(ph) * u); const auto s = w.seq(sys->Context(), x, ph); const std::string what = mc::cat(w.name, " ", a.name, " times ", u, " i^", ph, mc::show(x));
            judge(a, "pre-word", "pre " + what, false, [&](MTP p) { return a.m->pre_multiply(s, u, f, st, p); }, [&](const Elem &y) { return w.mul(e, y); });
            judge(a, "post-word", "post " + what, false, [&](MTP p) { return a.m->post_multiply(s, u, f, st, p); }, [&](const Elem &y) { return w.mul(y, e); });
        }
        // polynomials of words
        std::vector<Elem> polys; polys.push_back({}); for (auto &x : words) for (auto &y : words) for (auto &u : std::vector<cd>{1.0, I, -1.0}) { Elem e; e[x] += 1.0; e[y] += u; polys.push_back(tidy(e)); if (x != y && polys.size() % 3 == 0) { e[{}] += cd(2, -1); polys.push_back(tidy(e)); } Elem h = World::add(w.word(x, u), w.conj(w.word(x, u))); polys.push_back(h); }
        const size_t stride = polys.size() / size_t(c.bound(20, 120)) + 1;
        for (auto &a : list) for (size_t k = 0; k < polys.size(); k += stride) {
            const auto &e = polys[k]; const auto raw = raw_poly(w, sys->Context(), e); const std::string what = mc::cat(w.name, " ", a.name, " times ", text(e));
            judge(a, "pre-polynomial", "pre " + what, false, [&](MTP p) { return a.m->pre_multiply(raw, f, st, p); }, [&](const Elem &y) { return w.mul(e, y); });
            judge(a, "post-polynomial", "post " + what, false, [&](MTP p) { return a.m->post_multiply(raw, f, st, p); }, [&](const Elem &y) { return w.mul(y, e); });
        }
        // symbols and polynomials of symbols (of words: a moment shared by several words is not a factor)
        if (w.aliases) { return; }
        std::vector<symbol_name_t> ids{0, 1}; { std::map<int, int> had; for (size_t k = 2; k < st.size(); ++k) { const int kind = st[k].is_hermitian() ? 1 : st[k].is_antihermitian() ? -1 : 0; if (st[k].has_sequence() && st[k].sequence().size() <= 2 && had[kind]++ < c.bound(2, 5)) { ids.push_back(symbol_name_t(k)); } } }
        auto elem_of = [&](const Monomial &m) { Elem e; if (m.id == 0) { return e; } e = World::elem(st[m.id].sequence()); if (m.conjugated) { e = w.conj(e); } return World::scale(e, m.factor); };
        std::vector<Monomial> monos; for (auto id : ids) for (auto &u : weights) for (bool cj : {false, true}) { if (cj && (id < 2 || st[id].is_hermitian() || st[id].is_antihermitian())) { continue; } if (u == cd(0.0)) { continue; } monos.emplace_back(id, u, cj); }
        for (auto &a : list) for (auto &m : monos) {
            const Elem e = elem_of(m); const std::string what = mc::cat(w.name, " ", a.name, " times ", m.factor, "#", m.id, m.conjugated ? "*" : "");
            judge(a, "pre-monomial", "pre " + what, false, [&](MTP p) { return a.m->pre_multiply(m, f, st, p); }, [&](const Elem &y) { return w.mul(e, y); });
            judge(a, "post-monomial", "post " + what, false, [&](MTP p) { return a.m->post_multiply(m, f, st, p); }, [&](const Elem &y) { return w.mul(y, e); });
        }
        for (auto &a : list) for (size_t k = 0; k < monos.size(); ++k) {
            const auto &m1 = monos[k], &m2 = monos[(k * 5 + 3) % monos.size()]; if (m1.id == 0 || m2.id == 0) { continue; }
            const auto p = k ? f({m1, m2}) : Polynomial{}; const Elem e = k ? World::add(elem_of(m1), elem_of(m2)) : Elem{}; const std::string what = mc::cat(w.name, " ", a.name, " times symbols ", text(e));
            judge(a, "pre-symbols", "pre " + what, false, [&](MTP q) { return a.m->pre_multiply(p, f, st, q); }, [&](const Elem &y) { return w.mul(e, y); });
            judge(a, "post-symbols", "post " + what, false, [&](MTP q) { return a.m->post_multiply(p, f, st, q); }, [&](const Elem &y) { return w.mul(y, e); });
        }
    }

    void sums(mc::Ctx &c, const World &w) {
        auto sys = w.make(); auto &st = sys->Symbols(); const auto &f = sys->polynomial_factory(); auto list = matrices(c, w, *sys); size_t number = 0;
        for (auto &a : list) for (auto &b : list) {
            const std::string what = mc::cat(w.name, " ", a.name, " plus ", b.name); c.step("%s", what.c_str()); ++c.traces;
            try {
                const auto m = a.m->add(*b.m, f, MTP::Never); c.require(a.n == b.n, w.name + " sum dimension", [&] { return what; }); if (a.n != b.n) { continue; }
                auto want = [&](size_t i, size_t j) { return w.expect(World::add(a.at[j * a.n + i], b.at[j * a.n + i])); };
                check_matrix(c, w, *m, a.n, want, w.name + " sum", what, ++number % 7 == 0);
            } catch (const Moment::errors::cannot_add_exception &) { c.require(a.n != b.n, w.name + " sum refused", [&] { return what; }); }
            if (a.n != b.n) { continue; }
            const std::vector<std::pair<cd, cd>> scales{{2.0, -1.0}, {I, 1.0}, {1.0, cd(-1, 1)}}; const auto [u, v] = scales[number % 3];
            CompositeMatrix::ConstituentInfo ci{a.n}; ci.elements.emplace_back(a.m, u); ci.elements.emplace_back(b.m, v); if (number % 2) { ci.elements.emplace_back(a.m, 1.0); }
            const cd u2 = number % 2 ? u + 1.0 : u; CompositeMatrix comp{sys->Context(), st, f, std::move(ci)};
            check_matrix(c, w, comp, a.n, [&](size_t i, size_t j) { return w.expect(World::add(World::scale(a.at[j * a.n + i], u2), b.at[j * a.n + i], v)); }, w.name + " composite", mc::cat(what, " weights ", u2, v), false);
        }
        const auto words = spread(w.canonical(size_t(std::min(2, w.words))), 4); std::vector<symbol_name_t> ids; for (auto &x : words) { if (!x.empty()) { ids.push_back(st.merge_in(w.seq(sys->Context(), x))); } }
        for (auto &a : list) {
            for (cd u : std::vector<cd>{1.0, I, cd(-1, 2), 0.0}) {
                CompositeMatrix::ConstituentInfo ci{*a.m, u}; CompositeMatrix comp{sys->Context(), st, f, std::move(ci)};
                check_matrix(c, w, comp, a.n, expected(w, a, [&](const Elem &e) { return World::scale(e, u); }), w.name + " scaled", mc::cat(w.name, " ", a.name, " scaled ", u), false);
            }
            for (cd u : std::vector<cd>{1.0, I, -2.0, 0.0}) for (size_t k = 0; k <= ids.size(); ++k) for (bool cj : {false, true}) {
                const symbol_name_t id = k ? ids[k - 1] : 1; if (cj && (k == 0 || st[id].is_hermitian() || st[id].is_antihermitian())) { continue; }
                const Monomial m{id, u, cj}; const auto x = w.expr(st, m); const std::string what = mc::cat(w.name, " ", a.name, " plus ", u, "#", id, cj ? "*" : ""); c.step("%s", what.c_str()); ++c.traces;
                const auto sum = a.m->add(m, f, MTP::Never);
                auto plus = [&](const Expr &y) { return [&w, &a, y](size_t i, size_t j) { Expr e = w.expect(a.at[j * a.n + i]); for (auto &[q, v] : y) { e[q] += v; } return tidy(e); }; };
                check_matrix(c, w, *sum, a.n, plus(x), w.name + " plus-monomial", what, ++number % 7 == 0);
                const Monomial one{1, cd(1, -1), false}; const auto p = f({m, one}); const auto sum2 = a.m->add(p, f, MTP::Never);
                check_matrix(c, w, *sum2, a.n, plus(w.expr(st, p)), w.name + " plus-polynomial", what + " and 1-i", false);
                const auto p1 = f({m}); const auto sum3 = a.m->add(p1, f, MTP::Never); check_entries(c, w, *sum3, a.n, plus(x), w.name + " plus-one-term", what);
            }
            const auto zero = a.m->add(Monomial{0}, f, MTP::Never); check_matrix(c, w, *zero, a.n, expected(w, a, [](const Elem &e) { return e; }), w.name + " plus-zero", a.name, false);
            // copies
            for (auto p : {MTP::Never, MTP::Always}) {
                try { const auto k = a.m->clone(p); check_matrix(c, w, *k, a.n, expected(w, a, [](const Elem &e) { return e; }), w.name + " copy", mc::cat(w.name, " copy of ", a.name)); c.require(k->Description() == a.m->Description() && k->is_monomial() == a.m->is_monomial() && same_entries(*k, *a.m), w.name + " copy", [&] { return a.name; });
                    if (a.m->has_unaliased_operator_matrix() && !w.ops == 0) { const auto s = w.seq(sys->Context(), {0}); const auto x = k->post_multiply(s, 1.0, f, st, p), y = a.m->post_multiply(s, 1.0, f, st, p); c.require(same_entries(*x, *y), w.name + " copy multiplies", [&] { return a.name; }); } }
                catch (const Moment::errors::cannot_clone_exception &) { c.require(false, w.name + " copy refused", [&] { return a.name; }); }
            }
        }
        CompositeMatrix none{sys->Context(), st, f, CompositeMatrix::ConstituentInfo{3}}; check_matrix(c, w, none, 3, [](size_t, size_t) { return Expr{}; }, w.name + " empty composite", w.name);
        auto z = MonomialMatrix::zero_matrix(sys->Context(), st, 3); check_matrix(c, w, *z, 3, [](size_t, size_t) { return Expr{}; }, w.name + " zero", w.name);
    }
}

void mc::register_cases(mc::Registry &reg) {
    for (auto &w : catalogue(true)) {
        reg.add("products-" + w.name, [w](Ctx &c) { products(c, w); c.sample(w.name); }, reg.quick() ? 400 : 4000);
        reg.add("sums-" + w.name, [w](Ctx &c) { sums(c, w); }, reg.quick() ? 400 : 4000);
    }
}
