// P12: polynomials as vectors and masks over the real coordinates of the symbols.
#include "poly_ref.h"
#include "linear_ref.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
#include "utilities/dynamic_bitset.h"

using namespace Moment;
using namespace polyref;

namespace {
    const cd I(0, 1);
    struct Coords { std::map<ptrdiff_t, cd> a, b; };       // weight of each real and of each imaginary coordinate

    Coords coords(const Table &t, const Form &f) {
        Coords o;
        for (auto &[k, v] : f) {
            auto [re, im] = (*t.st)[k.first].basis_key();
            if (re >= 0) { o.a[re] += v; }
            if (im >= 0) { o.b[im] += k.second ? -I * v : I * v; }
        }
        for (auto *m : {&o.a, &o.b}) { std::erase_if(*m, [](auto &p) { return std::abs(p.second) < EPS; }); }
        return o;
    }
    std::map<ptrdiff_t, cd> part(const std::map<ptrdiff_t, cd> &m, bool imag) { std::map<ptrdiff_t, cd> o; for (auto &[k, v] : m) { const double x = imag ? v.imag() : v.real(); if (std::abs(x) > EPS) { o[k] = x; } } return o; }
    template<class V> bool same(const V &vec, const std::map<ptrdiff_t, cd> &want, size_t size) {
        if (size_t(vec.size()) != size || size_t(vec.nonZeros()) != want.size()) { return false; }
        std::map<ptrdiff_t, cd> got; for (typename V::InnerIterator it(vec); it; ++it) { got[it.index()] += it.value(); }
        if (got.size() != want.size()) { return false; }
        for (auto &[k, v] : want) { auto w = got.find(k); if (w == got.end() || std::abs(w->second - v) > EPS) { return false; } }
        return true;
    }
    std::string text(const std::map<ptrdiff_t, cd> &m) { std::stringstream ss; ss << "{"; for (auto &[k, v] : m) { ss << k << ":" << v << " "; } ss << "}"; return ss.str(); }
    template<class V> std::string text(const V &v) { std::stringstream ss; ss << "{"; for (typename V::InnerIterator it(v); it; ++it) { ss << it.index() << ":" << it.value() << " "; } ss << "}"; return ss.str(); }

    void to_vectors(mc::Ctx &c, const Table &t, const PolynomialFactory &f, const std::vector<Polynomial> &ps) {
        const size_t nr = t.st->Basis.RealSymbolCount(), ni = t.st->Basis.ImaginarySymbolCount();
        PolynomialToBasisVec vec{*t.st, 10.0}; PolynomialToComplexBasisVec cvec{*t.st, 10.0}; ComplexBasisVecToPolynomial back{f}; PolynomialToBasisMask mask{*t.st, 10.0};
        for (auto &p : ps) {
            const Form v = form(t, p); const auto w = coords(t, v); ++c.states;
            auto me = [&] { return mc::cat(t.name, " ", f.name(), " ", list(p), " has coordinates ", text(w.a), " ", text(w.b)); };
            c.step("%s", list(p).c_str());
            const auto both = vec(p); const auto re = vec.Real(p), im = vec.Imaginary(p);
            for (auto *r : {&both.real_part, &re}) {
                c.require(same(r->real, part(w.a, false), nr), t.name + " real-part a", [&] { return mc::cat(me(), " gave ", text(r->real)); });
                c.require(same(r->imaginary, part(w.b, false), ni), t.name + " real-part b", [&] { return mc::cat(me(), " gave ", text(r->imaginary)); });
            }
            for (auto *r : {&both.imaginary_part, &im}) {
                c.require(same(r->real, part(w.a, true), nr), t.name + " imaginary-part a", [&] { return mc::cat(me(), " gave ", text(r->real)); });
                c.require(same(r->imaginary, part(w.b, true), ni), t.name + " imaginary-part b", [&] { return mc::cat(me(), " gave ", text(r->imaginary)); });
            }
            const auto z = cvec(p);
            c.require(same(z.real, w.a, nr) && same(z.imaginary, w.b, ni), t.name + " complex", [&] { return mc::cat(me(), " gave ", text(z.real), text(z.imaginary)); });
            const ComplexBasisVector joined{both};
            { std::map<ptrdiff_t, cd> a, b; for (complex_basis_vec_t::InnerIterator it(joined.real); it; ++it) { if (std::abs(it.value()) > EPS) { a[it.index()] += it.value(); } } for (complex_basis_vec_t::InnerIterator it(joined.imaginary); it; ++it) { if (std::abs(it.value()) > EPS) { b[it.index()] += it.value(); } }
              c.require(text(a) == text(w.a) && text(b) == text(w.b), t.name + " joined", [&] { return mc::cat(me(), " joined ", text(a), text(b)); }); }
            // and back: the coordinate of the anti-Hermitian part is i times the imaginary coordinate
            complex_basis_vec_t ib = (-I * z.imaginary);
            c.require(eq(form(t, back(z.real, ib)), v) && back(z.real, ib) == p, t.name + " round-trip", [&] { return mc::cat(me(), " came back as ", list(back(z.real, ib))); });
            // as rows of matrices
            for (int rows = 0; rows < 4; ++rows) {
                const Eigen::Index zr = (rows & 1) ? 3 : -1, zi = (rows & 2) ? 5 : -1; std::vector<Eigen::Triplet<double>> tr, ti, tc;
                vec.add_triplet_row(p, zr, zi, tr, ti); vec.add_triplet_row(p, zr, zi, tc);
                std::map<std::pair<ptrdiff_t, ptrdiff_t>, double> wr, wi, wc, gr, gi, gc;
                auto put = [&](auto &m, bool imag, ptrdiff_t row, ptrdiff_t row2) { for (auto &[k, x] : part(w.a, imag)) { m[{row, k}] += x.real(); wc[{row2, k}] += x.real(); } for (auto &[k, x] : part(w.b, imag)) { m[{row, ptrdiff_t(nr) + k}] += x.real(); wc[{row2, ptrdiff_t(nr) + k}] += x.real(); } };
                if (zr >= 0) { put(wr, false, zr, zr); } if (zi >= 0) { put(wi, true, zi, zi + ptrdiff_t(nr)); }
                for (auto [l, g] : {std::make_pair(&tr, &gr), std::make_pair(&ti, &gi), std::make_pair(&tc, &gc)}) { for (auto &x : *l) { (*g)[{x.row(), x.col()}] += x.value(); } }
                auto close = [](auto &x, auto &y) { if (x.size() != y.size()) { return false; } for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) { if (i->first != j->first || std::abs(i->second - j->second) > EPS) { return false; } } return true; };
                c.require(close(gr, wr) && close(gi, wi), t.name + " triplets", me); c.require(close(gc, wc), t.name + " combined-triplets", me);
            }
            // masks
            std::set<symbol_name_t> ma, mb; for (auto &[k, x] : w.a) { ma.insert(k); } for (auto &[k, x] : w.b) { mb.insert(k); }
            auto [xa, xb] = mask(p); auto [sa, sb] = PolynomialToBasisMask::masks_to_sets(xa, xb);
            c.require(sa == ma && sb == mb && size_t(xa.bit_size) == nr && size_t(xb.bit_size) == ni, t.name + " mask", [&] { return mc::cat(me(), " mask ", mc::show(sa), mc::show(sb)); });
            for (auto &m : p) {
                auto [ya, yb] = mask.empty_mask(); mask.set_bits(ya, yb, m); const auto mw = coords(t, form(t, m)); auto [s1, s2] = PolynomialToBasisMask::masks_to_sets(ya, yb);
                std::set<symbol_name_t> e1, e2; for (auto &[k, x] : mw.a) { e1.insert(k); } for (auto &[k, x] : mw.b) { e2.insert(k); }
                c.require(s1 == e1 && s2 == e2, t.name + " monomial-mask", [&] { return mc::cat(t.name, " #", m.id, m.conjugated ? "*" : "", " mask ", mc::show(s1), mc::show(s2)); });
            }
            ++c.traces;
        }
        // several polynomials at once
        for (size_t from = 0; from < ps.size(); from += 7) {
            const size_t n = std::min<size_t>(ps.size() - from, 1 + from % 7); std::span<const Polynomial> some{ps.data() + from, n};
            const auto m = cvec(some); bool ok = size_t(m.real.rows()) == nr && size_t(m.imaginary.rows()) == ni && size_t(m.real.cols()) == n && size_t(m.imaginary.cols()) == n;
            for (size_t k = 0; ok && k < n; ++k) {
                const auto w = coords(t, form(t, some[k])); complex_basis_vec_t a = m.real.col(Eigen::Index(k)), b = m.imaginary.col(Eigen::Index(k));
                ok = same(a, w.a, nr) && same(b, w.b, ni);
            }
            c.require(ok, t.name + " monolith", [&] { return mc::cat(f.name(), " polynomials ", from, "..", from + n); });
            // masks accumulate
            auto [xa, xb] = mask.empty_mask(); std::set<symbol_name_t> ma, mb; for (auto &p : some) { mask.set_bits(xa, xb, p); const auto w = coords(t, form(t, p)); for (auto &[k, x] : w.a) { ma.insert(k); } for (auto &[k, x] : w.b) { mb.insert(k); } }
            auto sets = PolynomialToBasisMask::masks_to_sets(xa, xb); c.require(sets.first == ma && sets.second == mb, t.name + " mask-union", [&] { return mc::cat(from, "..", from + n); });
        }
        // unknown symbols are refused
        Polynomial bad{Monomial{symbol_name_t(t.st->size()), 1.0, false}};
        auto refuses = [&](auto call) { try { call(); } catch (const Moment::errors::unknown_symbol &) { return true; } return false; };
        c.require(refuses([&] { (void) vec(bad); }) && refuses([&] { (void) vec.Real(bad); }) && refuses([&] { (void) vec.Imaginary(bad); }) && refuses([&] { (void) cvec(bad); }) && refuses([&] { std::vector<Polynomial> l{bad}; (void) cvec(std::span<const Polynomial>(l)); }), t.name + " unknown-symbol", [&] { return t.name; });
    }

    template<class num> void from_vectors(mc::Ctx &c, const Table &t, const PolynomialFactory &f, const std::vector<num> &values) {
        const size_t nr = t.st->Basis.RealSymbolCount(), ni = t.st->Basis.ImaginarySymbolCount();
        using V = Eigen::SparseVector<num>;
        mc::each_word(values.size(), nr + ni, [&](const std::vector<int> &w) {
            V a(nr), b(ni); Form want;
            for (size_t k = 0; k < nr; ++k) { if (w[k]) { a.insert(k) = values[w[k]]; auto id = t.st->Basis.RealSymbols()[k]; put(want, t, id, values[w[k]] * 0.5, false); put(want, t, id, values[w[k]] * 0.5, true); } }
            for (size_t k = 0; k < ni; ++k) { if (w[nr + k]) { b.insert(k) = values[w[nr + k]]; auto id = t.st->Basis.ImaginarySymbols()[k]; put(want, t, id, values[w[nr + k]] * 0.5, false); put(want, t, id, -values[w[nr + k]] * 0.5, true); } }
            want = tidy(want); Polynomial got;
            if constexpr (std::is_same_v<num, double>) { got = BasisVecToPolynomial{f}(a, b); } else { got = ComplexBasisVecToPolynomial{f}(a, b); }
            c.require(eq(form(t, got), want) && canonical(t, f, got), t.name + " from-vector", [&] { return mc::cat(t.name, " ", f.name(), " ", mc::show(w), " gives ", list(got), " expected ", polyref::text(want)); }); ++c.states;
        });
        for (int which = 0; which < 2; ++which) {
            V a(nr + 2), b(ni + 2); (which ? b : a).insert(which ? ni : nr) = 1.0; bool threw = false;
            try { if constexpr (std::is_same_v<num, double>) { (void) BasisVecToPolynomial{f}(a, b); } else { (void) ComplexBasisVecToPolynomial{f}(a, b); } } catch (const Moment::errors::unknown_basis_elem &) { threw = true; }
            c.require(threw, t.name + " out-of-range", [&] { return mc::cat(which); });
        }
    }

    /** the matrices written for a rulebook have exactly the solutions of its rules as fixed points / kernel */
    void rule_matrices(mc::Ctx &c, const Table &t, size_t set_size) {
        const auto &f = t.sys->polynomial_factory(); const size_t nr = t.st->Basis.RealSymbolCount(), ni = t.st->Basis.ImaginarySymbolCount(), n = nr + ni;
        std::vector<Polynomial> all; for (auto &l : canonical_lists(t, 3, {1.0, cd(1, 2)})) { if (l.empty()) { continue; } Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } all.push_back(f(std::move(s))); }
        const size_t stride = set_size == 1 ? 1 : std::max<size_t>(1, all.size() / c.bound(60, 250));
        std::vector<Polynomial> pool; for (size_t k = 0; k < all.size(); k += stride) { pool.push_back(all[k]); }
        mc::each_word(pool.size(), set_size, [&](const std::vector<int> &w) {
            if (set_size == 2 && w[0] >= w[1]) { return; }
            linref::Span real(n); MomentRulebook book{*t.sys};
            for (int x : w) {
                book.add_raw_rule(Polynomial{pool[x]}); const auto z = coords(t, form(t, pool[x]));
                for (bool imag : {false, true}) { linref::Vec v(n, 0); for (auto &[k, y] : part(z.a, imag)) { v[k] = y; } for (auto &[k, y] : part(z.b, imag)) { v[nr + k] = y; } real.add(v); }
            }
            auto me = [&] { std::string s = t.name; for (int x : w) { s += " " + list(pool[x]); } return s; };
            linref::Vec one(n, 0); one[(*t.st)[1].basis_key().first] = 1; const bool contradiction = real.contains(one);
            c.step("%s", me().c_str());
            try { book.complete(); } catch (const Moment::errors::invalid_moment_rule &) { c.require(contradiction, t.name + " refused", me); c.count("contradictions"); return; }
            if (contradiction) { return; }      // reported by the rulebook check
            for (auto mode : {MomentRulebookToBasis::ExportMode::Rewrite, MomentRulebookToBasis::ExportMode::Homogeneous}) {
                const bool homogeneous = mode == MomentRulebookToBasis::ExportMode::Homogeneous;
                const auto m = MomentRulebookToBasis{f, mode}(book); ++c.states;
                if (!c.require(size_t(m.rows()) == n && size_t(m.cols()) == n, t.name + " rule-matrix size", me)) { continue; }
                Eigen::MatrixXd d = Eigen::MatrixXd(m);
                if (!homogeneous) { c.require((d * d - d).cwiseAbs().maxCoeff() < 1e-8, t.name + " rewrite idempotent", [&] { std::stringstream ss; ss << me() << "\n" << d; return ss.str(); }); d -= Eigen::MatrixXd::Identity(n, n); }
                linref::Span rows(n); for (size_t r = 0; r < n; ++r) { linref::Vec v(n); for (size_t k = 0; k < n; ++k) { v[k] = d(r, k); } rows.add(v); }
                c.require(rows.equal(real), t.name + (homogeneous ? " homogeneous" : " rewrite"), [&] { std::stringstream ss; ss << me() << " rank " << rows.dim() << ", equations have rank " << real.dim() << "\n" << Eigen::MatrixXd(m); return ss.str(); });
            }
            ++c.traces;
        });
    }
}

void mc::register_cases(mc::Registry &reg) {
    const auto all = tables(5);
    for (size_t k = 0; k < all.size(); ++k) {
        for (int which = 0; which < 3; ++which) {
            const std::string name = mc::cat(all[k].name, which == 0 ? "-id" : which == 1 ? "-more" : "-hash");
            reg.add("to-vectors-" + name, [k, which](Ctx &c) {
                auto t = tables(5)[k]; auto f = std::move(factories(t)[which]); std::vector<Polynomial> ps;
                for (auto &l : canonical_lists(t, c.bound(3, 4), {1.0, -1.0, I, cd(1, -2)})) { Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } ps.push_back((*f)(std::move(s))); }
                to_vectors(c, t, *f, ps);
            }, 1500);
            reg.add("from-vectors-" + name, [k, which](Ctx &c) {
                auto t = tables(c.bound(4, 5))[k]; auto f = std::move(factories(t)[which]);
                const size_t n = t.st->Basis.RealSymbolCount() + t.st->Basis.ImaginarySymbolCount();
                std::vector<double> r{0, 1, -1, 0.5}; std::vector<cd> z{0, 1, I, cd(1, -2), -1}; const double budget = c.bound(2e5, 4e6);
                auto fit = [&](auto v) { while (v.size() > 2 && std::pow(double(v.size()), double(n)) > budget) { v.pop_back(); } return v; };
                if (n > 16) { c.count("tables_skipped"); return; }
                from_vectors<double>(c, t, *f, fit(r)); from_vectors<cd>(c, t, *f, fit(z));
            }, 1500);
        }
        for (size_t n : {1, 2}) { reg.add(mc::cat("rules-", all[k].name, "-", n), [k, n](Ctx &c) { world::zero_tolerance() = 1024; auto t = tables(4)[k]; world::zero_tolerance() = 1; rule_matrices(c, t, n); }, 1500); }
    }
}
