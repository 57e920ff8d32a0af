// P11: matrices with a rulebook applied, against the rulebook applied to each entry of the source.
#include "matrix_ref.h"
#include "poly_ref.h"
#include "linear_ref.h"
#include "matrix/substituted_matrix.h"
#include "symbolic/rules/moment_rulebook.h"

using namespace Moment;
using namespace mref;
using linref::Span;
using linref::Vec;
using polyref::Form;
using MTP = Multithreading::MultiThreadPolicy;

namespace {
    const cd I(0, 1);
    struct Source { std::string name; ptrdiff_t id; const SymbolicMatrix *m; };

    polyref::Table table(const World &w, MatrixSystem &sys) { polyref::Table t; t.name = w.name; t.st = &sys.Symbols(); t.sys = &sys; for (size_t k = 1; k < t.st->size(); ++k) { t.ids.push_back(symbol_name_t(k)); } return t; }

    std::vector<Source> sources(mc::Ctx &c, const World &w, MatrixSystem &sys, size_t words) {
        std::vector<Source> out;
        for (int k = 0; k <= w.level; ++k) { auto [id, m] = sys.MomentMatrix.create(size_t(k), MTP::Never); out.push_back({mc::cat("moment ", k), id, &m}); }
        auto all = w.canonical(size_t(std::min(2, w.words))); const size_t stride = all.size() / words + 1; size_t n = 0;
        for (size_t i = 1; i < all.size(); i += stride) {
            const int ph = int(n++ % 4); auto [id, m] = sys.LocalizingMatrix.create(LocalizingMatrixIndex{1, w.seq(sys.Context(), all[i], ph)}, MTP::Never); out.push_back({mc::cat("localizing i^", ph, mc::show(all[i])), id, &m});
            RawPolynomial raw; raw.emplace_back(w.seq(sys.Context(), {}), 2.0); raw.emplace_back(w.seq(sys.Context(), all[i]), cd(1, ph % 2 ? 0 : -1));
            auto [id2, m2] = sys.create_and_register_localizing_matrix(1, raw, MTP::Never); out.push_back({mc::cat("localizing 2+c", mc::show(all[i])), id2, &m2});
        }
        return out;
    }
    /** rules over a spread of the symbols: every kind of right hand side */
    std::vector<std::vector<Polynomial>> rule_sets(const polyref::Table &t, size_t letters, size_t pairs) {
        const auto &f = t.sys->polynomial_factory(); std::vector<symbol_name_t> pick; std::map<int, size_t> had;
        for (size_t k = 1; k < t.ids.size(); ++k) { const int kind = t.kind(t.ids[k]); const size_t left = t.ids.size() - k; if (had[kind] < letters / 2 || left <= 2) { ++had[kind]; pick.push_back(t.ids[k]); } if (pick.size() >= letters) { break; } }
        std::vector<Polynomial> one;
        auto add = [&](std::vector<Monomial> l) { Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } auto p = f(std::move(s)); if (!p.empty()) { one.push_back(std::move(p)); } };
        auto M = [](symbol_name_t id, cd x, bool cj = false) { return Monomial{id, x, cj}; };
        for (auto x : pick) {
            const int k = t.kind(x);
            add({M(x, 1)}); if (k != -1) { add({M(x, 1), M(1, -0.5)}); } if (k != 1) { add({M(x, 1), M(1, -2.0 * I)}); }
            if (k == 0) { add({M(x, 1), M(x, -1, true)}); add({M(x, 1), M(x, 1, true)}); add({M(x, 1), M(x, 1, true), M(1, -1)}); add({M(x, 1), M(1, cd(-1, 2))}); add({M(x, 1), M(x, 0.5, true)}); }
            for (auto y : pick) if (x != y) { const int ky = t.kind(y); const bool swap = k != 0 && ky != 0 && k != ky; for (cd z : std::vector<cd>{1, -2}) { const cd g = swap ? z * I : z; add({M(x, 1), M(y, -g)}); if (k == 0 && ky == 0) { add({M(x, 1), M(y, -g * I, true)}); } } add({M(x, 1), M(y, swap ? I : cd(1)), M(1, k == -1 ? cd(0, -1) : cd(-1))}); }
        }
        std::vector<std::vector<Polynomial>> out{{}}; for (auto &p : one) { out.push_back({p}); }
        const size_t n = one.size(); size_t step = std::max<size_t>(1, n * (n - 1) / 2 / std::max<size_t>(1, pairs)), at = 0;
        for (size_t a = 0; a < n; ++a) for (size_t b = a + 1; b < n; ++b) { if (at++ % step == 0) { out.push_back({one[a], one[b]}); } }
        return out;
    }
    std::string rules(const MomentRulebook &b) { std::stringstream ss; for (auto &[id, r] : b) { ss << " #" << id << (r.is_partial() ? "(partial)" : "") << "->" << polyref::list(r.RHS()); } return ss.str(); }
    bool same(const SymbolicMatrix &a, const SymbolicMatrix &b) { if (a.is_monomial() != b.is_monomial() || a.Dimension() != b.Dimension()) { return false; } for (size_t i = 0; i < a.Dimension(); ++i) for (size_t j = 0; j < a.Dimension(); ++j) { if (terms(a, i, j) != terms(b, i, j)) { return false; } } return a.Hermitian() == b.Hermitian() && a.HasComplexCoefficients() == b.HasComplexCoefficients() && a.HasComplexBasis() == b.HasComplexBasis(); }
    Form form_of(const polyref::Table &t, const Terms &x) { Form f; for (auto &[id, v, cj] : x) { polyref::put(f, t, id, v, cj); } return tidy(f); }

    void run(mc::Ctx &c, const World &w) {
        struct Tol { Tol() { zero_tolerance() = 256; } ~Tol() { zero_tolerance() = 1; } } tol;
        auto sys = w.make(); auto list = sources(c, w, *sys, size_t(c.bound(3, 8))); auto t = table(w, *sys); const auto sets = rule_sets(t, size_t(c.bound(5, 8)), size_t(c.bound(40, 300)));
        std::map<std::pair<symbol_name_t, bool>, size_t> at; for (auto id : t.ids) { for (bool cj : {false, true}) { if (!cj || t.kind(id) == 0) { const size_t n = at.size(); at[{id, cj}] = n; } } }
        auto vec = [&](const Form &f) { Vec v(at.size(), 0); for (auto &[k, x] : f) { v.at(at.at(k)) += x; } return v; };
        const bool grows = w.name.starts_with("inflation");   // rulebooks follow the factorisation of moments
        const bool spans = at.size() <= 80 && !grows; size_t number = 0;
        for (auto &set : sets) {
            std::string who = w.name; for (auto &p : set) { who += " " + polyref::list(p); } c.step("%s", who.c_str());
            auto book = std::make_unique<MomentRulebook>(*sys); Span eqs(spans ? at.size() : 1);
            for (auto &p : set) { book->add_raw_rule(Polynomial{p}); if (spans) { const Form f = polyref::form(t, p); eqs.add(vec(f)); eqs.add(vec(polyref::conj(f, t))); } }
            try { book->complete(); } catch (const Moment::errors::invalid_moment_rule &) { c.count("contradictions"); continue; }
            size_t rid = 0; MomentRulebook *added = nullptr;
            try { auto got = sys->Rulebook.add(std::move(book)); rid = got.first; added = &got.second; }
            catch (const std::exception &) { if (!grows) { throw; } c.count("refused_by_factorisation"); continue; }
            MomentRulebook &b = *added; ++number;
            std::map<std::pair<symbol_name_t, bool>, Form> to; for (auto &[k, n] : at) { to[k] = polyref::form(t, b.reduce(Monomial{k.first, 1.0, k.second})); }
            for (size_t s = 0; s < list.size(); ++s) {
                if (set.size() > 1 && list.size() > 4 && (s + number) % 3) { continue; }
                const auto &src = *list[s].m; const std::string what = mc::cat(who, " on ", list[s].name), key = mc::cat(w.name, src.is_monomial() ? " monomial" : " polynomial", b.is_monomial() ? " to-monomial" : " to-polynomial");
                auto me = [&] { return what + " rules" + rules(b); };
                auto [id, m] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{list[s].id, rid}, number % 2 ? MTP::Never : MTP::Always); ++c.traces;
                if (!c.require(m.Dimension() == src.Dimension(), key + " dimension", me)) { continue; }
                c.require(m.is_monomial() == (src.is_monomial() && b.is_monomial()), key + " kind", me);
                bool ok = true;
                for (size_t i = 0; ok && i < m.Dimension(); ++i) for (size_t j = 0; ok && j < m.Dimension(); ++j) {
                    Form want; const Form from = form_of(t, terms(src, i, j)), got = form_of(t, terms(m, i, j)); for (auto &[k, v] : from) { for (auto &[k2, v2] : to.at(k)) { want[k2] += v * v2; } } want = tidy(want); ++c.transitions;
                    ok = c.require(polyref::eq(got, want), key + " entry", [&] { return mc::cat(me(), " (", i, ",", j, ") ", polyref::text(from), " became ", polyref::text(got), " expected ", polyref::text(want)); });
                    if (ok && spans) { ok = c.require(eqs.contains(vec(tidy(polyref::add(got, from, -1.0)))), key + " entry-value", [&] { return mc::cat(me(), " (", i, ",", j, ") ", polyref::text(from), " became ", polyref::text(got)); }); }
                }
                check_self(c, m, key, me(), number % 4 == 0 && s < 3, m.is_monomial());
                if (m.is_monomial() && src.Hermitian() && b.is_hermitian()) { c.require(m.Hermitian(), key + " hermitian kept", me); }
                // whichever way it is built
                const auto a = b.create_substituted_matrix(*t.st, src, MTP::Never), z = b.create_substituted_matrix(*t.st, src, MTP::Always);
                c.require(same(*a, m) && same(*z, m), key + " policies-differ", me);
                // its place in the system
                auto [id2, m2] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{list[s].id, rid}, MTP::Never);
                c.require(id2 == id && &m2 == &m && &sys->get(id) == &m && &sys->SubstitutedMatrix(SubstitutedMatrixIndex{list[s].id, rid}) == &m, key + " index", me);
                auto *sub = dynamic_cast<const SubstitutedMatrix *>(&m); c.require(sub && &sub->source_matrix == &src && &sub->rules == &b, key + " provenance", me);
                // applying the rules again changes nothing
                if (s == 0) { auto [id3, m3] = sys->SubstitutedMatrix.create(SubstitutedMatrixIndex{id, rid}, MTP::Never); bool eqv = m3.Dimension() == m.Dimension(); for (size_t i = 0; eqv && i < m.Dimension(); ++i) for (size_t j = 0; eqv && j < m.Dimension(); ++j) { eqv = polyref::eq(form_of(t, terms(m, i, j)), form_of(t, terms(m3, i, j))); } c.require(eqv && id3 != id, key + " again", me); }
            }
            // a rulebook in use is not changed any more
            if (grows) { continue; }
            bool refused = false; const auto before = rules(b);
            try { b.add_raw_rule(Polynomial{Monomial{t.ids.back(), 1.0, false}}); b.complete(); } catch (const Moment::errors::already_in_use &) { refused = true; }
            c.require(refused && rules(b) == before, w.name + " used-rulebook-changed", [&] { return who; });
            MomentRulebook other{*sys}; other.add_raw_rule(Polynomial{Monomial{t.ids.back(), 1.0, false}}); other.complete(); refused = false;
            try { sys->Rulebook.merge_in(rid, std::move(other)); } catch (const Moment::errors::already_in_use &) { refused = true; }
            c.require(refused && rules(b) == before, w.name + " used-rulebook-merged", [&] { return who; });
        }
        // other orders of making the same things; unknown indices
        for (auto bad : {SubstitutedMatrixIndex{9999999, 0}, SubstitutedMatrixIndex{list[0].id, 9999999}, SubstitutedMatrixIndex{-1, 0}}) { bool threw = false; try { (void) sys->SubstitutedMatrix.create(bad, MTP::Never); } catch (const Moment::errors::missing_component &) { threw = true; } c.require(threw, w.name + " unknown-index", [&] { return w.name; }); }
    }
}

void mc::register_cases(mc::Registry &reg) {
    for (auto &w : catalogue(reg.quick())) { reg.add("world-" + w.name, [w](Ctx &c) { run(c, w); c.sample(w.name); }, reg.quick() ? 400 : 4000); }
}
