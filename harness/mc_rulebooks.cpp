// P10: completed moment rulebooks are projections along exactly the span of the stated equations.
#include "poly_ref.h"
#include "linear_ref.h"
#include "symbolic/rules/moment_rulebook.h"

using namespace Moment;
using namespace polyref;
using linref::Span;
using linref::Vec;
using Cmp = MomentRulebook::RulebookComparisonResult;

namespace {
    const cd I(0, 1);

    /** letters of a table, and polynomials as vectors over them */
    struct Letters {
        const Table &t; std::vector<std::pair<symbol_name_t, bool>> keys; std::map<std::pair<symbol_name_t, bool>, size_t> at;
        explicit Letters(const Table &t) : t{t} { for (auto id : t.ids) { for (bool cj : {false, true}) { if (cj && t.kind(id) != 0) { continue; } at[{id, cj}] = keys.size(); keys.emplace_back(id, cj); } } }
        [[nodiscard]] size_t size() const { return keys.size(); }
        [[nodiscard]] Vec vec(const Form &f) const { Vec v(size(), 0); for (auto &[k, x] : f) { v.at(at.at(k)) += x; } return v; }
        [[nodiscard]] Vec vec(const Polynomial &p) const { return vec(form(t, p)); }
        void equation(Span &s, const Polynomial &p) const { const Form f = form(t, p); s.add(vec(f)); s.add(vec(conj(f, t))); }
        [[nodiscard]] Vec unit(size_t k) const { Vec v(size(), 0); v[k] = 1; return v; }
        [[nodiscard]] Polynomial letter(const PolynomialFactory &f, size_t k, cd w = 1.0) const { return f({Monomial{keys[k].first, w, keys[k].second}}); }
    };
    Vec minus(Vec a, const Vec &b) { for (size_t k = 0; k < a.size(); ++k) { a[k] -= b[k]; } return a; }

    std::vector<Vec> map_of(const Letters &L, const MomentRulebook &b) { std::vector<Vec> out; for (size_t k = 0; k < L.size(); ++k) { out.push_back(L.vec(b.reduce(L.letter(b.factory, k)))); } return out; }
    bool same(const std::vector<Vec> &a, const std::vector<Vec> &b) { for (size_t k = 0; k < a.size(); ++k) { if (!Span::zero(minus(a[k], b[k]))) { return false; } } return a.size() == b.size(); }
    std::string rules(const MomentRulebook &b) { std::stringstream ss; for (auto &[id, r] : b) { ss << " #" << id << (r.is_partial() ? "(partial)" : "") << "->" << list(r.RHS()); } return ss.str(); }

    /** Everything that must hold of a completed rulebook whose equations span `eqs`. */
    void check_book(mc::Ctx &c, const Letters &L, const MomentRulebook &b, const Span &eqs, const std::string &key, const std::function<std::string()> &who) {
        const auto &t = L.t; const auto &f = b.factory; ++c.states;
        auto me = [&] { return mc::cat(who(), " gives", rules(b)); };
        c.require(!b.pending_rules() && b.raw_rule_size() == 0, key + " pending", me);
        bool mono = true, herm = true; size_t partial = 0;
        for (auto &[id, r] : b) {
            c.require(r.LHS() == id && !r.is_trivial(), key + " lhs", me);
            if (r.is_partial()) { ++partial; } mono = mono && r.RHS().size() <= 1; if (t.kind(id) == 1 && !f.is_hermitian(r.RHS())) { herm = false; }
            c.require(canonical(t, f, r.RHS()), key + " rule-canonical", me);
            for (auto &m : r.RHS()) { c.require(m.id == id ? r.is_partial() : f.less(Monomial{m.id}, Monomial{id}), key + " rule-order", me); }
            c.require(eqs.contains(minus(L.vec(r.RHS()), L.unit(L.at.at({id, false})))), key + " rule-implied", me);
            auto as = r.as_polynomial(f); c.require(eqs.contains(L.vec(as)) && canonical(t, f, as), key + " as_polynomial", me);
            c.require(b.reduce(r.RHS()) == r.RHS() || Span::zero(minus(L.vec(b.reduce(r.RHS())), L.vec(r.RHS()))), key + " rule-reduced", me);
            c.require(b.find(id) != b.end() && &b.find(id)->second == &r, key + " find", me);
        }
        c.require(b.is_monomial() == mono, key + " is_monomial", me);
        c.require(b.is_hermitian() == herm && herm, key + " is_hermitian", me);
        c.require(b.empty() == (b.size() == 0), key + " empty", me);
        // the number of equations spanned by full and partial rules
        size_t dim = 0; for (auto &[id, r] : b) { dim += t.kind(id) == 0 && !r.is_partial() ? 2 : 1; }
        c.require(dim == eqs.dim(), key + " rank", [&] { return mc::cat(me(), " fix ", dim, " letters, equations have rank ", eqs.dim()); });
        const auto map = map_of(L, b);
        for (size_t k = 0; k < L.size(); ++k) {
            c.require(eqs.contains(minus(L.unit(k), map[k])), key + " reduce-changes-value", [&] { return mc::cat(me(), " letter ", k); });
            // letter by letter, through the other entry points
            const Monomial m{L.keys[k].first, cd(1, -2), L.keys[k].second}; Vec want = map[k]; for (auto &x : want) { x *= cd(1, -2); }
            const auto red = b.reduce(m); c.require(Span::zero(minus(L.vec(red), want)), key + " reduce-monomial", [&] { return mc::cat(me(), " letter ", k, " gives ", list(red)); });
            bool threw = false; try { const auto one = b.reduce_monomial(m); c.require(Span::zero(minus(L.vec(form(t, one)), want)), key + " reduce_monomial", [&] { return mc::cat(me(), " letter ", k, " gives ", list(std::vector<Monomial>{one})); }); } catch (const Moment::errors::not_monomial &) { threw = true; }
            auto rule = b.find(m.id); c.require(threw == (rule != b.end() && rule->second.RHS().size() > 1), key + " reduce_monomial refused", me);
            Polynomial p = L.letter(f, k); const bool changed = b.reduce_in_place(p); c.require(changed == (rule != b.end()), key + " changed-flag", me);
            c.require(f.less(Monomial{1}, Monomial{2}) == f.less(Monomial{1}, Monomial{2}) && (b.match(p).first == b.end() || rule == b.end() || rule->second.is_partial() || changed), key + " match", me);
            c.require(Span::zero(minus(L.vec(b.reduce(p)), L.vec(p))), key + " idempotent", [&] { return mc::cat(me(), " letter ", k, " reduces to ", list(p), " then to ", list(b.reduce(p))); });
        }
        // whole polynomials
        for (auto &r : eqs.rows) {
            Polynomial::storage_t s; for (size_t k = 0; k < L.size(); ++k) { if (std::abs(r[k]) > EPS) { s.emplace_back(L.keys[k].first, r[k], L.keys[k].second); } }
            Polynomial p = f(std::move(s)); c.require(Span::zero(L.vec(b.reduce(p))), key + " equation-does-not-vanish", [&] { return mc::cat(me(), " ", list(p), " reduces to ", list(b.reduce(p))); });
        }
        c.transitions += L.size() * 4;
    }

    bool complete(mc::Ctx &c, MomentRulebook &b, bool contradiction, const std::string &key, const std::function<std::string()> &who) {
        try { b.complete(); } catch (const Moment::errors::invalid_moment_rule &) { c.require(contradiction, key + " refused", who); return false; }
        c.require(!contradiction, key + " contradiction-accepted", [&] { return who() + rules(b); });
        return !contradiction;
    }

    std::vector<Polynomial> pool(const Table &t, size_t terms, const std::vector<cd> &coef) {
        const auto &f = t.sys->polynomial_factory(); std::vector<Polynomial> all;
        for (auto &l : canonical_lists(t, terms, coef)) { if (l.empty() || std::abs(l[0].factor - coef[0]) > EPS) { continue; } Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } all.push_back(f(std::move(s))); }
        return all;
    }
    std::vector<Polynomial> spread(std::vector<Polynomial> all, size_t n) { if (all.size() <= n) { return all; } std::vector<Polynomial> out; for (size_t k = 0; k < n; ++k) { out.push_back(all[(k * all.size()) / n + (k * 7919) % std::max<size_t>(1, all.size() / n)]); } return out; }

    void single(mc::Ctx &c, const Table &t, size_t terms) {
        Letters L{t}; const Vec one = L.unit(0);
        for (auto &p : pool(t, terms, {1.0, -1.0, I, cd(1, 2)})) {
            Span eqs(L.size()); L.equation(eqs, p); MomentRulebook b{*t.sys}; b.add_raw_rule(Polynomial{p}); auto who = [&] { return mc::cat(t.name, " ", list(p)); }; c.step("%s", who().c_str());
            if (complete(c, b, eqs.contains(one), t.name + " one", who)) { check_book(c, L, b, eqs, t.name + " one", who); }
            ++c.traces;
        }
    }
    /** all ordered tuples of n polynomials of a pool, in one go and one at a time */
    void tuples(mc::Ctx &c, const Table &t, const std::vector<Polynomial> &ps, size_t n) {
        Letters L{t}; const Vec one = L.unit(0); std::map<std::vector<int>, std::vector<Vec>> by_set;
        mc::each_word(ps.size(), n, [&](const std::vector<int> &w) {
            std::set<int> set(w.begin(), w.end()); if (set.size() < n) { return; }
            Span eqs(L.size()); for (int x : w) { L.equation(eqs, ps[x]); } const bool bad = eqs.contains(one);
            auto who = [&] { std::string s = t.name; for (int x : w) { s += " " + list(ps[x]); } return s; }; c.step("%s", who().c_str()); const std::string key = mc::cat(t.name, " ", n);
            const bool first = std::is_sorted(w.begin(), w.end());
            if (first) {
                MomentRulebook b{*t.sys}; std::vector<Polynomial> raw; for (int x : w) { raw.push_back(ps[x]); } b.add_raw_rules(std::move(raw));
                c.require(b.pending_rules() && b.raw_rule_size() == n, key + " not-pending", who);
                if (complete(c, b, bad, key, who)) {
                    check_book(c, L, b, eqs, key, who); by_set[w] = map_of(L, b);
                    // implied equations change nothing
                    const auto before = rules(b); for (int x : w) { b.add_raw_rule(ps[x].conjugate(*t.st)); Polynomial q = b.factory.scale(ps[x], I); b.add_raw_rule(std::move(q)); }
                    bool ok = true; size_t added = 99; try { added = b.complete(); } catch (...) { ok = false; }
                    c.require(ok && added == 0 && rules(b) == before, key + " implied-rules", [&] { return mc::cat(who(), before, " becomes", rules(b), " added ", added); });
                } else if (bad) { c.count("contradictions"); }
            }
            // one at a time
            MomentRulebook b{*t.sys}; Span sofar(L.size()); bool alive = true;
            for (int x : w) { L.equation(sofar, ps[x]); b.add_raw_rule(Polynomial{ps[x]}); if (!(alive = complete(c, b, sofar.contains(one), key + " stepwise", who))) { break; } }
            if (alive) {
                check_book(c, L, b, eqs, key + " stepwise", who); std::vector<int> sorted(set.begin(), set.end());
                if (auto i = by_set.find(sorted); i != by_set.end()) { c.require(same(i->second, map_of(L, b)), key + " order-dependent", [&] { return mc::cat(who(), rules(b)); }); }
            }
            ++c.traces;
        });
    }
    /** pairs of rulebooks: containment, comparison, merging */
    void merges(mc::Ctx &c, const Table &t, const std::vector<Polynomial> &ps) {
        Letters L{t}; const Vec one = L.unit(0); std::vector<std::vector<int>> sets{{}};
        for (int i = 0; i < int(ps.size()); ++i) { sets.push_back({i}); for (int j = i + 1; j < int(ps.size()); ++j) { if ((i * 3 + j) % 4 == 0) { sets.push_back({i, j}); } } }
        struct Made { std::vector<int> w; std::unique_ptr<MomentRulebook> b; Span s; };
        std::vector<Made> made; auto make = [&](const std::vector<int> &w) { auto b = std::make_unique<MomentRulebook>(*t.sys); for (int x : w) { b->add_raw_rule(Polynomial{ps[x]}); } b->complete(); return b; };
        for (auto &w : sets) { Span s(L.size()); for (int x : w) { L.equation(s, ps[x]); } if (s.contains(one)) { continue; } try { made.push_back({w, make(w), s}); } catch (const std::exception &e) { c.fail(t.name + " merge refused", mc::cat(mc::show(w), e.what())); } }
        for (auto &a : made) for (auto &b : made) {
            auto who = [&] { std::string s = t.name + " {"; for (int x : a.w) { s += " " + list(ps[x]); } s += " } with {"; for (int x : b.w) { s += " " + list(ps[x]); } return s + " }"; }; c.step("%s", who().c_str());
            const bool ab = b.s.within(a.s), ba = a.s.within(b.s);
            c.require((a.b->first_noncontained_rule(*b.b) == nullptr) == ab, t.name + " contains", who);
            auto [res, in_a, in_b] = a.b->compare_rulebooks(*b.b);
            c.require(res == (ab && ba ? Cmp::AEqualsB : ab ? Cmp::AContainsB : ba ? Cmp::BContainsA : Cmp::Disjoint), t.name + " compare", [&] { return mc::cat(who(), " -> ", int(res)); });
            c.require((in_a == nullptr) == ba && (in_b == nullptr) == ab, t.name + " compare-witness", who);
            for (auto *r : {in_a}) { if (r) { auto p = b.b->reduce(r->as_polynomial(b.b->factory)); c.require(!p.empty() && a.b->find(r->LHS()) != a.b->end(), t.name + " witness", who); } }
            // merging
            Span both{a.s}; for (auto &r : b.s.rows) { both.add(r); } const bool bad = both.contains(one);
            auto dst = make(a.w), src = make(b.w); dst->set_name("dst"); src->set_name("src"); const auto before = rules(*dst); bool threw = false;
            try { dst->combine_and_complete(std::move(*src)); } catch (const std::exception &) { threw = true; }
            if (!c.require(threw == bad, t.name + (bad ? " merge contradiction-accepted" : " merge refused"), [&] { return mc::cat(who(), rules(*dst)); })) { continue; }
            if (bad) { c.count("contradictions"); check_book(c, L, *dst, a.s, t.name + " merge-undone", who); c.require(rules(*dst) == before && dst->name() == "dst", t.name + " merge-undone same", [&] { return mc::cat(who(), before, " became", rules(*dst)); }); }
            else { check_book(c, L, *dst, both, t.name + " merge", who); }
            // after a refused merge further rules can still be added
            if (bad && !a.w.empty()) { dst->add_raw_rule(Polynomial{ps[a.w[0]]}); size_t n = 9; try { n = dst->complete(); } catch (...) { } c.require(n == 0 && rules(*dst) == before, t.name + " merge-undone usable", who); }
            ++c.traces;
        }
    }
    /** substitution lists */
    void substitutions(mc::Ctx &c, const Table &t) {
        Letters L{t}; const Vec one = L.unit(0); const std::vector<cd> vals{0.0, 1.0, -0.5, I, cd(1, 2)};
        std::vector<symbol_name_t> ids(t.ids.begin() + 1, t.ids.end());
        mc::each_word(vals.size() + 1, ids.size(), [&](const std::vector<int> &w) {
            for (int kind = 0; kind < 2; ++kind) {
                MomentRulebook::raw_map_t m; MomentRulebook::raw_complex_map_t z; Span eqs(L.size()); bool real = true;
                for (size_t k = 0; k < ids.size(); ++k) { if (!w[k]) { continue; } const cd v = vals[w[k] - 1]; real = real && v.imag() == 0; m[ids[k]] = v.real(); z[ids[k]] = v; Form f; put(f, t, ids[k], 1.0, false); put(f, t, 1, -v, false); eqs.add(L.vec(f)); eqs.add(L.vec(conj(f, t))); }
                if (kind == 0 && !real) { continue; }
                auto who = [&] { std::string s = t.name + (kind ? " complex list" : " real list"); for (auto &[k, v] : z) { s += mc::cat(" #", k, "=", v); } return s; }; c.step("%s", who().c_str());
                MomentRulebook b{*t.sys}; if (kind) { b.add_raw_rules(z); } else { b.add_raw_rules(m); }
                if (complete(c, b, eqs.contains(one), t.name + " list", who)) { check_book(c, L, b, eqs, t.name + " list", who); } ++c.traces;
            }
        });
    }
}

void mc::register_cases(mc::Registry &reg) {
    const auto all = tables(5);
    // Systems of default tolerance are given equations whose solution needs no rounding; those of raised tolerance any.
    struct Tol { explicit Tol(double v) { world::zero_tolerance() = v; } ~Tol() { world::zero_tolerance() = 1.0; } };
    for (size_t k = 0; k < all.size(); ++k) {
        const std::string n = all[k].name; const bool rough = k > 0;
        const std::vector<cd> few = rough ? std::vector<cd>{1.0, -1.0, I} : std::vector<cd>{1.0, -1.0}, odd = rough ? std::vector<cd>{1.0, cd(1, 2), I} : few;
        const auto go = [k](size_t ids, double tol, std::function<void(const Table &)> f) { Tol x(tol); auto t = tables(ids)[k]; f(t); };
        reg.add("single-" + n, [=](Ctx &c) { go(5, 1.0, [&](const Table &t) { single(c, t, c.bound(3, 4)); }); }, 1500);
        reg.add("exact-" + n, [=](Ctx &c) { go(4, 1.0, [&](const Table &t) { tuples(c, t, spread(pool(t, 2, {1.0, -1.0}), c.bound(60, 120)), 2); }); }, 3000);
        reg.add("pairs2-" + n, [=](Ctx &c) { go(4, 1024., [&](const Table &t) { tuples(c, t, spread(pool(t, 2, few), c.bound(70, 250)), 2); }); }, 3000);
        reg.add("pairs3-" + n, [=](Ctx &c) { go(5, 1024., [&](const Table &t) { tuples(c, t, spread(pool(t, 3, odd), c.bound(60, 250)), 2); }); }, 3000);
        reg.add("triples-" + n, [=](Ctx &c) { go(4, 1024., [&](const Table &t) { tuples(c, t, spread(pool(t, 2, rough ? std::vector<cd>{1.0, cd(1, -2)} : few), c.bound(14, 36)), 3); }); }, 3000);
        if (rough) reg.add("triples3-" + n, [=](Ctx &c) { go(4, 1024., [&](const Table &t) { tuples(c, t, spread(pool(t, 3, few), c.bound(14, 36)), 3); }); }, 3000);
        if (rough) { reg.deep("quads-" + n, [=](Ctx &c) { go(5, 1024., [&](const Table &t) { tuples(c, t, spread(pool(t, 3, odd), 15), 4); }); }, 3000); }
        reg.add("merges-" + n, [=](Ctx &c) { go(4, 1024., [&](const Table &t) { merges(c, t, spread(pool(t, 2, few), c.bound(16, 30))); }); }, 3000);
        reg.add("lists-" + n, [=](Ctx &c) { go(5, 1.0, [&](const Table &t) { substitutions(c, t); }); }, 3000);
    }
}
