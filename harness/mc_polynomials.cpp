// P09: monomials and polynomials of moments against linear forms.
#include "poly_ref.h"
#include "dictionary/raw_polynomial.h"

using namespace Moment;
using namespace polyref;

namespace {
    const cd I(0, 1);
    bool hermitian(const Table &t, const Form &f, double s) { return eq(conj(f, t), scale(f, s)); }

    void check(mc::Ctx &c, const Table &t, const PolynomialFactory &f, const Polynomial &got, const Form &want, const std::string &key, const std::function<std::string()> &what) {
        ++c.transitions;
        const auto g = form(t, got);
        c.require(eq(g, want), key + " value", [&] { return mc::cat(t.name, " ", f.name(), " ", what(), " gives ", list(got), ", expected ", text(want)); });
        c.require(canonical(t, f, got), key + " canonical", [&] { return mc::cat(t.name, " ", f.name(), " ", what(), " gives ", list(got), ", not in canonical form"); });
    }

    void unary(mc::Ctx &c, const Table &t, const PolynomialFactory &f, bool id_order, const Polynomial &p) {
        const Form v = form(t, p); ++c.states; auto me = [&] { return list(p); };
        const std::string n = t.name;
        check(c, t, f, p.conjugate(*t.st), conj(v, t), n + " conjugate", [&] { return "conj" + me(); });
        { Polynomial q{p}; const bool changed = q.conjugate_in_place(*t.st); bool expect = false; for (auto &m : p) { expect = expect || t.kind(m.id) != 1; } c.require(changed == expect, n + " conjugate flag", me); }
        check(c, t, f, p.Real(f), scale(add(v, conj(v, t)), 0.5), n + " real", [&] { return "Re" + me(); });
        check(c, t, f, p.Imaginary(f), scale(add(v, conj(v, t), -1.0), cd(0, -0.5)), n + " imaginary", [&] { return "Im" + me(); });
        for (cd s : {cd(0), cd(1), cd(-1), I, cd(2, -1), cd(0.5)}) {
            check(c, t, f, f.scale(p, s), scale(v, s), n + " scale", [&] { return mc::cat(s, me()); });
            check(c, t, f, p * s, scale(v, s), n + " scale", [&] { return mc::cat(s, "*", me()); });
            Polynomial q{p}; q *= s; check(c, t, f, q, scale(v, s), n + " scale", [&] { return mc::cat(s, "*=", me()); });
        }
        check(c, t, f, p.fix_cc(*t.st, true), v, n + " fix_cc", [&] { return "fix_cc" + me(); });
        c.require(f.is_hermitian(p) == hermitian(t, v, 1), n + " is_hermitian", [&] { return mc::cat(n, " ", f.name(), " ", me(), " says ", f.is_hermitian(p)); });
        c.require(f.is_antihermitian(p) == hermitian(t, v, -1), n + " is_antihermitian", [&] { return mc::cat(n, " ", f.name(), " ", me(), " says ", f.is_antihermitian(p)); });
        bool real = true; for (auto &[k, x] : v) { real = real && std::abs(x.imag()) < EPS; }
        c.require(p.real_factors() == real, n + " real_factors", me);
        c.require(p.is_monomial() == (v.size() <= 1) && p.empty() == v.empty() && p.size() == v.size(), n + " size", me);
        bool threw = false; try { auto m = static_cast<Monomial>(p); c.require(v.empty() ? m.id == 0 : eq(form(t, m), v), n + " to-monomial", me); } catch (const std::logic_error &) { threw = true; }
        c.require(threw == (v.size() > 1), n + " to-monomial refused", me);
        c.require(p.first_id() == (p.empty() ? 0 : p[0].id) && p.last_id() == (p.empty() ? 0 : p.back().id), n + " first/last", me);
        size_t degree = 0; for (auto &[k, x] : v) { auto &s = (*t.st)[k.first]; if (k.first > 1 && s.has_sequence()) { degree = std::max(degree, s.sequence().size()); } }
        c.step("maximum_degree of %s", me().c_str());
        c.require(f.maximum_degree(p) == degree, n + " maximum_degree", [&] { return mc::cat(f.name(), " degree of ", me(), " is ", f.maximum_degree(p), ", expected ", degree); });
        (void) id_order;
    }

    void lists(mc::Ctx &c, const Table &t, const PolynomialFactory &f, bool id_order, size_t len) {
        // arbitrary lists of monomials, canonical or not
        std::vector<Monomial> alphabet{Monomial{0, 1.0, false}, Monomial{0, 2.0, true}};
        for (auto id : t.ids) for (bool cj : {false, true}) for (cd v : {cd(1), cd(-1), I, cd(0)}) { if (v == cd(0) && (id != t.ids.back() || cj)) { continue; } if (id == 1 && cj && v != I) { continue; } alphabet.emplace_back(id, v, cj); }
        mc::each_word_upto(int(alphabet.size()), len, [&](const std::vector<int> &w) {
            Polynomial::storage_t s; for (int x : w) { s.emplace_back(alphabet[x]); }
            Polynomial::storage_t copy{s}; const Form v = form(t, s);
            check(c, t, f, f(std::move(copy)), v, t.name + " construct", [&] { return mc::cat("construct", list(s)); }); ++c.states;
            Polynomial::storage_t sorted{s}; const auto order = f.presort_data(sorted);
            bool ok = order.size() == s.size() && sorted.size() == s.size(); std::set<size_t> seen;
            for (size_t k = 0; ok && k < s.size(); ++k) { ok = order[k] < s.size() && seen.insert(order[k]).second && sorted[k].id == s[order[k]].id && sorted[k].conjugated == s[order[k]].conjugated && sorted[k].factor == s[order[k]].factor && (k == 0 || !f.less(sorted[k], sorted[k - 1])); }
            c.require(ok, t.name + " presort", [&] { return mc::cat(f.name(), " presort ", list(s), " -> ", list(sorted)); });
            if (w.size() == 2) {
                const Monomial a = alphabet[w[0]], b = alphabet[w[1]];
                c.require(f.less(a, b) == (f.key(a) < f.key(b)), t.name + " key-order", [&] { return mc::cat(f.name(), list(s)); });
                c.require((a == b) == ((a.id == 0 && b.id == 0) || (a.id == b.id && a.conjugated == b.conjugated && a.factor == b.factor)) && (a != b) == !(a == b), t.name + " monomial-equality", [&] { return list(s); });
                bool canon = true; for (auto &m : s) { canon = canon && !(m.conjugated && t.kind(m.id) != 0); }
                if (canon) { check(c, t, f, f.sum(a, b), v, t.name + " sum-monomials", [&] { return mc::cat("sum", list(s)); }); }
            }
            if (w.size() == 1) {
                const Monomial a = alphabet[w[0]]; c.require(a.complex_factor() == (a.factor.imag() != 0) && a.negated() == (a.factor == cd(-1)), t.name + " monomial-flags", [&] { return list(s); });
                Polynomial one{a}; c.require(eq(form(t, one), v) && one.size() == v.size(), t.name + " from-monomial", [&] { return list(s); });
            }
            if (id_order) { Polynomial q{s, *t.st}; c.require(eq(form(t, q), v) && canonical(t, f, q), t.name + " construct-by-id", [&] { return mc::cat(list(s), " -> ", list(q)); }); }
        });
    }

    void binary(mc::Ctx &c, const Table &t, const PolynomialFactory &f, bool id_order, const std::vector<Polynomial> &ps, const std::vector<Polynomial> &qs) {
        std::vector<Form> vq; for (auto &q : qs) { vq.push_back(form(t, q)); }
        for (auto &p : ps) {
            const Form v = form(t, p), cv = conj(v, t);
            for (size_t k = 0; k < qs.size(); ++k) {
                auto &q = qs[k]; auto what = [&] { return mc::cat(list(p), " and ", list(q)); };
                const Form want = add(v, vq[k]);
                check(c, t, f, f.sum(p, q), want, t.name + " sum", what);
                Polynomial a{p}; f.append(a, q); check(c, t, f, a, want, t.name + " append", what);
                if (q.size() == 1) { check(c, t, f, f.sum(p, q[0]), want, t.name + " sum-monomial", what); }
                if (id_order) { check(c, t, f, p + q, want, t.name + " plus", what); Polynomial b{p}; b += q; check(c, t, f, b, want, t.name + " plus", what); }
                const bool same = eq(v, vq[k]);
                c.require((p == q) == same && (p != q) == !same, t.name + " equality", what);
                c.require(p.is_conjugate(*t.st, q) == eq(cv, vq[k]), t.name + " is_conjugate", [&] { return mc::cat(f.name(), " ", what(), " says ", p.is_conjugate(*t.st, q)); });
                // three-way sums come out the same whichever way they are bracketed
                if (k % 7 == 0) { const auto &r = qs[(k * 5 + 3) % qs.size()]; c.require(f.sum(f.sum(p, q), r) == f.sum(p, f.sum(q, r)), t.name + " associative", what); }
            }
        }
    }

    void raw(mc::Ctx &c, const World &w, size_t len) {
        auto sys = w.make(); const auto &ctx = sys->Context(); auto words = w.canonical(2); if (words.size() > 4) { words.resize(3); words.push_back(w.canonical(2).back()); }
        struct T { Raw r; int ph; cd v; }; std::vector<T> alphabet;
        for (auto &x : words) for (int ph : {0, 1, 2}) for (cd v : {cd(1), cd(-1), cd(0, 1)}) { if (ph && v != cd(1)) { continue; } alphabet.push_back({x, ph, v}); }
        alphabet.push_back({words.back(), 0, 0.0});
        std::vector<std::pair<RawPolynomial, Elem>> all;
        mc::each_word_upto(int(alphabet.size()), len, [&](const std::vector<int> &s) {
            RawPolynomial p; Elem e; for (int x : s) { auto &a = alphabet[x]; p.emplace_back(w.seq(ctx, a.r, a.ph), a.v); e[a.r] += a.v * pref::iphase(a.ph); }
            all.emplace_back(p, tidy(e));
            c.require(eq(World::elem(p), e) && p.size() == s.size(), w.name + " raw-build", [&] { return text(e); });
            RawPolynomial q{p}; q.condense(10.0);
            bool canon = q.size() == tidy(e).size(); std::optional<size_t> last; for (auto &m : q) { canon = canon && m.sequence.get_sign() == SequenceSignType::Positive && std::abs(m.weight) > EPS && (!last || *last < m.sequence.hash()); last = m.sequence.hash(); }
            c.require(eq(World::elem(q), e) && canon, w.name + " condense", [&] { return mc::cat(text(e), " -> ", text(World::elem(q))); });
            bool scalar = true; for (auto &m : p) { scalar = scalar && m.sequence.empty(); }
            c.require(p.is_scalar() == scalar && p.empty() == s.empty(), w.name + " is_scalar", [&] { return text(e); }); ++c.states;
            // to symbols and back
            auto fresh = w.make(); RawPolynomial mine; for (int x : s) { auto &a = alphabet[x]; mine.emplace_back(w.seq(fresh->Context(), a.r, a.ph), a.v); }
            bool missing = false; for (int x : s) { if (!fresh->Symbols().where(w.seq(fresh->Context(), alphabet[x].r)).found()) { missing = true; } }
            bool threw = false; try { (void) mine.to_polynomial(fresh->polynomial_factory()); } catch (const errors::unregistered_operator_sequence &) { threw = true; }
            c.require(threw == missing, w.name + " unregistered", [&] { return text(e); });
            auto sym = mine.to_polynomial_register_symbols(fresh->polynomial_factory(), fresh->Symbols());
            c.require(eq(w.expr(fresh->Symbols(), sym), w.expect(tidy(e))), w.name + " to-polynomial", [&] { return mc::cat(text(tidy(e)), " -> ", text(w.expr(fresh->Symbols(), sym))); });
            auto again = mine.to_polynomial(fresh->polynomial_factory()); c.require(again == sym, w.name + " to-polynomial again", [&] { return text(e); });
            RawPolynomial back{sym, fresh->Symbols()};
            c.require(eq(w.expect(World::elem(back)), w.expect(tidy(e))) && (w.aliases || eq(World::elem(back), tidy(e))), w.name + " from-polynomial", [&] { return mc::cat(text(tidy(e)), " -> ", text(World::elem(back))); });
            ++c.traces;
        });
        const size_t stride = all.size() > 400 ? all.size() / 400 : 1;
        for (size_t i = 0; i < all.size(); i += stride) for (size_t j = 0; j < all.size(); j += stride) {
            auto what = [&] { return mc::cat(text(all[i].second), " with ", text(all[j].second)); };
            c.require(eq(World::elem(RawPolynomial::add(all[i].first, all[j].first, 10.0)), World::add(all[i].second, all[j].second)), w.name + " raw-add", what);
            c.require(eq(World::elem(RawPolynomial::subtract(all[i].first, all[j].first, 10.0)), World::add(all[i].second, all[j].second, -1.0)), w.name + " raw-subtract", what);
            auto prod = RawPolynomial::distributed_product(all[i].first, all[j].first, [](const OperatorSequence &a, const OperatorSequence &b) { return a * b; }, [](cd a, cd b) { return a * b; }, 10.0);
            c.require(eq(World::elem(prod), w.mul(all[i].second, all[j].second)), w.name + " raw-product", [&] { return mc::cat(what(), " -> ", text(World::elem(prod))); });
            c.transitions += 3;
        }
    }
}

void mc::register_cases(mc::Registry &reg) {
    const auto n = tables(5).size();
    for (size_t k = 0; k < n; ++k) for (int which = 0; which < 3; ++which) {
        const std::string name = mc::cat(tables(5)[k].name, which == 0 ? "-id" : which == 1 ? "-more" : "-hash");
        reg.add("unary-" + name, [k, which](Ctx &c) {
            auto t = tables(5)[k]; auto f = std::move(factories(t)[which]);
            for (auto &l : canonical_lists(t, c.bound(3, 4), {1.0, -1.0, I, cd(1, -2)})) { Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } unary(c, t, *f, which == 0, (*f)(std::move(s))); }
        }, 1500);
        reg.add("lists-" + name, [k, which](Ctx &c) { auto t = tables(5)[k]; auto f = std::move(factories(t)[which]); lists(c, t, *f, which == 0, c.bound(3, 4)); }, 3000);
        reg.add("binary-" + name, [k, which](Ctx &c) {
            auto t = tables(5)[k]; auto f = std::move(factories(t)[which]);
            auto make = [&](size_t n, const std::vector<cd> &coef) { std::vector<Polynomial> out; for (auto &l : canonical_lists(t, n, coef)) { Polynomial::storage_t s; for (auto &m : l) { s.emplace_back(m); } out.push_back((*f)(std::move(s))); } return out; };
            binary(c, t, *f, which == 0, make(c.bound(2, 3), {1.0, -1.0, I, cd(1, -2)}), make(2, {1.0, -1.0, I, cd(1, -2)}));
            binary(c, t, *f, which == 0, make(3, {1.0, -1.0}), make(c.bound(2, 3), {1.0, -1.0}));
        }, 3000);
    }
    for (auto &w : catalogue(reg.quick())) { reg.add("raw-" + w.name, [w](Ctx &c) { raw(c, w, c.bound(2, 3)); }, 1500); }
}
