// Reference for polynomials of moments: a polynomial is the linear form it stands for.
#pragma once
#include "worlds.h"
#include "scenarios/imported/imported_context.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "symbolic/monomial_comparator.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "symbolic/polynomial_ordering.h"

namespace polyref {
    using namespace world;
    using Form = std::map<std::pair<symbol_name_t, bool>, cd>;
    struct MoreName { constexpr static char name[] = "Sort by descending ID"; };
    using ByMoreFactory = PolynomialFactoryImpl<IdMoreComparator, MoreName>;

    struct Table {
        std::string name;
        std::shared_ptr<void> keep;                     // whatever owns the symbols
        SymbolTable *st = nullptr;
        MatrixSystem *sys = nullptr;
        std::vector<symbol_name_t> ids;                 // symbols to use (1 first)
        [[nodiscard]] int kind(symbol_name_t id) const { auto &s = (*st)[id]; return s.is_hermitian() ? 1 : s.is_antihermitian() ? -1 : 0; }
    };
    inline void put(Form &f, const Table &t, symbol_name_t id, cd v, bool conj) {
        if (id == 0) { return; } const int k = t.kind(id);
        if (k == 1) { f[{id, false}] += v; } else if (k == -1) { f[{id, false}] += conj ? -v : v; } else { f[{id, conj}] += v; }
    }
    inline Form form(const Table &t, const Monomial &m) { Form f; put(f, t, m.id, m.factor, m.conjugated); return tidy(f); }
    template<class L> Form form(const Table &t, const L &p) { Form f; for (auto &m : p) { put(f, t, m.id, m.factor, m.conjugated); } return tidy(f); }
    inline Form add(Form a, const Form &b, cd s = 1.0) { for (auto &[k, v] : b) { a[k] += s * v; } return tidy(a); }
    inline Form scale(Form a, cd s) { for (auto &[k, v] : a) { v *= s; } return tidy(a); }
    inline Form conj(const Form &a, const Table &t) { Form o; for (auto &[k, v] : a) { put(o, t, k.first, std::conj(v), !k.second); } return tidy(o); }
    inline std::string text(const Form &f) { std::stringstream ss; if (f.empty()) { ss << "0"; } for (auto &[k, v] : f) { ss << v << "#" << k.first << (k.second ? "* " : " "); } return ss.str(); }
    template<class L> std::string list(const L &p) { std::stringstream ss; ss << "{"; for (auto &m : p) { ss << m.factor << "#" << m.id << (m.conjugated ? "*" : "") << " "; } ss << "}"; return ss.str(); }
    inline bool canonical(const Table &t, const PolynomialFactory &f, const Polynomial &p) {
        const Monomial *last = nullptr;
        for (auto &m : p) {
            if (m.id == 0 || std::abs(m.factor) < EPS || (m.conjugated && t.kind(m.id) != 0)) { return false; }
            if (last && !f.less(*last, m)) { return false; }
            last = &m;
        }
        return true;
    }

    inline Table imported_table() {
        auto sys = std::make_shared<Imported::ImportedMatrixSystem>(false);
        Table t; t.name = "operator-free"; t.st = &sys->Symbols(); t.keep = sys; t.sys = sys.get();
        t.st->create(true, true); t.st->create(true, false); t.st->create(false, true); t.st->create(true, true);
        t.ids = {1, 2, 3, 4, 5}; return t;
    }
    /** symbols of a few words, registered so that identity order and hash order disagree */
    inline Table world_table(const World &w, size_t max) {
        std::shared_ptr<MatrixSystem> sys = w.make(); Table t; t.name = w.name; t.keep = sys; t.sys = sys.get(); t.st = &sys->Symbols(); t.ids = {1};
        auto words = w.canonical(size_t(w.words)); std::reverse(words.begin(), words.end());
        std::map<int, int> had; std::set<symbol_name_t> seen{1};
        for (auto &x : words) { if (x.empty()) { continue; } const int h = w.hermiticity(x); if (had[h] >= (h == 0 ? 2 : 1)) { continue; } auto id = t.st->merge_in(w.seq(sys->Context(), x)); if (seen.insert(id).second) { ++had[h]; t.ids.push_back(id); } if (t.ids.size() >= max) { break; } }
        // one short word last
        if (t.ids.size() < max + 1) { auto id = t.st->merge_in(w.seq(sys->Context(), {0})); if (seen.insert(id).second) { t.ids.push_back(id); } }
        return t;
    }
    inline std::vector<Table> tables(size_t max) {
        std::vector<Table> out; out.push_back(imported_table());
        for (auto &w : catalogue(true)) { if (w.name == "anticommuting+free" || w.name == "anticommuting" || w.name == "locality(2,2,)" || w.name == "pauli3" || w.name == "fermion") { out.push_back(world_table(w, max)); } }
        return out;
    }
    inline std::vector<std::unique_ptr<PolynomialFactory>> factories(const Table &t) {
        std::vector<std::unique_ptr<PolynomialFactory>> out;
        out.push_back(std::make_unique<ByIDPolynomialFactory>(*t.st, 10.0)); out.push_back(std::make_unique<ByMoreFactory>(*t.st, 10.0)); out.push_back(std::make_unique<ByHashPolynomialFactory>(*t.st, 10.0));
        return out;
    }
    /** canonical polynomials with up to n terms (as unsorted lists of monomials) */
    inline std::vector<std::vector<Monomial>> canonical_lists(const Table &t, size_t n, const std::vector<cd> &coef) {
        std::vector<std::pair<symbol_name_t, bool>> keys; for (auto id : t.ids) { keys.emplace_back(id, false); if (t.kind(id) == 0) { keys.emplace_back(id, true); } }
        std::vector<std::vector<Monomial>> out;
        std::function<void(size_t, std::vector<Monomial> &)> rec = [&](size_t from, std::vector<Monomial> &cur) {
            out.push_back(cur); if (cur.size() == n) { return; }
            for (size_t k = from; k < keys.size(); ++k) for (auto &c : coef) { cur.emplace_back(keys[k].first, c, keys[k].second); rec(k + 1, cur); cur.pop_back(); }
        };
        std::vector<Monomial> cur; rec(0, cur); return out;
    }
}
