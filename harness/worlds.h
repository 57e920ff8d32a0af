// "Worlds": matrix systems together with an independent model of their operator algebra and of which words share a moment.
#pragma once
#include <complex>
#include <map>
#include <memory>
#include <optional>
#include <unordered_map>
#include "mc.h"
#include "algebra_ref.h"
#include "locality_ref.h"
#include "inflation_ref.h"
#include "pauli_ref.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix_system/matrix_system.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"

namespace world {
    using namespace Moment;
    using Raw = std::vector<int>;
    using cd = std::complex<double>;
    /** element of the algebra: canonical word -> coefficient */
    using Elem = std::map<Raw, cd>;
    /** expectation value: (representative word, starred?) -> coefficient */
    using Expr = std::map<std::pair<Raw, bool>, cd>;

    constexpr double EPS = 1e-9;
    template<class M> M tidy(M m) { for (auto it = m.begin(); it != m.end();) { if (std::abs(it->second) < EPS) { it = m.erase(it); } else { ++it; } } return m; }
    template<class M> bool eq(const M &a, const M &b) {
        auto x = tidy(a), y = tidy(b); if (x.size() != y.size()) { return false; }
        for (auto &[k, v] : x) { auto it = y.find(k); if (it == y.end() || std::abs(it->second - v) > EPS) { return false; } }
        return true;
    }
    inline std::string text(const Elem &e) { std::stringstream ss; if (e.empty()) { ss << "0"; } for (auto &[k, v] : e) { ss << v << mc::show(k) << " "; } return ss.str(); }
    inline std::string text(const Expr &e) { std::stringstream ss; if (e.empty()) { ss << "0"; } for (auto &[k, v] : e) { ss << v << "<" << mc::show(k.first) << ">" << (k.second ? "*" : "") << " "; } return ss.str(); }

    /** tolerance (in multiples of epsilon) the matrix systems are made with */
    inline double &zero_tolerance() { static double t = 1.0; return t; }
    struct World {
        std::string name;
        int ops = 0;
        int level = 1;                                   // moment matrix level that is affordable
        int words = 2;                                   // word length to enumerate
        std::function<std::unique_ptr<MatrixSystem>()> make;
        std::function<std::optional<std::pair<Raw, int>>(const Raw &)> reduce;   // (word, power of i), nothing for zero
        std::function<Raw(const Raw &)> reversed = [](const Raw &w) { return Raw(w.rbegin(), w.rend()); };  // raw conjugate, before reduction
        std::function<Raw(const Raw &)> moment = [](const Raw &w) { return w; };                             // representative of the moment
        bool aliases = false;

        [[nodiscard]] Elem word(const Raw &w, cd f = 1.0) const { Elem e; if (const auto &n = nf(w)) { e[n->first] += f * pref::iphase(n->second); } return e; }
        [[nodiscard]] Elem mul(const Elem &a, const Elem &b) const {
            Elem o; for (auto &[x, c] : a) for (auto &[y, d] : b) { Raw w = x; w.insert(w.end(), y.begin(), y.end()); for (auto &[z, f] : word(w, c * d)) { o[z] += f; } }
            return tidy(o);
        }
        [[nodiscard]] Elem conj(const Elem &a) const { Elem o; for (auto &[x, c] : a) { for (auto &[z, f] : word(reversed(x), std::conj(c))) { o[z] += f; } } return tidy(o); }
        static Elem add(Elem a, const Elem &b, cd f = 1.0) { for (auto &[k, v] : b) { a[k] += f * v; } return tidy(a); }
        static Elem scale(Elem a, cd f) { for (auto &[k, v] : a) { v *= f; } return tidy(a); }

        /** canonical key of the moment of one canonical word, with the factor relating them */
        [[nodiscard]] const std::pair<std::pair<Raw, bool>, cd> &key(const Raw &w) const {
            auto it = keys->find(w); if (it == keys->end()) { it = keys->emplace(w, find_key(w)).first; } return it->second;
        }
        [[nodiscard]] const std::optional<std::pair<Raw, int>> &nf(const Raw &w) const {
            auto it = forms->find(w); if (it == forms->end()) { if (forms->size() > 2000000) { forms->clear(); } it = forms->emplace(w, reduce(w)).first; } return it->second;
        }
        struct RawHash { size_t operator()(const Raw &r) const noexcept { size_t h = 1469598103934665603ull; for (int x : r) { h = (h ^ size_t(x)) * 1099511628211ull; } return h ^ r.size(); } };
        std::shared_ptr<std::unordered_map<Raw, std::pair<std::pair<Raw, bool>, cd>, RawHash>> keys = std::make_shared<std::unordered_map<Raw, std::pair<std::pair<Raw, bool>, cd>, RawHash>>();
        std::shared_ptr<std::unordered_map<Raw, std::optional<std::pair<Raw, int>>, RawHash>> forms = std::make_shared<std::unordered_map<Raw, std::optional<std::pair<Raw, int>>, RawHash>>();
        [[nodiscard]] std::pair<std::pair<Raw, bool>, cd> find_key(const Raw &w) const {
            const Raw m = moment(w);
            const auto cj = nf(reversed(m));             // m* = i^ph cw
            const Raw cw = moment(cj->first); const cd ph = pref::iphase(cj->second);
            if (m < cw) { return {{m, false}, 1.0}; }
            if (m == cw) { return {{m, false}, 1.0}; }
            // representative is cw:  cw* = conj(ph)^-1... : m* = ph cw  =>  <m> = conj(ph) <cw>*
            return {{cw, true}, std::conj(ph)};
        }
        /** +1: Hermitian, -1: anti-Hermitian, 0: neither */
        [[nodiscard]] int hermiticity(const Raw &w) const {
            const Raw m = moment(w); const auto cj = nf(reversed(m)); if (moment(cj->first) != m) { return 0; }
            return cj->second == 0 ? 1 : cj->second == 2 ? -1 : 0;
        }
        [[nodiscard]] Expr expect(const Elem &e) const { Expr o; for (auto &[w, c] : e) { auto [k, f] = key(w); o[k] += c * f; } return tidy(o); }
        [[nodiscard]] Expr conj(const Expr &e) const {
            Expr o; for (auto &[k, c] : e) {
                const int h = hermiticity(k.first);
                if (h) { o[{k.first, false}] += std::conj(c) * double(h); } else { o[{k.first, !k.second}] += std::conj(c); }
            }
            return tidy(o);
        }
        // ---- reading the real objects ----
        [[nodiscard]] static Raw raw(const OperatorSequence &s) { Raw r; for (auto o : s) { r.push_back(o); } return r; }
        [[nodiscard]] static Elem elem(const OperatorSequence &s) { Elem e; if (!s.zero()) { e[raw(s)] = pref::iphase(int(s.get_sign())); } return e; }
        [[nodiscard]] static Elem elem(const RawPolynomial &p) { Elem e; for (auto &t : p) { for (auto &[w, c] : elem(t.sequence)) { e[w] += c * t.weight; } } return tidy(e); }
        [[nodiscard]] Expr expr(const SymbolTable &st, const Monomial &m) const {
            if (m.id == 0) { return {}; }
            const auto &s = st[m.id]; Elem e = elem(s.sequence());
            if (m.conjugated) { e = conj(e); }
            return expect(scale(e, m.factor));
        }
        [[nodiscard]] Expr expr(const SymbolTable &st, const Polynomial &p) const { Expr o; for (auto &m : p) { for (auto &[k, c] : expr(st, m)) { o[k] += c; } } return tidy(o); }
        [[nodiscard]] OperatorSequence seq(const Context &ctx, const Raw &w, int phase = 0) const { return lref::seq(ctx, w, phase); }

        /** all canonical non-zero words up to a length */
        [[nodiscard]] std::vector<Raw> canonical(size_t upto) const {
            std::vector<Raw> out; std::vector<Raw> last{{}}; out.push_back({});
            for (size_t L = 1; L <= upto; ++L) {
                std::vector<Raw> next;
                for (auto &w : last) for (int o = 0; o < ops; ++o) { Raw x = w; x.push_back(o); auto n = nf(x); if (n && n->first == x) { next.push_back(x); } }
                out.insert(out.end(), next.begin(), next.end()); last = next;
            }
            return out;
        }
    };

    // ---- the catalogue ----
    inline World locality(const lref::Layout &l, int level, int words) {
        auto m = std::make_shared<lref::Model>(l); World w; w.name = "locality" + m->text(); w.ops = int(m->ops.size()); w.level = level; w.words = words;
        w.make = [l] { return std::make_unique<Locality::LocalityMatrixSystem>(std::make_unique<Locality::LocalityContext>(lref::parties(l)), zero_tolerance()); };
        w.reduce = [m](const Raw &x) -> std::optional<std::pair<Raw, int>> { auto [n, ok] = m->nf(x); if (!ok) { return std::nullopt; } return std::pair{n, 0}; };
        return w;
    }
    inline World algebra(const aref::Alg &a, int level, int words) {
        auto m = std::make_shared<aref::Model>(a); World w; w.name = a.name; w.ops = m->n; w.level = level; w.words = words;
        w.make = [m] { return std::make_unique<Algebraic::AlgebraicMatrixSystem>(m->make(), zero_tolerance()); };
        w.reduce = [m](const Raw &x) { return m->nf(x); };
        w.reversed = [m](const Raw &x) { return m->reversed(x); };
        return w;
    }
    inline std::optional<std::pair<Raw, int>> pauli_nf(size_t n, const Raw &x) { auto e = pref::from_raw(n, x); return std::pair{pref::canonical_ops(e), e.phase}; }
    /** Pauli chain (height 1... sites) or lattice; moments identified by translations when symmetric */
    inline World pauli(int h, int w, bool lattice, bool wrap, bool sym, int level, int words) {
        const int n = h * w; World o; o.name = mc::cat(lattice ? mc::cat("lattice", h, "x", w) : mc::cat("pauli", n), wrap ? "-wrap" : "", sym ? "-sym" : "");
        o.ops = 3 * n; o.level = level; o.words = words; o.aliases = sym;
        o.make = [=]() -> std::unique_ptr<MatrixSystem> { using namespace Pauli;
            auto wt = wrap ? WrapType::Wrap : WrapType::None; auto st = sym ? SymmetryType::Translational : SymmetryType::None;
            return std::make_unique<PauliMatrixSystem>(lattice ? std::make_unique<PauliContext>(size_t(h), size_t(w), wt, st) : std::make_unique<PauliContext>(size_t(n), wt, st), zero_tolerance()); };
        o.reduce = [n](const Raw &x) { return pauli_nf(size_t(n), x); };
        if (sym) {
            o.moment = [=](const Raw &x) {
                Raw best; bool first = true;
                const int H = lattice ? h : n, W = lattice ? w : 1;
                auto consider = [&](int dr, int dc) {
                    Raw y; for (int op : x) { int q = op / 3, r = q % H, c = q / H; r += dr; c += dc; if (wrap) { r = (r + H) % H; c = (c + W) % W; } else if (r < 0 || r >= H || c < 0 || c >= W) { return; } y.push_back(3 * (c * H + r) + op % 3); }
                    std::sort(y.begin(), y.end());
                    if (first || y < best) { best = y; first = false; }
                };
                for (int dr = -H; dr <= H; ++dr) for (int dc = -W; dc <= W; ++dc) { if (wrap && (dr < 0 || dc < 0)) { continue; } consider(dr, dc); }
                return best;
            };
        }
        return o;
    }
    inline World inflation(const iref::Net &net, int lv, int level, int words) {
        auto m = std::make_shared<iref::Model>(net, lv); World w; w.name = mc::cat("inflation-", net.name, "-x", lv); w.ops = int(m->ops.size()); w.level = level; w.words = words; w.aliases = m->aliases();
        w.make = [net, lv] { return std::make_unique<Inflation::InflationMatrixSystem>(std::make_unique<Inflation::InflationContext>(iref::network(net), lv), zero_tolerance()); };
        w.reduce = [m](const Raw &x) -> std::optional<std::pair<Raw, int>> { auto [n, ok] = m->nf(x); if (!ok) { return std::nullopt; } return std::pair{n, 0}; };
        w.moment = [m](const Raw &x) { return m->canonical(x); };
        return w;
    }
    inline const iref::Net &net(const std::string &name) { static const auto all = iref::nets(); for (auto &n : all) { if (n.name == name) { return n; } } throw std::runtime_error("no such network"); }

    /** worlds whose objects are small enough for thorough enumeration */
    inline std::vector<World> catalogue(bool quick) {
        std::vector<World> out; const int x = quick ? 0 : 1;
        out.push_back(locality({{2, 2}, {2, 2}}, 1 + x, 2));
        out.push_back(locality({{2, 2}}, 2 + x, 3));
        out.push_back(locality({{3, 2}}, 1 + x, 2));
        out.push_back(locality({{2}, {2}, {3}}, 1 + x, 2));
        out.push_back(pauli(1, 1, false, false, false, 1, 2));
        out.push_back(pauli(2, 1, false, false, false, 1 + x, 2));
        out.push_back(pauli(3, 1, false, false, false, 1, 2));
        out.push_back(pauli(3, 1, false, true, true, 1 + x, 2));
        out.push_back(pauli(4, 1, false, false, true, 1, 2));
        out.push_back(pauli(2, 2, true, true, true, 1, 2));
        out.push_back(pauli(2, 2, true, false, true, 1, 2));
        for (auto &a : aref::algebras()) { const int n = aref::Model(a).n; out.push_back(algebra(a, n <= 2 ? 2 : 1, n <= 2 ? 3 : 2)); }
        for (auto &a : aref::signed_algebras()) { out.push_back(algebra(a, 1 + x, 3)); }
        out.push_back(inflation(net("bell"), 2, 1, 2));
        out.push_back(inflation(net("one-source"), 2, 2, 3));
        out.push_back(inflation(net("triangle"), 1, 1 + x, 2));
        out.push_back(inflation(net("chain3"), 2, 1, 2));
        out.push_back(inflation(net("generic"), 2, 1, 2));
        return out;
    }
}
