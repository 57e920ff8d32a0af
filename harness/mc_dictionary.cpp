// P04: word lists are complete, duplicate-free, ordered, and independent of the order of requests.
#include "mc.h"
#include "algebra_ref.h"
#include "locality_ref.h"
#include "inflation_ref.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/context.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_osg.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/inflation/inflation_context.h"
#include <algorithm>
#include <memory>

using namespace Moment;
using Raw = std::vector<int>;

namespace {
    Raw raw_of(const OperatorSequence &s) { Raw r; for (auto o : s) { r.push_back(o); } return r; }

    /** Independent description of one scenario: which words are canonical, and what conjugation does. */
    struct Family {
        std::string name;
        std::function<std::unique_ptr<Context>()> make;
        std::function<bool(const Raw &)> canonical;                 // non-zero normal form?
        std::function<std::pair<Raw, int>(const Raw &)> conj;       // conjugate (word, phase)
        bool has_conj_list = true;
        size_t max_level = 3;
    };

    void check_list(mc::Ctx &c, const Family &f, const Context &ctx, const OperatorSequenceGenerator &osg, const std::set<Raw> &expect, const std::string &what) {
        const std::string key = mc::cat(f.name, " ", what);
        std::set<Raw> got; size_t prev = 0; bool ordered = true, clean = true;
        for (size_t i = 0; i < osg.size(); ++i) {
            const auto &s = osg[i];
            c.require(got.insert(raw_of(s)).second, key + " repeated", [&] { return mc::cat("word ", mc::show(raw_of(s)), " occurs twice (position ", i, ")"); });
            if (s.size() < prev) { ordered = false; } prev = s.size();
            if (s.zero() || s.get_sign() != SequenceSignType::Positive || s.hash() != ctx.the_hasher()(s.raw()) || !s.is_same_context(ctx)) { clean = false; }
        }
        c.require(osg.size() > 0 && osg[0].empty() && !osg[0].zero(), key + " identity-first", [&] { return "first word is not the identity"; });
        c.require(ordered, key + " order", [&] { return "a shorter word comes after a longer one"; });
        c.require(clean, key + " clean", [&] { return "a listed word is zero, signed, mis-hashed or belongs elsewhere"; });
        for (auto &w : expect) { c.require(got.contains(w), key + " missing", [&] { return mc::cat("word ", mc::show(w), " is missing"); }); }
        for (auto &w : got) { c.require(expect.contains(w), key + " extra", [&] { return mc::cat("word ", mc::show(w), " should not be listed"); }); }
        c.states += osg.size();
    }

    void check_conj(mc::Ctx &c, const Family &f, const OperatorSequenceGenerator &fwd, const OperatorSequenceGenerator &cj, const std::string &what) {
        c.require(fwd.size() == cj.size(), mc::cat(f.name, " ", what, " conj-size"), [&] { return mc::cat(fwd.size(), " vs ", cj.size()); });
        for (size_t i = 0; i < std::min(fwd.size(), cj.size()); ++i) {
            const auto [w, ph] = f.conj(raw_of(fwd[i]));
            c.require(raw_of(cj[i]) == w && int(cj[i].get_sign()) == ph, mc::cat(f.name, " ", what, " conj"), [&] {
                return mc::cat("conjugate list at ", i, " holds ", mc::show(raw_of(cj[i])), " sign ", int(cj[i].get_sign()), ", expected ", mc::show(w), " sign ", ph); });
        }
    }

    void family(mc::Ctx &c, const Family &f) {
        // all words up to the level, filtered by the reference
        std::vector<std::set<Raw>> expect(f.max_level + 1);
        size_t ops = f.make()->size();
        for (size_t L = 0; L <= f.max_level; ++L) {
            if (L) { expect[L] = expect[L - 1]; }
            mc::each_word(ops, L, [&](const Raw &w) { if (f.canonical(w)) { expect[L].insert(w); } });
        }
        // every order of requesting every level, with a repeat at the end; earlier references are kept and re-read
        std::vector<size_t> order; for (size_t L = 0; L <= f.max_level; ++L) { order.push_back(L); }
        do {
            auto ctx = f.make();
            c.step("%s order %s", f.name.c_str(), mc::show(order).c_str());
            std::vector<std::pair<size_t, const OperatorSequenceGenerator *>> held;
            std::vector<std::pair<size_t, const OSGPair *>> pairs;
            for (size_t L : order) {
                held.emplace_back(L, &ctx->operator_sequence_generator(L));
                pairs.emplace_back(L, &ctx->dictionary().Level(L));
                const auto &again = ctx->dictionary()(L);
                c.require(&again == pairs.back().second && &again() == held.back().second, mc::cat(f.name, " stable"), [&] { return mc::cat("asking level ", L, " twice gave different lists, order ", mc::show(order)); });
                c.require(ctx->dictionary().WordCount(L) == expect[L].size(), mc::cat(f.name, " WordCount ", L), [&] { return mc::cat(ctx->dictionary().WordCount(L)); });
                ++c.traces;
            }
            for (size_t k = 0; k < held.size(); ++k) {
                const size_t L = held[k].first;
                c.require(&(*pairs[k].second)() == held[k].second, mc::cat(f.name, " reference"), [&] { return mc::cat("reference to level ", L, " went stale, order ", mc::show(order)); });
                check_list(c, f, *ctx, *held[k].second, expect[L], mc::cat("level ", L));
                c.require(pairs[k].second->self_adjoint() == !ctx->can_be_nonhermitian(), mc::cat(f.name, " self_adjoint"), [&] { return "pair"; });
                check_conj(c, f, *held[k].second, pairs[k].second->conjugate(), mc::cat("level ", L));
                check_conj(c, f, *held[k].second, ctx->operator_sequence_generator(L, true), mc::cat("level ", L, " via context"));
            }
            for (auto &[l1, o1] : held) for (auto &[l2, o2] : held) if (l1 < l2) {
                bool prefix = o1->size() <= o2->size();
                for (size_t i = 0; prefix && i < o1->size(); ++i) { prefix = raw_of((*o1)[i]) == raw_of((*o2)[i]); }
                c.require(prefix, mc::cat(f.name, " prefix"), [&] { return mc::cat("level ", l1, " is not a prefix of level ", l2); });
            }
        } while (std::next_permutation(order.begin(), order.end()));
        // get_if_canonical agrees with the list membership
        auto ctx = f.make();
        mc::each_word_upto(ops, f.max_level, [&](const Raw &w) {
            sequence_storage_t raw; for (int o : w) { raw.emplace_back(static_cast<oper_name_t>(o)); }
            auto got = ctx->get_if_canonical(raw);
            c.require(got.has_value() == f.canonical(w), mc::cat(f.name, " get_if_canonical"), [&] { return mc::cat(mc::show(w), " has_value ", got.has_value()); });
            if (got) { c.require(raw_of(*got) == w && got->hash() == ctx->the_hasher()(raw), mc::cat(f.name, " get_if_canonical-word"), [&] { return mc::show(w); }); }
        });
        c.sample(mc::cat(f.name, ": levels 0..", f.max_level, " with ", expect.back().size(), " words, all orders of request"));
    }

    // ---- Pauli restricted lists --------------------------------------------------------------------------------
    /** site sets that count as "neighbouring", straight from the definition */
    std::set<std::set<int>> neighbour_sets(int h, int w, bool lattice, bool wrap, int k, int max_sites) {
        std::set<std::set<int>> out; const int n = h * w;
        out.insert(std::set<int>{}); for (int i = 0; i < n && max_sites >= 1; ++i) { out.insert({i}); }
        if (!lattice) {
            // runs whose successive gaps are between 1 and k
            std::function<void(int, int, std::vector<int>)> rec = [&](int first, int total, std::vector<int> cur) {
                if (cur.size() >= 2) { out.insert(std::set<int>(cur.begin(), cur.end())); }
                if (int(cur.size()) == max_sites) { return; }
                for (int g = 1; g <= k; ++g) {
                    if (total + g >= n) { break; }
                    if (!wrap && first + total + g >= n) { break; }
                    auto nx = cur; nx.push_back((first + total + g) % n); rec(first, total + g, nx);
                }
            };
            if (max_sites >= 2) { for (int f = 0; f < n; ++f) { rec(f, 0, {f}); } }
            return out;
        }
        using Pt = std::pair<int, int>;   // (row, col)
        std::vector<std::vector<Pt>> shapes;
        if (max_sites >= 2) { shapes.push_back({{0, 0}, {1, 0}}); shapes.push_back({{0, 0}, {0, 1}}); }
        if (max_sites >= 3) {
            shapes.push_back({{0, 0}, {1, 0}, {2, 0}}); shapes.push_back({{0, 0}, {0, 1}, {0, 2}});
            for (int skip = 0; skip < 4; ++skip) { std::vector<Pt> s; for (int i = 0; i < 4; ++i) { if (i != skip) { s.push_back({i / 2, i % 2}); } } shapes.push_back(s); }
        }
        if (max_sites >= 4) { shapes.push_back({{0, 0}, {1, 0}, {0, 1}, {1, 1}}); }
        for (auto &s : shapes) for (int r = 0; r < h; ++r) for (int cc = 0; cc < w; ++cc) {
            std::set<int> sites; bool ok = true;
            for (auto [dr, dc] : s) {
                int rr = r + dr, c2 = cc + dc;
                if (wrap) { if (dr >= h || dc >= w) { ok = false; } rr %= h; c2 %= w; } else if (rr >= h || c2 >= w) { ok = false; }
                sites.insert(c2 * h + rr);
            }
            if (ok && sites.size() == s.size()) { out.insert(sites); }
        }
        return out;
    }

    void pauli_nn(mc::Ctx &c, int h, int w, bool lattice, bool wrap, bool sym, int k, int max_level) {
        const int n = h * w;
        auto mk = [&] { using namespace Pauli;
            auto wt = wrap ? WrapType::Wrap : WrapType::None; auto st = sym ? SymmetryType::Translational : SymmetryType::None;
            return lattice ? std::make_unique<PauliContext>(size_t(h), size_t(w), wt, st) : std::make_unique<PauliContext>(size_t(n), wt, st); };
        Family f; f.name = mc::cat(lattice ? mc::cat("lattice ", h, "x", w) : mc::cat("chain ", n), wrap ? " wrap" : "", sym ? " sym" : "", " k=", k);
        c.step("%s level %d", f.name.c_str(), max_level);
        std::vector<std::set<Raw>> expect(max_level + 1);
        for (int L = 0; L <= max_level; ++L) {
            for (auto &sites : neighbour_sets(h, w, lattice, wrap, k, L)) {
                std::vector<int> sv(sites.begin(), sites.end());
                mc::each_word(3, sv.size(), [&](const Raw &p) { Raw word; for (size_t i = 0; i < sv.size(); ++i) { word.push_back(3 * sv[i] + p[i]); } expect[L].insert(word); });
            }
        }
        // every order of asking for restricted and full lists of two levels, on one context
        std::vector<std::pair<int, int>> req; for (int L = std::max(0, max_level - 1); L <= max_level; ++L) { req.push_back({L, k}); }
        req.push_back({1, 0}); if (k > 1) { req.push_back({max_level, k - 1}); }
        std::sort(req.begin(), req.end());
        do {
            auto ctx = mk(); ++c.traces;
            std::vector<const OSGPair *> held;
            for (auto [L, nb] : req) { held.push_back(&ctx->pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{size_t(L), size_t(nb)})); }
            for (size_t i = 0; i < req.size(); ++i) {
                auto [L, nb] = req[i];
                const auto &again = ctx->pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{size_t(L), size_t(nb)});
                c.require(&again == held[i], mc::cat(f.name, " stable"), [&] { return mc::cat("level ", L, " neighbours ", nb, " asked twice gave another list"); });
                if (nb == k) {
                    check_list(c, f, *ctx, (*held[i])(), expect[L], mc::cat("nn level ", L));
                    c.require(ctx->pauli_dictionary().WordCount(Pauli::NearestNeighbourIndex{size_t(L), size_t(nb)}) == expect[L].size(), mc::cat(f.name, " WordCount"), [&] { return "count"; });
                    c.require(&held[i]->conjugate() == &(*held[i])(), mc::cat(f.name, " conjugate"), [&] { return "Pauli words are Hermitian, so the list is its own conjugate"; });
                }
                if (nb == 0) { c.require((*held[i])().size() == size_t(L == 0 ? 1 : 1 + 3 * n), mc::cat(f.name, " glass"), [&] { return mc::cat((*held[i])().size()); }); }
            }
        } while (std::next_permutation(req.begin(), req.end()));
    }

    // ---- algebraic ---------------------------------------------------------------------------------------------
    Family alg_family(const aref::Alg &a, size_t level) {
        auto m = std::make_shared<aref::Model>(a);
        Family f; f.name = a.name; f.max_level = level;
        f.make = [m] { return m->make(); };
        f.canonical = [m](const Raw &w) { return m->canonical(w); };
        f.conj = [m](const Raw &w) { return m->nf(m->reversed(w)).value_or(std::pair<Raw, int>{}); };
        return f;
    }
}

void mc::register_cases(mc::Registry &reg) {
    const bool q = reg.quick();
    // operator-only contexts
    reg.add("generic", [](Ctx &c) {
        for (size_t n = 0; n <= 3; ++n) {
            Family f; f.name = mc::cat("generic", n); f.make = [n] { return std::make_unique<Context>(n); }; f.canonical = [](const Raw &) { return true; };
            f.conj = [](const Raw &w) { return std::pair<Raw, int>{Raw(w.rbegin(), w.rend()), 0}; }; f.max_level = c.bound<size_t>(4, n == 3 ? 5 : 6); family(c, f);
        }
    }, 600);
    for (int mm = 0; mm < 3; ++mm) reg.add(cat("locality-", mm), [mm](Ctx &c) {
        int idx = 0;
        lref::each_layout(3, 2, 3, 1, c.bound(4, 5), [&](const lref::Layout &l) {
            if (idx++ % 3 != mm) { return; }
            auto m = std::make_shared<lref::Model>(l);
            Family f; f.name = "locality" + m->text(); f.make = [l] { return std::make_unique<Locality::LocalityContext>(lref::parties(l)); };
            f.canonical = [m](const Raw &w) { auto [x, ok] = m->nf(w); return ok && x == w; };
            f.conj = [m](const Raw &w) { return std::pair<Raw, int>{m->nf(Raw(w.rbegin(), w.rend())).first, 0}; };
            f.max_level = m->ops.size() <= 2 ? c.bound<size_t>(4, 6) : m->ops.size() == 3 ? 4 : c.bound<size_t>(3, 4);
            family(c, f);
        });
    }, 1800);
    reg.add("algebraic", [](Ctx &c) { for (auto &a : aref::algebras()) { auto f = alg_family(a, c.bound<size_t>(4, 5)); if (f.make()->size() >= 4) { f.max_level = 3; } family(c, f); } }, 900);
    reg.add("inflation", [](Ctx &c) {
        for (auto &n : iref::nets()) for (int lv = 1; lv <= c.bound(2, 3); ++lv) {
            auto m = std::make_shared<iref::Model>(n, lv); if (m->ops.size() > 24) { continue; }
            Family f; f.name = cat("inflation ", n.name, " x", lv); f.make = [n, lv] { return std::make_unique<Inflation::InflationContext>(iref::network(n), lv); };
            f.canonical = [m](const Raw &w) { auto [x, ok] = m->nf(w); return ok && x == w; };
            f.conj = [](const Raw &w) { return std::pair<Raw, int>{w, 0}; };
            f.max_level = m->ops.size() <= 6 ? 4 : m->ops.size() <= 12 ? 3 : 2;
            family(c, f);
        }
    }, 900);
    reg.add("pauli-full", [](Ctx &c) {
        for (size_t n = 1; n <= 4; ++n) for (int wrap = 0; wrap < 2; ++wrap) {
            Family f; f.name = cat("pauli", n, wrap ? "wrap" : ""); f.make = [n, wrap] { return std::make_unique<Pauli::PauliContext>(n, wrap ? Pauli::WrapType::Wrap : Pauli::WrapType::None); };
            f.canonical = [](const Raw &w) { for (size_t i = 1; i < w.size(); ++i) { if (w[i] / 3 <= w[i - 1] / 3) { return false; } } return true; };
            f.conj = [](const Raw &w) { return std::pair<Raw, int>{w, 0}; };
            f.max_level = n <= 2 ? 4 : n == 3 ? c.bound<size_t>(3, 4) : c.bound<size_t>(2, 4); family(c, f);
        }
        for (size_t n : {5, 6, 7}) { // counts and membership for larger chains
            Pauli::PauliContext ctx{n};
            for (size_t L = 0; L <= c.bound<size_t>(4, 7); ++L) {
                const auto &osg = ctx.operator_sequence_generator(L); std::set<Raw> seen; bool ok = true;
                for (auto &s : osg) { auto r = raw_of(s); seen.insert(r); for (size_t i = 1; i < r.size(); ++i) { ok = ok && r[i] / 3 > r[i - 1] / 3; } ok = ok && r.size() <= L; }
                size_t want = 0, binom = 1, p3 = 1; for (size_t k = 0; k <= std::min(L, n); ++k) { want += binom * p3; binom = binom * (n - k) / (k + 1); p3 *= 3; }
                c.states += osg.size();
                c.require(ok && seen.size() == want && osg.size() == want, cat("pauli", n, " level ", L, " count"), [&] { return cat("got ", osg.size(), " distinct ", seen.size(), " want ", want); });
            }
        }
    }, 900);
    for (int wrap = 0; wrap < 2; ++wrap) for (int sym = 0; sym < 2; ++sym) {
        reg.add(cat("pauli-chain-nn", wrap ? "-wrap" : "", sym ? "-sym" : ""), [=](Ctx &c) {
            for (int n = 1; n <= c.bound(7, 9); ++n) for (int k = 1; k <= 3; ++k) for (int L = 0; L <= c.bound(4, 5); ++L) { pauli_nn(c, n, 1, false, wrap, sym, k, L); }
        }, 1800);
        reg.add(cat("pauli-lattice-nn", wrap ? "-wrap" : "", sym ? "-sym" : ""), [=](Ctx &c) {
            const int S = c.bound(4, 6);
            for (int h = 1; h <= S; ++h) for (int w = 1; w <= S; ++w) for (int L = 0; L <= 4; ++L) { pauli_nn(c, h, w, true, wrap, sym, 1, L); }
            for (auto [h, w] : {std::pair{6, 3}, {3, 6}, {2, 7}, {7, 2}, {5, 3}, {3, 5}, {8, 5}, {11, 6}, {6, 11}, {12, 6}}) { pauli_nn(c, h, w, true, wrap, sym, 1, 4); }
        }, 1800);
    }
    (void) q;
}
