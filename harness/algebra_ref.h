// Reference model of algebraic scenarios: a hand-written confluent rule list applied naively.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <vector>
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"

namespace aref {
    using namespace Moment;
    using Raw = std::vector<int>;
    using Mode = Algebraic::AlgebraicPrecontext::ConjugateMode;
    constexpr int ZERO = 9;
    struct Alg { std::string name; int ops; Mode mode; bool commute; bool normal; std::vector<std::tuple<Raw, Raw, int>> rules; };

    inline std::vector<Alg> algebras() {
        using M = Mode;
        std::vector<Alg> out;
        out.push_back({"free2", 2, M::SelfAdjoint, false, true, {}});
        out.push_back({"free1", 1, M::SelfAdjoint, false, true, {}});
        out.push_back({"bunched1", 1, M::Bunched, false, false, {}});
        out.push_back({"bunched2", 2, M::Bunched, false, false, {}});
        out.push_back({"interleaved2", 2, M::Interleaved, false, false, {}});
        out.push_back({"normal-bunched2", 2, M::Bunched, false, true, {}});
        out.push_back({"normal-interleaved2", 2, M::Interleaved, false, true, {}});
        out.push_back({"commuting3", 3, M::SelfAdjoint, true, true, {}});
        out.push_back({"commuting-bunched", 1, M::Bunched, true, false, {}});
        out.push_back({"projectors", 2, M::SelfAdjoint, false, true, {{{0, 0}, {0}, 0}, {{1, 1}, {1}, 0}}});
        out.push_back({"involutions", 2, M::SelfAdjoint, false, true, {{{0, 0}, {}, 0}, {{1, 1}, {}, 0}}});
        out.push_back({"anticommuting", 2, M::SelfAdjoint, false, true, {{{0, 0}, {}, 0}, {{1, 1}, {}, 0}, {{1, 0}, {0, 1}, 2}}});
        out.push_back({"nilpotent", 2, M::SelfAdjoint, false, true, {{{0, 0}, {}, ZERO}, {{1, 0, 1}, {1}, 0}}});
        out.push_back({"cubic", 1, M::SelfAdjoint, false, true, {{{0, 0, 0}, {0}, 0}}});
        out.push_back({"fermion", 1, M::Bunched, false, false, {{{0, 0}, {}, ZERO}, {{1, 1}, {}, ZERO}}});
        out.push_back({"commuting-projectors", 2, M::SelfAdjoint, true, true, {{{0, 0}, {0}, 0}, {{1, 1}, {1}, 0}}});
        return out;
    }
    /** scenarios in which conjugating a word can bring out a sign */
    inline std::vector<Alg> signed_algebras() {
        std::vector<Alg> out;
        out.push_back({"anticommuting+free", 3, Mode::SelfAdjoint, false, true, {{{0, 0}, {}, 0}, {{1, 1}, {}, 0}, {{1, 0}, {0, 1}, 2}}});
        return out;
    }

    struct Model {
        Alg a; int n;
        std::vector<std::tuple<Raw, Raw, int>> rules;
        explicit Model(Alg alg) : a{std::move(alg)}, n{a.mode == Mode::SelfAdjoint ? a.ops : 2 * a.ops}, rules{a.rules} {
            if (a.commute) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { rules.push_back({{i, j}, {j, i}, 0}); } }
            else if (a.normal && a.mode != Mode::SelfAdjoint) { for (int i = 0; i < n; ++i) if (star(i) < i) { rules.push_back({{i, star(i)}, {star(i), i}, 0}); } }
        }
        [[nodiscard]] int star(int o) const { return a.mode == Mode::SelfAdjoint ? o : a.mode == Mode::Bunched ? (o + a.ops) % n : (o ^ 1); }
        [[nodiscard]] std::pair<int, const std::tuple<Raw, Raw, int> *> find(const Raw &w) const {
            for (auto &r : rules) { auto it = std::search(w.begin(), w.end(), std::get<0>(r).begin(), std::get<0>(r).end()); if (it != w.end()) { return {int(it - w.begin()), &r}; } }
            return {-1, nullptr};
        }
        [[nodiscard]] bool canonical(const Raw &w) const { return find(w).first < 0; }
        /** normal form with phase; nothing for zero */
        [[nodiscard]] std::optional<std::pair<Raw, int>> nf(Raw r) const {
            int ph = 0;
            for (auto [pos, rule] = find(r); pos >= 0; std::tie(pos, rule) = find(r)) {
                const auto &[l, rr, s] = *rule; if (s == ZERO) { return std::nullopt; }
                ph = (ph + s) & 3; Raw nw(r.begin(), r.begin() + pos); nw.insert(nw.end(), rr.begin(), rr.end()); nw.insert(nw.end(), r.begin() + pos + int(l.size()), r.end()); r = nw;
            }
            return std::pair{r, ph};
        }
        [[nodiscard]] Raw reversed(const Raw &w) const { Raw r(w.rbegin(), w.rend()); for (int &o : r) { o = star(o); } return r; }
        [[nodiscard]] std::unique_ptr<Algebraic::AlgebraicContext> make() const {
            using namespace Algebraic;
            AlgebraicPrecontext apc{static_cast<oper_name_t>(a.ops), a.mode}; std::vector<OperatorRule> rs;
            auto hs = [&](const Raw &w, SequenceSignType s = SequenceSignType::Positive) { sequence_storage_t r; for (int o : w) { r.emplace_back(static_cast<oper_name_t>(o)); } return HashedSequence{std::move(r), apc.hasher, s}; };
            for (auto &[l, r, s] : a.rules) { rs.emplace_back(hs(l), s == ZERO ? HashedSequence{true} : hs(r, static_cast<SequenceSignType>(s))); }
            return std::make_unique<AlgebraicContext>(apc, a.commute, a.normal, rs);
        }
    };
}
