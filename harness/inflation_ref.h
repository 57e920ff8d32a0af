// Reference model of inflation scenarios, recomputed from the network description alone.
#pragma once
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <vector>
#include "scenarios/inflation/causal_network.h"
#include "scenarios/inflation/inflation_context.h"

namespace iref {
    using namespace Moment;
    /** outcomes per observable (0 = generic moment variable); sources = sets of observables */
    struct Net { std::string name; std::vector<size_t> obs; std::vector<std::set<int>> src; };
    struct Op { int obs; std::vector<int> idx; int variant; int out; bool projective; };

    struct Model {
        Net net; int infl;
        std::vector<Op> ops; std::vector<std::vector<int>> sources_of;
        std::vector<bool> singleton;
        Model(Net n, int level) : net{std::move(n)}, infl{level} {
            const int O = int(net.obs.size());
            sources_of.resize(O); singleton.assign(O, false);
            for (int s = 0; s < int(net.src.size()); ++s) { for (int o : net.src[s]) { sources_of[o].push_back(s); } }
            for (int o = 0; o < O; ++o) {
                singleton[o] = sources_of[o].empty();
                int variants = 1; for (size_t k = 0; k < sources_of[o].size(); ++k) { variants *= infl; }
                for (int v = 0; v < variants; ++v) {
                    std::vector<int> idx; int x = v; for (size_t k = 0; k < sources_of[o].size(); ++k) { idx.push_back(x % infl); x /= infl; } // first source is the fastest digit
                    const int nops = net.obs[o] == 0 ? 1 : int(net.obs[o]) - 1;
                    for (int a = 0; a < nops; ++a) { ops.push_back({o, idx, v, a, net.obs[o] != 0}); }
                }
            }
        }
        [[nodiscard]] bool aliases() const { return infl > 1 && !net.src.empty(); }
        [[nodiscard]] int op_of(int o, const std::vector<int> &idx, int out) const {
            for (size_t i = 0; i < ops.size(); ++i) { if (ops[i].obs == o && ops[i].idx == idx && ops[i].out == out) { return int(i); } } return -1;
        }
        /** sorted normal form; false = zero */
        template<class V> std::pair<std::vector<int>, bool> nf(const V &w) const {
            std::vector<int> s; for (auto x : w) { s.push_back(int(x)); }
            std::sort(s.begin(), s.end());
            std::vector<int> out;
            for (int x : s) {
                if (!out.empty()) {
                    const Op &l = ops[out.back()], &r = ops[x];
                    if (l.obs == r.obs && l.variant == r.variant) {
                        if (l.out != r.out) { return {{}, false}; }
                        if (l.projective) { continue; }
                    }
                }
                out.push_back(x);
            }
            return {out, true};
        }
        /** apply perm[source][copy] -> copy to a word */
        [[nodiscard]] std::vector<int> permute(const std::vector<int> &w, const std::vector<std::vector<int>> &perm) const {
            std::vector<int> out;
            for (int x : w) {
                auto idx = ops[x].idx;
                for (size_t k = 0; k < idx.size(); ++k) { idx[k] = perm[sources_of[ops[x].obs][k]][idx[k]]; }
                out.push_back(op_of(ops[x].obs, idx, ops[x].out));
            }
            std::sort(out.begin(), out.end());
            return out;
        }
        void each_perm(const std::function<void(const std::vector<std::vector<int>> &)> &f) const {
            std::vector<int> id; for (int i = 0; i < infl; ++i) { id.push_back(i); }
            std::vector<std::vector<int>> all; auto p = id; do { all.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
            std::vector<std::vector<int>> cur(net.src.size());
            std::function<void(size_t)> rec = [&](size_t s) { if (s == net.src.size()) { f(cur); return; } for (auto &q : all) { cur[s] = q; rec(s + 1); } };
            rec(0);
        }
        /** the least word in the orbit under permutations of source copies */
        [[nodiscard]] std::vector<int> orbit_rep(const std::vector<int> &w) const {
            std::vector<int> best = w; if (!aliases()) { return best; }
            each_perm([&](const auto &p) { auto x = permute(w, p); if (x < best) { best = x; } });
            return best;
        }
        /** the word the library is to use: its connected components, in order of appearance, each as small as can be (components are told apart by their order) */
        [[nodiscard]] std::vector<int> canonical(const std::vector<int> &w) const {
            if (!aliases() || w.empty()) { return w; } const auto fs = factors(w); std::vector<std::vector<int>> best; 
            each_perm([&](const auto &p) { std::vector<std::vector<int>> x; for (auto &f : fs) { x.push_back(permute(f, p)); } if (best.empty() || x < best) { best = x; } });
            std::vector<int> out; for (auto &f : best) { out.insert(out.end(), f.begin(), f.end()); } std::sort(out.begin(), out.end()); return out;
        }
        /** connected components of a word (operators linked by shared source copies), each as a sorted word */
        [[nodiscard]] std::vector<std::vector<int>> factors(const std::vector<int> &w) const {
            const size_t n = w.size(); std::vector<int> comp(n); for (size_t i = 0; i < n; ++i) { comp[i] = int(i); }
            auto linked = [&](int a, int b) {
                const Op &l = ops[a], &r = ops[b];
                if (l.obs == r.obs && l.variant == r.variant) { return true; }
                for (size_t i = 0; i < l.idx.size(); ++i) for (size_t j = 0; j < r.idx.size(); ++j) if (sources_of[l.obs][i] == sources_of[r.obs][j] && l.idx[i] == r.idx[j]) { return true; }
                return false;
            };
            for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (comp[i] < comp[j] && linked(w[i], w[j])) { comp[j] = comp[i]; ch = true; } }
            std::map<int, std::vector<int>> by; for (size_t i = 0; i < n; ++i) { by[comp[i]].push_back(w[i]); }
            std::vector<std::vector<int>> out; for (auto &[k, v] : by) { std::sort(v.begin(), v.end()); out.push_back(v); }
            std::sort(out.begin(), out.end());
            return out;
        }
    };
    inline Inflation::CausalNetwork network(const Net &n) {
        std::vector<std::set<oper_name_t>> src; for (auto &s : n.src) { std::set<oper_name_t> x; for (int o : s) { x.insert(static_cast<oper_name_t>(o)); } src.push_back(x); }
        return Inflation::CausalNetwork{n.obs, std::move(src)};
    }
    inline std::vector<Net> nets() {
        return { {"single", {2}, {}}, {"pair-free", {2, 2}, {}}, {"one-source", {2}, {{0}}}, {"bell", {2, 2}, {{0, 1}}}, {"bell3", {3, 2}, {{0, 1}}}, {"chain3", {2, 2, 2}, {{0, 1}, {1, 2}}},
                 {"triangle", {2, 2, 2}, {{0, 1}, {1, 2}, {0, 2}}}, {"triangle-mixed", {3, 2, 0}, {{0, 1}, {1, 2}, {0, 2}}}, {"generic", {0, 0}, {{0, 1}}}, {"generic-free", {0, 2}, {{1}}},
                 {"two-source", {2}, {{0}, {0}}}, {"two-source-pair", {2, 2}, {{0, 1}, {0, 1}}}, {"tripartite", {2, 2, 2}, {{0, 1, 2}}}, {"empty-source", {2, 2}, {{0}, {}, {0, 1}}}, {"one-outcome", {1, 2}, {{0, 1}}},
                 {"free-and-linked", {2, 2, 2}, {{0, 2}}}, {"generic-only-free", {0}, {}} };
    }
}
