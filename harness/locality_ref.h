// Reference model of locality scenarios: layout[party][measurement] = outcomes.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include "dictionary/operator_sequence.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/party.h"
#include "scenarios/locality/measurement.h"

namespace lref {
    using namespace Moment;
    using Layout = std::vector<std::vector<int>>;
    struct Op { int party, mmt, out; };

    struct Model {
        Layout layout; std::vector<Op> ops;
        explicit Model(Layout l) : layout{std::move(l)} {
            for (size_t p = 0; p < layout.size(); ++p) for (size_t m = 0; m < layout[p].size(); ++m) for (int o = 0; o + 1 < layout[p][m]; ++o) { ops.push_back({int(p), int(m), o}); }
        }
        [[nodiscard]] int op(int p, int m, int o) const { for (size_t i = 0; i < ops.size(); ++i) { if (ops[i].party == p && ops[i].mmt == m && ops[i].out == o) { return int(i); } } return -1; }
        /** normal form; second = false means zero */
        template<class V> std::pair<std::vector<int>, bool> nf(const V &w) const {
            std::vector<int> out;
            for (size_t p = 0; p < layout.size(); ++p) {
                std::vector<int> mine;
                for (auto o : w) {
                    if (ops[o].party != int(p)) { continue; }
                    if (!mine.empty()) {
                        if (mine.back() == o) { continue; }
                        if (ops[mine.back()].mmt == ops[o].mmt) { return {{}, false}; }
                    }
                    mine.push_back(int(o));
                }
                out.insert(out.end(), mine.begin(), mine.end());
            }
            return {out, true};
        }
        [[nodiscard]] std::string text() const {
            std::string s;
            for (auto &p : layout) { s += "("; for (int m : p) { s += std::to_string(m) + ","; } s += ")"; }
            return s;
        }
    };
    inline std::vector<Locality::Party> parties(const Layout &l) {
        std::vector<Locality::Party> out;
        for (size_t p = 0; p < l.size(); ++p) {
            std::vector<Locality::Measurement> ms;
            for (size_t m = 0; m < l[p].size(); ++m) { ms.emplace_back(std::string(1, char('a' + m)), static_cast<oper_name_t>(l[p][m])); }
            out.emplace_back(static_cast<party_name_t>(p), std::string(1, char('A' + p)), std::move(ms));
        }
        return out;
    }
    template<class V> OperatorSequence seq(const Context &c, const V &w, int phase = 0) {
        sequence_storage_t raw; for (auto o : w) { raw.emplace_back(static_cast<oper_name_t>(o)); }
        return OperatorSequence{std::move(raw), c, static_cast<SequenceSignType>(phase & 3)};
    }
    inline bool same(const Context &ctx, const std::pair<std::vector<int>, bool> &nf, int phase, const OperatorSequence &s) {
        if (!nf.second) { return s.zero() && s.empty() && s.hash() == 0; }
        if (s.zero() || s.size() != nf.first.size() || int(s.get_sign()) != (phase & 3)) { return false; }
        for (size_t i = 0; i < s.size(); ++i) { if (s[i] != nf.first[i]) { return false; } }
        return s.hash() == ctx.the_hasher()(s.raw());
    }
    /** every layout with the given limits (parties in order), at most max_ops operators */
    inline void each_layout(int max_parties, int max_mmts, int max_out, int min_out, int max_ops, const std::function<void(const Layout &)> &f) {
        std::vector<std::vector<int>> party_shapes;
        std::function<void(std::vector<int>, int)> shapes = [&](std::vector<int> cur, int left) {
            party_shapes.push_back(cur);
            if (left == 0) { return; }
            for (int o = min_out; o <= max_out; ++o) { auto n = cur; n.push_back(o); shapes(n, left - 1); }
        };
        shapes({}, max_mmts);
        std::function<void(Layout, int)> rec = [&](Layout cur, int left) {
            if (Model(cur).ops.size() > size_t(max_ops)) { return; }
            if (!cur.empty()) { f(cur); }
            if (left == 0) { return; }
            for (auto &s : party_shapes) { auto n = cur; n.push_back(s); rec(n, left - 1); }
        };
        rec({}, max_parties);
    }
}
