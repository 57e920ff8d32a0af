// P01: locality words reduce to the right canonical form.
#include "mc.h"
#include "locality_ref.h"
#include <algorithm>

using namespace Moment;
using namespace Moment::Locality;
using lref::Model; using lref::Layout;

namespace {
    void layout_maps(mc::Ctx &c, const Model &m, const LocalityContext &ctx) {
        auto T = m.text();
        c.require(ctx.size() == m.ops.size() && ctx.Parties.size() == m.layout.size(), "size " + T, [&] { return T; });
        size_t gm = 0;
        std::vector<size_t> outs;
        for (size_t p = 0; p < m.layout.size(); ++p) {
            const auto &party = ctx.Parties[p];
            size_t n = 0;
            c.require(party.id() == p, "party-id " + T, [&] { return T; });
            for (size_t k = 0; k < m.layout[p].size(); ++k) {
                outs.push_back(m.layout[p][k]);
                c.require(ctx.get_global_mmt_index(p, k) == gm, "global-mmt " + T, [&] { return mc::cat(p, ",", k, " -> ", ctx.get_global_mmt_index(p, k)); });
                auto pm = ctx.global_index_to_PM(gm);
                c.require(pm.party == p && pm.mmt == k && size_t(pm.global_mmt) == gm, "global-to-pm " + T, [&] { return mc::cat(gm, " -> ", pm.party, ",", pm.mmt); });
                for (int o = 0; o + 1 < m.layout[p][k]; ++o) {
                    auto op = party.measurement_outcome(k, o);
                    c.require(op == m.op(p, k, o), "operator-number " + T, [&] { return mc::cat(p, k, o, " -> ", op); });
                    c.require(&ctx.associated_party(op) == &party, "operator-party " + T, [&] { return mc::cat(op); });
                    c.require(&party.measurement_of(op) == &party.Measurements[k], "operator-mmt " + T, [&] { return mc::cat(op); });
                    ++n;
                }
                ++gm;
            }
            c.require(party.size() == n && ctx.operators_per_party()[p] == n && ctx.measurements_per_party()[p] == m.layout[p].size(), "party-counts " + T, [&] { return T; });
            std::vector<oper_name_t> mine(party.begin(), party.end()), want;
            for (size_t i = 0; i < m.ops.size(); ++i) { if (m.ops[i].party == int(p)) { want.push_back(i); } }
            c.require(mine == want, "party-operators " + T, [&] { return mc::show(mine); });
            for (auto x : want) for (auto y : want) {
                bool ex = x != y && m.ops[x].mmt == m.ops[y].mmt;
                c.require(party.mutually_exclusive(x, y) == ex, "exclusive " + T, [&] { return mc::cat(x, ",", y); });
            }
        }
        c.require(ctx.measurement_count() == gm && ctx.outcomes_per_measurement() == outs, "mmt-counts " + T, [&] { return T; });
    }

    void words(mc::Ctx &c, const Layout &lay, size_t len, bool pairs) {
        Model m{lay};
        LocalityContext ctx{lref::parties(lay)};
        auto T = m.text();
        layout_maps(c, m, ctx);
        std::map<std::vector<int>, OperatorSequence> canon;
        std::set<std::vector<int>> seen; bool seen_zero = false;
        mc::each_word_upto(m.ops.size(), len, [&](const std::vector<int> &w) {
            for (int ph = 0; ph < 4; ph += (w.size() > 3 ? 3 : 1)) {
                auto where = [&] { return mc::cat(T, " i^", ph, " ", mc::show(w)); };
                c.step("%s", where().c_str()); ++c.traces;
                auto nf = m.nf(w);
                auto s = lref::seq(ctx, w, ph);
                if (nf.second) { seen.insert(nf.first); if (ph == 0) { canon.emplace(nf.first, s); } } else { seen_zero = true; }
                c.require(lref::same(ctx, nf, ph, s), "reduce " + where(), [&] { return mc::cat("want ", nf.second ? mc::show(nf.first) : "0", " got ", s.zero() ? "0" : mc::show(s.raw())); });
                if (!s.zero()) {
                    OperatorSequence again{s.raw(), ctx, s.get_sign()};
                    c.require(again == s && again.raw() == s.raw(), "idempotent " + where(), where);
                }
                // conjugate = reduction of the reversed word with conjugated phase
                std::vector<int> rev(w.rbegin(), w.rend());
                c.require(lref::same(ctx, m.nf(rev), 4 - ph, s.conjugate()), "conjugate " + where(), [&] { return mc::cat(s.conjugate().formatted_string()); });
                auto nfr = m.nf(rev);
                HermitianType ht = !nf.second ? HermitianType::Zero : nf.first != nfr.first ? HermitianType::NotHermitian : (ph & 1) ? HermitianType::AntiHermitian : HermitianType::Hermitian;
                c.require(s.hermitian_type() == ht, "hermitian " + where(), [&] { return mc::cat("got ", int(s.hermitian_type()), " want ", int(ht)); });
                // one letter at a time
                OperatorSequence inc{sequence_storage_t{}, ctx, static_cast<SequenceSignType>(ph)};
                for (int o : w) { inc.append({static_cast<oper_name_t>(o)}); }
                c.require(lref::same(ctx, nf, ph, inc), "append " + where(), [&] { return mc::cat("appended letter by letter: ", inc.zero() ? "0" : mc::show(inc.raw()), " expected ", nf.second ? mc::show(nf.first) : "0"); });
                for (size_t cut = 0; cut <= w.size(); ++cut) {
                    auto l = lref::seq(ctx, std::vector<int>(w.begin(), w.begin() + cut), ph), r = lref::seq(ctx, std::vector<int>(w.begin() + cut, w.end()), 1);
                    auto p = l * r;
                    c.require(lref::same(ctx, nf, ph + 1, p), mc::cat("product ", where(), " cut ", cut), [&] { return p.formatted_string(); });
                    l *= r;
                    c.require(lref::same(ctx, nf, ph + 1, l), mc::cat("product-assign ", where(), " cut ", cut), [&] { return l.formatted_string(); });
                }
                c.require(lref::same(ctx, nf, ph + 2, -s), "negate " + where(), [&] { return (-s).formatted_string(); });
                c.require(lref::same(ctx, nf, ph + 2, -OperatorSequence{s}), "negate-rvalue " + where(), where);
            }
        });
        if (pairs) {
            // distinct canonical words are distinct elements, and products of canonical words agree with the model
            for (auto &[a, A] : canon) for (auto &[b, B] : canon) {
                c.require((A == B) == (a == b) && (A.hash() == B.hash()) == (a == b), mc::cat("distinct ", T, mc::show(a), mc::show(b)), [&] { return "equality"; });
                auto ab = a; ab.insert(ab.end(), b.begin(), b.end());
                c.require(lref::same(ctx, m.nf(ab), 0, A * B), mc::cat("pair ", T, mc::show(a), mc::show(b)), [&] { return (A * B).formatted_string(); });
                if (A.zero() || B.zero()) { continue; }
            }
            auto z = ctx.zero();
            for (auto &[a, A] : canon) {
                c.require((z * A).zero() && (A * z).zero(), "zero-product " + T, [&] { return mc::show(a); });
                c.require(lref::same(ctx, m.nf(a), 0, ctx.identity() * A) && lref::same(ctx, m.nf(a), 0, A * ctx.identity()), "identity-product " + T, [&] { return mc::show(a); });
            }
        }
        c.states += seen.size() + seen_zero;
        if (seen_zero) { c.count("layouts_with_zero_words"); }
        c.count("layouts");
        c.sample(mc::cat("layout ", T, " words up to length ", len, ": ", seen.size(), " canonical"));
    }

    /** words much longer than any letter count the sorting or storage code treats specially */
    void periodic(mc::Ctx &c, const Layout &lay, size_t period, size_t to) {
        Model m{lay}; LocalityContext ctx{lref::parties(lay)};
        mc::each_periodic(m.ops.size(), period, 15, to, [&](const std::vector<int> &w) {
            c.step("periodic %s", mc::show(w).c_str());
            const auto nf = m.nf(w); auto s = lref::seq(ctx, w, 0); ++c.traces;
            c.require(lref::same(ctx, nf, 0, s), "reduce-periodic " + m.text(), [&] { return mc::cat(mc::show(w), " want ", nf.second ? mc::show(nf.first) : "0", " got ", s.zero() ? "0" : mc::show(s.raw())); });
            const std::vector<int> rev(w.rbegin(), w.rend());
            c.require(lref::same(ctx, m.nf(rev), 0, s.conjugate()), "conjugate-periodic " + m.text(), [&] { return mc::show(w); });
        });
    }

    size_t depth_for(size_t ops, bool thorough) {
        // longest word length with a bounded number of words
        static const size_t q[] = {1, 9, 8, 6, 5, 4, 4, 3, 3, 3}, t[] = {1, 12, 10, 7, 6, 5, 5, 4, 4, 4};
        return ops < 10 ? (thorough ? t[ops] : q[ops]) : 2;
    }
}

void mc::register_cases(mc::Registry &reg) {
    std::vector<Layout> all;
    lref::each_layout(3, 2, 3, 1, reg.quick() ? 4 : 5, [&](const Layout &l) { all.push_back(l); });
    const size_t shards = 32;
    for (size_t s = 0; s < shards; ++s) {
        reg.add(cat("layouts-", s), [all, s, shards](Ctx &c) {
            for (size_t i = s; i < all.size(); i += shards) {
                size_t n = Model(all[i]).ops.size();
                // many layouts share the same operator structure: full depth for those without trivial pieces
                bool plain = true; for (auto &p : all[i]) { if (p.empty()) { plain = false; } for (int m : p) { if (m == 1) { plain = false; } } }
                size_t d = depth_for(n, !c.quick());
                words(c, all[i], plain ? d : std::min<size_t>(d, 3), plain);
            }
        }, 1500);
    }
    // larger, irregular layouts
    std::vector<Layout> big = {{{4, 2}, {3}}, {{2, 2, 2}, {2, 3}}, {{5}, {2, 2}}, {{2, 3, 2}}, {{2}, {2}, {2}, {2}}, {{3, 3}, {3, 3}}, {{2, 2}, {2, 2}, {2, 2}}, {{2, 2, 2, 2}}, {{3, 4, 2}, {2}}, {{2, 2}, {}, {1, 2}, {3}}};
    for (size_t i = 0; i < big.size(); ++i) { auto l = big[i]; reg.add(cat("big-", i), [l](Ctx &c) { words(c, l, depth_for(Model(l).ops.size(), !c.quick()), true); }, 1500); }
    // long words over two operators (inline storage exceeded)
    reg.add("long-2x1", [](Ctx &c) { words(c, {{2}, {2}}, c.bound(10, 13), true); }, 900);
    reg.add("long-1x2", [](Ctx &c) { words(c, {{2, 2}}, c.bound(10, 13), true); }, 900);
    for (auto &l : std::vector<Layout>{{{2, 2}, {2, 2}}, {{2, 2}, {2, 2}, {2, 2}}, {{3, 2}, {2}}, {{2, 2, 2}, {2, 2, 2}}}) { reg.add(cat("periodic-", Model(l).text()), [l](Ctx &c) { periodic(c, l, c.bound(3, 4), c.bound(36, 70)); }, 900); }
}
