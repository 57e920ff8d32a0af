// P15: moments of inflated networks: relabelling of source copies, factors, tables of factors, and the numbering of copies.
#include "worlds.h"
#include "matrix_ref.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/inflation/factor_table.h"
#include "symbolic/polynomial_factory.h"

using namespace world; using mc::Ctx; using namespace Moment::Inflation;
namespace {
    using W = std::vector<int>;
    std::string text(const W &w) { return mc::show(w); }
    W raw(const OperatorSequence &s) { W r; for (auto o : s) { r.push_back(int(o)); } return r; }
    OperatorSequence seq(const Context &c, const W &w) { sequence_storage_t s; for (int o : w) { s.push_back(static_cast<oper_name_t>(o)); } return OperatorSequence{std::move(s), c}; }

    /** the copies of observables and sources, and their numbers, against the network description */
    void numbering(Ctx &c, const iref::Net &net, size_t infl) {
        const iref::Model m{net, int(infl)}; InflationContext ctx{iref::network(net), infl}; const auto key = mc::cat("numbering ", net.name); ++c.states;
        auto where = [&] { return mc::cat(net.name, " x", infl); };
        size_t implicit = 0; for (auto b : m.singleton) { implicit += b; }
        c.require(ctx.size() == m.ops.size() && ctx.source_variant_count() == infl * net.src.size() + implicit && ctx.Inflation() == infl && ctx.Observables().size() == net.obs.size() && ctx.Sources().size() == net.src.size() + implicit, key + " counts", where);
        c.require(ctx.can_have_aliases() == m.aliases(), key + " aliases", where);
        for (size_t s = 0; s < net.src.size(); ++s) { std::set<int> got; for (auto o : ctx.Sources()[s].observables) { got.insert(int(o)); } c.require(got == net.src[s] && !ctx.Sources()[s].implicit, key + " source", where); }
        size_t op = 0, global = 0;
        for (size_t o = 0; o < net.obs.size(); ++o) { auto &ob = ctx.Observables()[o]; size_t nops = net.obs[o] ? net.obs[o] - 1 : 1;
            std::set<int> src; for (auto s : ob.sources) { src.insert(int(s)); } std::set<int> want(m.sources_of[o].begin(), m.sources_of[o].end());
            if (!m.singleton[o]) { c.require(src == want, key + " sources of an observable", where); } c.require(ob.singleton == m.singleton[o] && ob.projective() == (net.obs[o] != 0) && ob.operators() == nops, key + " observable", where);
            for (int s = 0; s < int(ctx.Sources().size()); ++s) { c.require(ob.contains_source(static_cast<oper_name_t>(s)) == (src.count(s) > 0), key + " contains-source", where); }
            size_t variants = 1; for (size_t k = 0; k < m.sources_of[o].size(); ++k) { variants *= infl; }
            if (!c.require(ob.variant_count == oper_name_t(variants) && ob.variants.size() == variants, key + " copies", where)) { continue; }
            for (size_t v = 0; v < variants; ++v, ++global) { auto &vr = ob.variants[v]; ++c.transitions;
                std::vector<int> idx; for (auto i : vr.indices) { idx.push_back(int(i)); }
                if (!m.singleton[o]) { std::vector<int> own; size_t digits = v; for (size_t k = 0; k < m.sources_of[o].size(); ++k) { own.push_back(int(digits % infl)); digits /= infl; } c.require(idx == own, key + " indices of a copy", [&] { return mc::cat(where(), " observable ", o, " copy ", v, ": ", text(idx), " expected ", text(own)); }); c.require(&ob.variant(vr.indices) == &vr && ob.flatten_index(infl, vr.indices) == oper_name_t(v), key + " copy by indices", where); auto back = ob.unflatten_index(infl, oper_name_t(v)); c.require(std::equal(back.begin(), back.end(), vr.indices.begin(), vr.indices.end()), key + " unflatten", where); }
                c.require(size_t(vr.operator_offset) == op && size_t(vr.flat_index) == v, key + " offset of a copy", where);
                OVIndex ov{static_cast<oper_name_t>(o), static_cast<oper_name_t>(v)}; auto back = ctx.index_to_obs_variant(oper_name_t(global)); c.require(size_t(ctx.obs_variant_to_index(ov)) == global && size_t(back.observable) == o && size_t(back.variant) == v, key + " global number of a copy", where);
                for (size_t a = 0; a < nops; ++a, ++op) { c.require(size_t(ctx.operator_number(oper_name_t(o), oper_name_t(v), oper_name_t(a))) == op, key + " operator number", where); } } }
        c.require(ctx.observable_variant_count() == global, key + " number of copies", where);
        // sources that operators depend on
        auto links = [&](int a, int b) { return !m.factors({std::min(a, b), std::max(a, b)}).empty() && m.factors({std::min(a, b), std::max(a, b)}).size() == 1; };
        for (int a = 0; a < int(m.ops.size()); ++a) { for (int b = 0; b < int(m.ops.size()); ++b) { auto x = ctx.connected_sources(oper_name_t(a)); x &= ctx.connected_sources(oper_name_t(b)); bool together = !x.empty(); ++c.transitions;
            c.require(together == links(a, b), key + " shared sources", [&] { return mc::cat(where(), " operators ", a, " and ", b); });
            auto &A = ctx.Observables()[m.ops[a].obs].variants[m.ops[a].variant]; auto &B = ctx.Observables()[m.ops[b].obs].variants[m.ops[b].variant]; c.require(A.independent(B) == !links(a, b), key + " independent", [&] { return mc::cat(where(), " operators ", a, " and ", b); }); } }
        // outcomes of several copies as one number
        std::vector<OVIndex> all; for (size_t i = 0; i < global; ++i) { all.push_back(ctx.index_to_obs_variant(oper_name_t(i))); }
        for (size_t n = 1; n <= 2; ++n) { mc::each_word(all.size(), n, [&](auto &w) { std::vector<OVIndex> ovs; size_t total = 1; std::vector<size_t> base; for (auto x : w) { ovs.push_back(all[size_t(x)]); base.push_back(net.obs[size_t(all[size_t(x)].observable)]); total *= base.back(); }
            if (all.size() > 30 && n > 1 && w[0] > w[1]) { return; }
            for (size_t k = 0; k < total; ++k) { size_t r = k; std::vector<size_t> want(n); for (size_t i = n; i-- > 0;) { want[i] = r % base[i]; r /= base[i]; }
                auto got = ctx.unflatten_outcome_index(ovs, oper_name_t(k)); bool ok = got.size() == n; for (size_t i = 0; ok && i < n; ++i) { ok = size_t(got[i].outcome) == want[i] && got[i].observable_variant.observable == ovs[i].observable && got[i].observable_variant.variant == ovs[i].variant; } ++c.transitions;
                c.require(ok, key + " outcomes from number", [&] { return mc::cat(where(), " ", k); }); c.require(ok && ctx.flatten_outcome_index(got) == k, key + " number from outcomes", [&] { return mc::cat(where(), " ", k); }); } }); }
        if (infl && !net.obs.empty()) { auto refuses = [&](auto f) { try { (void)f(); return false; } catch (const std::exception &) { return true; } };
            for (oper_name_t extra : {oper_name_t(0), oper_name_t(1)}) { OVIndex bad{static_cast<oper_name_t>(net.obs.size() + extra), 0}; std::vector<OVIndex> list{bad}; std::vector<OVOIndex> lo{OVOIndex{bad, 0}}; c.require(refuses([&] { return ctx.unflatten_outcome_index(list, 0); }), key + " unknown observable accepted (unflatten)", [&] { return mc::cat(where(), " observable ", net.obs.size() + extra); }); c.require(refuses([&] { return ctx.flatten_outcome_index(lo); }), key + " unknown observable accepted", where); }
            std::vector<OVOIndex> v{OVOIndex{OVIndex{0, static_cast<oper_name_t>(ctx.Observables()[0].variant_count)}, 0}}, o{OVOIndex{OVIndex{0, 0}, static_cast<oper_name_t>(net.obs[0])}}; c.require(refuses([&] { return ctx.flatten_outcome_index(v); }), key + " unknown copy accepted", where); c.require(refuses([&] { return ctx.flatten_outcome_index(o); }), key + " unknown outcome accepted", where); }
    }

    /** every word up to a length: its canonical form, and its factors */
    void words(Ctx &c, const iref::Net &net, size_t infl, size_t length, size_t limit) {
        const iref::Model m{net, int(infl)}; InflationContext ctx{iref::network(net), infl}; const auto key = mc::cat(net.name, "-x", infl); size_t n = m.ops.size(); if (!n) { return; }
        while (length > 1) { double k = 1; for (size_t i = 0; i < length; ++i) { k = k * double(n + i) / double(i + 1); } if (k <= double(limit)) { break; } --length; }
        std::map<W, std::map<W, W>> orbits; // orbit -> canonical forms the library gives -> a word that gets it
        std::map<W, W> canon;
        W w; std::function<void(int)> rec = [&](int from) {
            if (auto [nf, ok] = m.nf(w); ok && nf == w) { ++c.states;
                W back(w.rbegin(), w.rend()); auto s = seq(ctx, back);
                if (!c.require(raw(s) == w && !s.zero(), key + " word", [&] { return mc::cat(text(back), " becomes ", text(raw(s))); })) { return; }
                auto can = raw(ctx.canonical_moment(s)); const auto rep = m.orbit_rep(w); ++c.traces;
                c.require(m.orbit_rep(can) == rep, key + " canonical word is no relabelling", [&] { return mc::cat(key, ": ", text(w), " becomes ", text(can)); });
                c.require(raw(ctx.canonical_moment(seq(ctx, can))) == can, key + " canonical word changes again", [&] { return mc::cat(key, ": ", text(can)); });
                c.require(ctx.can_be_simplified_as_moment(s) || can == w, key + " simplification not announced", [&] { return mc::cat(key, ": ", text(w), " becomes ", text(can)); });
                c.require(!ctx.can_be_simplified_as_moment(s) || m.aliases(), key + " simplification announced", [&] { return mc::cat(key, ": ", text(w)); });
                c.require(can == m.canonical(w), key + " canonical word", [&] { return mc::cat(key, ": ", text(w), " becomes ", text(can), ", expected ", text(m.canonical(w))); });
                if (m.factors(w).size() <= 1) { auto &o = orbits[rep]; o.emplace(can, w); } // connected: all relabellings are one moment
                std::vector<W> got; for (auto &f : ctx.factorize(s)) { got.push_back(raw(f)); c.require(int(f.get_sign()) == 0 && !f.zero(), key + " sign of a factor", [&] { return text(w); }); } std::sort(got.begin(), got.end()); auto want = m.factors(w); if (w.empty()) { want = {W{}}; }
                c.require(got == want, key + " factors", [&] { std::string t = mc::cat(key, ": ", text(w), " splits into"); for (auto &f : got) { t += " " + text(f); } t += ", expected"; for (auto &f : want) { t += " " + text(f); } return t; });
            } else if (!ok) { auto s = seq(ctx, w); c.require(s.zero(), key + " zero", [&] { return text(w); }); return; } // and so are all longer ones
            if (w.size() == length) { return; } for (int x = from; x < int(n); ++x) { w.push_back(x); rec(x); w.pop_back(); } };
        rec(0);
        for (auto &[rep, cans] : orbits) { if (cans.size() > 1) { c.fail(mc::cat(key, " duplicate ", text(rep)), [&] { std::string t = mc::cat(key, ": relabellings of ", text(rep), " get different moments:"); for (auto &[can, x] : cans) { t += mc::cat(" ", text(x), "->", text(can)); } return t; }()); } }
        c.count("orbits", orbits.size()); if (!orbits.empty()) { c.sample(mc::cat(key, ": ", orbits.size(), " orbits of words up to ", length)); }
    }

    /** the table of factors after histories of requests */
    void table(Ctx &c, const iref::Net &net, size_t infl, const std::vector<int> &history) {
        const iref::Model m{net, int(infl)}; InflationMatrixSystem sys{std::make_unique<InflationContext>(iref::network(net), infl)}; const auto key = mc::cat("table ", net.name, "-x", infl); auto &ctx = sys.InflationContext(); (void)ctx;
        if (m.ops.empty()) { return; }
        for (int h : history) { if (h < 10) { sys.generate_dictionary(size_t(h)); } else if (h < 20) { (void)sys.MomentMatrix.create(size_t(h - 10), Moment::Multithreading::MultiThreadPolicy::Never); } else { W x{int(m.ops.size()) - 1}; if (h > 20) { x.insert(x.begin(), 0); } (void)sys.LocalizingMatrix.create(LocalizingMatrixIndex{1, seq(sys.Context(), x)}, Moment::Multithreading::MultiThreadPolicy::Never); } }
        const auto &st = sys.Symbols(); const auto &f = sys.Factors(); auto what = [&] { return mc::cat(key, " after ", mc::show(history)); }; ++c.states;
        if (!c.require(f.size() == st.size() && !f.empty(), key + " size", [&] { return mc::cat(what(), ": ", f.size(), " entries for ", st.size(), " symbols"); })) { return; }
        std::map<std::multiset<W>, std::vector<symbol_name_t>> by; std::map<symbol_name_t, std::multiset<W>> parts; std::map<symbol_name_t, size_t> uses; std::map<symbol_name_t, std::vector<symbol_name_t>> lists;
        for (size_t i = 2; i < st.size(); ++i) { const auto &e = f[i]; ++c.transitions; if (!st[symbol_name_t(i)].has_sequence()) { continue; } const W w = raw(st[symbol_name_t(i)].sequence()); auto here = [&] { return mc::cat(what(), ": symbol ", i, " = ", text(w)); };
            c.require(e.id == symbol_name_t(i), key + " id", here); std::multiset<W> orb; for (auto &x : m.factors(w)) { orb.insert(m.orbit_rep(x)); }
            std::multiset<W> got_seq, got_sym; for (auto &s : e.canonical.sequences) { got_seq.insert(m.orbit_rep(raw(s))); c.require(raw(sys.InflationContext().canonical_moment(s)) == raw(s), key + " factor not canonical", here); } for (auto id : e.canonical.symbols) { if (!c.require(id >= 0 && size_t(id) < st.size() && st[id].has_sequence(), key + " symbol of a factor", here)) { return; } got_sym.insert(m.orbit_rep(raw(st[id].sequence()))); }
            auto list = [](const std::multiset<W> &x) { std::string t; for (auto &y : x) { t += text(y); } return t; };
            c.require(got_seq == orb, key + " words of factors", [&] { return here() + " lists " + list(got_seq) + " expected " + list(orb); }); c.require(got_sym == orb, key + " symbols of factors", [&] { return here() + " lists " + list(got_sym) + " expected " + list(orb); });
            c.require(std::is_sorted(e.canonical.symbols.begin(), e.canonical.symbols.end()), key + " order of factors", here); c.require(e.fundamental() == (orb.size() <= 1), key + " fundamental", here);
            auto idx = f.find_index_by_factors(std::span<const symbol_name_t>{e.canonical.symbols}); c.require(idx.has_value() && (*idx == symbol_name_t(i) || parts[*idx] == orb || (size_t(*idx) > i)), key + " found by factors", here);
            by[orb].push_back(symbol_name_t(i)); parts[symbol_name_t(i)] = orb; lists[symbol_name_t(i)] = e.canonical.symbols; if (e.canonical.symbols.size() > 1) { for (auto id : e.canonical.symbols) { ++uses[id]; } } }
        for (size_t i = 2; i < st.size(); ++i) { c.require(f[i].appearances == uses[symbol_name_t(i)], key + " appearances", [&] { return mc::cat(what(), ": symbol ", i, " counted ", f[i].appearances, " times, is a factor ", uses[symbol_name_t(i)], " times"); }); }
        c.require(f[0].canonical.symbols == std::vector<symbol_name_t>{0} && f[1].canonical.symbols == std::vector<symbol_name_t>{1}, key + " constants", what);
        // products
        auto orbit = [&](symbol_name_t a) { return parts.count(a) ? parts[a] : std::multiset<W>{}; };
        auto product = [&](std::vector<symbol_name_t> v) { std::string got; symbol_name_t r = -1; try { r = v.size() == 2 ? f.try_multiply(v[0], v[1]) : f.try_multiply(v); } catch (const Moment::Inflation::errors::unknown_symbol &) { } ++c.transitions;
            std::multiset<W> want; bool zero = false; for (auto x : v) { zero |= x == 0; for (auto &y : orbit(x)) { want.insert(y); } } auto here = [&] { return mc::cat(what(), ": product of ", mc::show(v), " is ", r); };
            if (v.size() == 2) { symbol_name_t again = -1; try { again = f.try_multiply(v); } catch (const Moment::Inflation::errors::unknown_symbol &) {} c.require(again == r, key + " product of a list differs", here); }
            if (zero) { c.require(r == 0, key + " product with zero", here); return; } if (want.empty()) { c.require(r == 1, key + " product of ones", here); return; }
            if (r < 0) { // allowed if there is none, or if only another of two symbols for one moment (a known defect) is listed
                auto it = by.find(want); if (it == by.end()) { return; } std::vector<symbol_name_t> ids; for (auto x : v) { if (x == 1) { continue; } for (auto y : lists[x]) { ids.push_back(y); } } std::sort(ids.begin(), ids.end()); bool listed = false; for (auto s : it->second) { listed |= lists[s] == ids; } c.require(!listed, key + " product not found", here); return; }
            c.require(r > 1 && orbit(r) == want, key + " wrong product", here); };
        const symbol_name_t top = std::min<symbol_name_t>(symbol_name_t(st.size()), 40);
        for (symbol_name_t a = 0; a < top; ++a) for (symbol_name_t b = 0; b < top; ++b) { product({a, b}); if (top <= 20) { for (symbol_name_t d = 0; d < top; ++d) { product({a, b, d}); } } }
        // products of polynomials
        const auto &pf = sys.polynomial_factory(); for (symbol_name_t a = 1; a < std::min<symbol_name_t>(top, 6); ++a) for (symbol_name_t b = 1; b < std::min<symbol_name_t>(top, 6); ++b) for (symbol_name_t d = 1; d < std::min<symbol_name_t>(top, 6); ++d) {
            auto mono = [&](symbol_name_t x, double z) { return Monomial{x, z}; }; Polynomial::storage_t ls, rs; ls.push_back(mono(a, 2.0)); if (b != a) { ls.push_back(mono(b, -1.0)); } rs.push_back(mono(d, 3.0)); if (d != 1) { rs.push_back(mono(1, 1.0)); } Polynomial l = pf(std::move(ls)), r = pf(std::move(rs)); ++c.transitions;
            std::map<symbol_name_t, double> want; bool known = true; for (auto &x : l) for (auto &y : r) { try { want[f.try_multiply(x.id, y.id)] += (x.factor * y.factor).real(); } catch (const Moment::Inflation::errors::unknown_symbol &) { known = false; } } for (auto it = want.begin(); it != want.end();) { if (it->second == 0) { it = want.erase(it); } else { ++it; } }
            std::map<symbol_name_t, double> got; bool ok = true; try { for (auto &x : f.try_multiply(pf, l, r)) { got[x.id] += x.factor.real(); } } catch (const Moment::Inflation::errors::unknown_symbol &) { ok = false; }
            c.require(ok == known && (!ok || got == want), key + " product of polynomials", [&] { return mc::cat(what(), ": ", a, " ", b, " times ", d); }); }
    }

    /** merging of lists of factors, all short sorted lists */
    void merging(Ctx &c, size_t length) {
        std::vector<std::vector<symbol_name_t>> lists; std::vector<symbol_name_t> l; std::function<void(symbol_name_t)> rec = [&](symbol_name_t from) { lists.push_back(l); if (l.size() == length) { return; } for (symbol_name_t x = from; x < 5; ++x) { l.push_back(x); rec(x); l.pop_back(); } }; rec(0);
        for (auto &a : lists) for (auto &b : lists) { ++c.states; auto got = FactorTable::combine_symbolic_factors(a, b); std::vector<symbol_name_t> want; bool zero = false; for (auto *v : {&a, &b}) for (auto x : *v) { zero |= x == 0; if (x > 1) { want.push_back(x); } } std::sort(want.begin(), want.end()); if (zero) { want = {0}; } else if (want.empty()) { want = {1}; }
            c.require(got == want, zero ? "merging with zero" : "merging", [&] { return mc::cat(mc::show(a), " and ", mc::show(b), " give ", mc::show(got), ", expected ", mc::show(want)); }); }
    }

    /** the factors of the word of all observables (and, if asked, of every set of them), in the network with one source along every edge */
    void graph(Ctx &c, const std::string &family, size_t n, const std::vector<std::pair<int, int>> &edges, bool subsets) {
        std::vector<std::set<oper_name_t>> src; for (auto [a, b] : edges) { src.push_back({oper_name_t(a), oper_name_t(b)}); }
        InflationContext ctx{CausalNetwork{std::vector<size_t>(n, 2), std::move(src)}, 1}; ++c.states;
        for (int set = subsets ? 1 : (1 << n) - 1; set < (1 << n); ++set) {
            W w; for (int k = 0; k < int(n); ++k) { if (set >> k & 1) { w.push_back(k); } }
            std::vector<int> comp(n); for (int k = 0; k < int(n); ++k) { comp[size_t(k)] = k; }
            for (bool more = true; more;) { more = false; for (auto [a, b] : edges) { if (!(set >> a & 1) || !(set >> b & 1)) { continue; } int &x = comp[size_t(a)], &y = comp[size_t(b)]; if (x != y) { x = y = std::min(x, y); more = true; } } }
            std::map<int, W> by; for (int x : w) { by[comp[size_t(x)]].push_back(x); } std::multiset<W> want, got; for (auto &[k, v] : by) { want.insert(v); }
            for (auto &f : ctx.factorize(seq(ctx, w))) { got.insert(raw(f)); } ++c.transitions;
            c.require(got == want, family + " factors", [&] { auto o = mc::cat("the word ", text(w), " with sources between"); for (auto [a, b] : edges) { o += mc::cat(" ", a, "-", b); } o += mc::cat(" gives ", got.size(), " factors instead of ", want.size(), ":"); for (auto &g : got) { o += " " + text(g); } return o; });
        }
    }
    /** every network of two-party sources on n observables */
    void graphs(Ctx &c, size_t n, size_t slice, size_t slices) {
        std::vector<std::pair<int, int>> all; for (int a = 0; a < int(n); ++a) { for (int b = a + 1; b < int(n); ++b) { all.emplace_back(a, b); } }
        for (size_t bits = slice; bits < (size_t(1) << all.size()); bits += slices) { std::vector<std::pair<int, int>> e; for (size_t k = 0; k < all.size(); ++k) { if (bits >> k & 1) { e.push_back(all[k]); } } graph(c, mc::cat("graph-", n), n, e, n <= 5); }
    }
    /** every tree on n observables, and every way of cutting one of its sources */
    void trees(Ctx &c, size_t n, size_t slice, size_t slices) {
        size_t total = 1; for (size_t k = 0; k + 2 < n; ++k) { total *= n; }
        for (size_t code = slice; code < total; code += slices) {
            std::vector<size_t> pr; size_t r = code; for (size_t k = 0; k + 2 < n; ++k) { pr.push_back(r % n); r /= n; }
            std::vector<int> deg(n, 1); for (auto x : pr) { ++deg[x]; } std::vector<std::pair<int, int>> e;
            for (auto x : pr) { for (size_t l = 0; l < n; ++l) { if (deg[l] == 1) { e.emplace_back(int(l), int(x)); --deg[l]; --deg[x]; break; } } }
            std::vector<int> rest; for (size_t l = 0; l < n; ++l) { if (deg[l] == 1) { rest.push_back(int(l)); } } e.emplace_back(rest[0], rest[1]);
            graph(c, mc::cat("tree-", n), n, e, false);
            for (size_t cut = 0; cut < e.size(); ++cut) { auto f = e; f.erase(f.begin() + long(cut)); graph(c, mc::cat("tree-", n), n, f, false); }
        }
    }

    /** all networks of up to so many observables and sources */
    std::vector<iref::Net> networks(size_t observables, size_t sources, size_t outcomes) {
        std::vector<iref::Net> out; for (size_t o = 1; o <= observables; ++o) { std::vector<std::set<int>> subsets; for (int b = 1; b < (1 << o); ++b) { std::set<int> s; for (int i = 0; i < int(o); ++i) { if (b >> i & 1) { s.insert(i); } } subsets.push_back(s); }
            std::vector<std::set<int>> src; std::function<void(size_t)> rec = [&](size_t from) { std::string name = mc::cat("net", outcomes, "^", o); for (auto &s : src) { name += ":"; for (int x : s) { name += std::to_string(x); } } out.push_back({name, std::vector<size_t>(o, outcomes), src}); if (src.size() == sources) { return; } for (size_t i = from; i < subsets.size(); ++i) { src.push_back(subsets[i]); rec(i); src.pop_back(); } }; rec(0); }
        return out; }
}

namespace mc {
    void register_cases(Registry &reg) {
        const bool q = reg.quick(); auto all = iref::nets();
        for (auto &n : networks(3, q ? 2 : 3, 2)) { all.push_back(n); } for (auto &n : networks(2, 2, 0)) { all.push_back(n); } for (auto &n : networks(2, 2, 3)) { all.push_back(n); }
        reg.add("merging lists of factors", [=](Ctx &c) { merging(c, c.quick() ? 3 : 4); });
        for (size_t n = 1; n <= 5; ++n) { reg.add(mc::cat("graphs-", n), [n](Ctx &c) { graphs(c, n, 0, 1); }); }
        for (size_t s = 0; s < 4; ++s) { reg.add(mc::cat("graphs-6-", s), [s](Ctx &c) { graphs(c, 6, s, 4); }, 600); reg.add(mc::cat("trees-", s), [s](Ctx &c) { trees(c, c.quick() ? 7 : 8, s, 4); }, 900); }
        for (auto &net : all) {
            reg.add("numbering " + net.name, [=](Ctx &c) { for (size_t i = 1; i <= 3; ++i) { if (iref::Model(net, int(i)).ops.size() <= 200) { numbering(c, net, i); } } });
            for (size_t i = 1; i <= 3; ++i) { if (iref::Model(net, int(i)).ops.size() > 60) { continue; } reg.add(mc::cat("words ", net.name, "-x", i), [=](Ctx &c) { words(c, net, i, c.quick() ? 4 : 5, c.quick() ? 3000 : 100000); }, 1200); }
            for (size_t i = 1; i <= 2; ++i) { if (iref::Model(net, int(i)).ops.size() > 12) { continue; } reg.add(mc::cat("table ", net.name, "-x", i), [=](Ctx &c) {
                const std::vector<int> ops{1, 2, 3, 10, 11, 20, 21}; for (size_t l = 0; l <= (c.quick() ? 2u : 3u); ++l) { mc::each_word(ops.size(), l, [&](auto &w) { std::vector<int> h; for (auto x : w) { h.push_back(ops[size_t(x)]); } table(c, net, i, h); }); } }, 1200); }
        }
    }
}
