// P16: matrices extended by scalar moments, and suggestions for extensions, against products of factors in the reference.
#include "extended.h"
#include "matrix_system/matrix_system_errors.h"
#include "symbolic/polynomial_factory.h"

using namespace Moment; using mc::Ctx; using Policy = Moment::Multithreading::MultiThreadPolicy;
using Moment::Inflation::ExtendedMatrixIndex; using Moment::Inflation::InflationContext;
namespace {
    using namespace ext;
    using List = std::vector<symbol_name_t>;

    struct Run {
        iref::Model m; std::string key, hist; std::unique_ptr<System> sys;
        std::map<std::pair<size_t, List>, const SymbolicMatrix *> known; std::map<const SymbolicMatrix *, std::string> before;
        Run(const iref::Net &net, size_t infl) : m{net, int(infl)}, key{mc::cat(net.name, "-x", infl)}, hist{key}, sys{std::make_unique<System>(std::make_unique<InflationContext>(iref::network(net), infl))} { }

        std::vector<W> generators(size_t level) const { std::vector<W> g; for (auto &s : sys->Context().operator_sequence_generator(level)) { g.push_back(raw(s)); } return g; }
        const SymbolicMatrix &moment(size_t level) { auto [ix, mat] = sys->MomentMatrix.create(level, Policy::Never); remember(mat); return mat; }
        void remember(const SymbolicMatrix &x) { before.emplace(&x, picture(m, *sys, x)); }

        void check_table(Ctx &c) {
            const auto &st = sys->Symbols(); const auto &f = sys->Factors();
            if (!c.require(st.size() == f.size(), key + " table", [&] { return mc::cat(hist, ": ", f.size(), " factor lists for ", st.size(), " symbols"); })) { return; }
            std::map<Parts, size_t> unnamed;
            for (size_t i = 2; i < st.size(); ++i) {
                const auto id = symbol_name_t(i); const auto &e = f[i]; auto here = [&] { return mc::cat(hist, ": symbol ", i, " ", text(parts(m, *sys, id)), " factors ", mc::show(std::vector<int>(e.canonical.symbols.begin(), e.canonical.symbols.end()))); };
                c.require(e.id == id && std::is_sorted(e.canonical.symbols.begin(), e.canonical.symbols.end()), key + " factor list", here);
                Parts by_words, by_symbols; for (auto &s : e.canonical.sequences) { by_words.insert(m.orbit_rep(raw(s))); }
                for (auto y : e.canonical.symbols) { if (!c.require(y > 1 && size_t(y) < st.size() && st[y].has_sequence() && f[size_t(y)].fundamental(), key + " factor", here)) { return; } by_symbols.insert(m.orbit_rep(raw(st[y].sequence()))); }
                const auto want = parts(m, *sys, id); c.require(by_words == want && by_symbols == want, key + " factors of symbol", [&] { return mc::cat(here(), " words ", text(by_words), " symbols ", text(by_symbols)); });
                c.require(st[id].is_hermitian() && !st[id].is_antihermitian(), key + " products are real", here);
                if (!st[id].has_sequence()) { ++unnamed[want]; c.require(unnamed[want] == 1, key + " two symbols for one product", here); }
                const auto ix = f.find_index_by_factors(std::span<const symbol_name_t>{e.canonical.symbols}); c.require(ix.has_value() && parts(m, *sys, *ix) == want, key + " found by factors", here);
            }
        }
        /** make (or ask again for) an extended matrix, and look at everything; -1: refused */
        void extend(Ctx &c, size_t level, const List &e, int how, bool bases) {
            hist += mc::cat(", extend ", level, " by ", mc::show(std::vector<int>(e.begin(), e.end()))); c.step(hist); ++c.states; ++c.traces;
            (void)moment(level); const bool valid = std::all_of(e.begin(), e.end(), [&](auto x) { return x >= 0 && size_t(x) < sys->Symbols().size(); });
            const auto was = symbols(m, *sys); const size_t matrices = sys->size();
            const SymbolicMatrix *got = nullptr; ptrdiff_t at = -1; std::string msg;
            try {
                if (how == 0) { auto [ix, mat] = sys->ExtendedMatrices.create(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{e}}, Policy::Never); got = &mat; at = ix; }
                else { auto [ix, mat] = sys->ExtendedMatrices.create(ExtendedMatrixIndex{level, List{e}}, Policy::Never); got = &mat; at = ix; }
            } catch (const std::exception &x) { msg = x.what(); }
            if (!c.require((got != nullptr) == valid, key + (valid ? " extension refused" : " unknown extension accepted"), [&] { return hist + " " + msg; })) { return; }
            if (!got) { c.require(symbols(m, *sys) == was && sys->size() == matrices, key + " refused extension leaves traces", [&] { return hist; }); return; }
            const auto [it, fresh] = known.emplace(std::pair{level, e}, got); c.require(it->second == got && &sys->get(size_t(at)) == got, key + " made twice", [&] { return hist; });
            c.require(sys->ExtendedMatrices.contains(ExtendedMatrixIndex{level, std::span<const symbol_name_t>{e}}) && sys->ExtendedMatrices.find_index(ExtendedMatrixIndex{level, List{e}}) == at, key + " found again", [&] { return hist; });
            const auto &mm = moment(level); const auto gens = generators(level); const size_t n = gens.size(), k = e.size();
            if (!c.require(mm.Dimension() == n && got->Dimension() == n + k, key + " dimension", [&] { return mc::cat(hist, ": ", got->Dimension(), ", expected ", n + k); })) { return; }
            const auto &x = dynamic_cast<const MonomialMatrix &>(*got), &src = dynamic_cast<const MonomialMatrix &>(mm);
            auto scalar = [&](size_t i) { return i < n ? parts(m, gens[i]) : parts(m, *sys, e[i - n]); };
            bool ok = true;
            for (size_t i = 0; i < n + k && ok; ++i) for (size_t j = 0; j < n + k && ok; ++j) {
                const auto &z = x.SymbolMatrix(i, j); ++c.transitions; auto here = [&] { return mc::cat(hist, ": (", i, ",", j, ") is ", z.factor, "*", text(parts(m, *sys, z.id)), " (symbol ", z.id, ")"); };
                if (i < n && j < n) { const auto &o = src.SymbolMatrix(i, j); ok = c.require(z.id == o.id && z.factor == o.factor && z.conjugated == o.conjugated, key + " leading block", here); continue; }
                const auto want = product(scalar(i), scalar(j)); ok = c.require(z.id >= 0 && size_t(z.id) < sys->Symbols().size() && z.factor == (z.id == 0 ? z.factor : 1.0) && !z.conjugated && parts(m, *sys, z.id) == want, key + " entry", [&] { return mc::cat(here(), ", expected ", text(want)); });
                ok = ok && c.require(x.SymbolMatrix(j, i).id == z.id, key + " symmetry", here);
            }
            mref::check_self(c, *got, key + " matrix", hist, bases);
            check_table(c); for (auto &[p, t] : before) { c.require(picture(m, *sys, *p) == t, key + " earlier matrix changed", [&] { return hist; }); } remember(*got);
        }
        void suggest(Ctx &c, size_t level) {
            const auto &mm = dynamic_cast<const MonomialMatrix &>(moment(level)); const auto s = sys->suggest_extensions(mm); ++c.states; ++c.traces;
            std::set<symbol_name_t> allowed; for (auto id : mm.IncludedSymbols()) { const auto &f = sys->Factors()[size_t(id)]; if (!f.fundamental()) { allowed.insert(f.canonical.symbols.begin(), f.canonical.symbols.end()); } }
            for (auto x : s) { c.require(allowed.contains(x) && x > 1, key + " suggestion is no factor", [&] { return mc::cat(hist, ": ", x, " suggested for level ", level); }); }
            // each suggestion is of use: with some generator it gives a product that is in the matrix
            for (auto x : s) { bool use = false; for (auto &g : generators(level)) { const auto p = product(parts(m, g), parts(m, *sys, x)); for (auto id : mm.IncludedSymbols()) { use |= !sys->Factors()[size_t(id)].fundamental() && parts(m, *sys, id) == p; } } c.require(use, key + " suggestion is of no use", [&] { return mc::cat(hist, ": ", x); }); }
            c.count("suggestions", s.size());
            hist += mc::cat(", suggestions for ", level); const std::set<symbol_name_t> again = sys->suggest_extensions(mm); c.require(again == s, key + " suggestion changes", [&] { return hist; });
            extend(c, level, List(s.begin(), s.end()), 1, false);
        }
    };

    std::vector<symbol_name_t> candidates(const Run &r, size_t most) { std::vector<symbol_name_t> o; const size_t n = r.sys->Symbols().size(); for (size_t i = 0; i < n && o.size() < most; ++i) { o.push_back(symbol_name_t(i)); } if (n > most) { for (size_t k = 0; k < most / 3; ++k) { o[o.size() - 1 - k] = symbol_name_t(n - 1 - k); } } return o; }
    void each_list(const List &alpha, size_t len, const std::function<void(const List &)> &f) { for (size_t l = 0; l <= len; ++l) { mc::each_word(alpha.size(), l, [&](auto &w) { List e; for (auto x : w) { e.push_back(alpha[size_t(x)]); } f(e); }); } }

    void lists(Ctx &c, const iref::Net &net, size_t infl, size_t level, size_t prior, size_t most, size_t len) {
        if (iref::Model(net, int(infl)).ops.empty()) { return; }
        List alpha; { Run r{net, infl}; (void)r.moment(level); if (prior) { (void)r.moment(prior); } alpha = candidates(r, most); alpha.push_back(symbol_name_t(r.sys->Symbols().size())); alpha.push_back(-1); }
        each_list(alpha, len, [&](const List &e) { if (e.size() > 1 && std::any_of(e.begin(), e.end() - 1, [&](auto x) { return x == -1; })) { return; } Run r{net, infl}; if (prior) { (void)r.moment(prior); r.hist += mc::cat(" moments ", prior); } r.extend(c, level, e, int(e.size() % 2), e.size() <= 1); });
    }
    /** several extended matrices, suggestions, and larger moment matrices in one system */
    void histories(Ctx &c, const iref::Net &net, size_t infl, size_t length, size_t most) {
        if (iref::Model(net, int(infl)).ops.empty()) { return; }
        List alpha; { Run r{net, infl}; (void)r.moment(1); alpha = candidates(r, most); }
        std::vector<std::pair<int, List>> acts{{-1, {}}, {-2, {}}, {-3, {}}, {-4, {}}, {1, {}}}; for (auto x : alpha) { if (x > 1) { acts.push_back({1, {x}}); } } if (alpha.size() > 3) { acts.push_back({1, {alpha[3], alpha[2]}}); acts.push_back({1, {2, 2}}); acts.push_back({0, {alpha[2], alpha.back()}}); } acts.push_back({9, {}});
        for (size_t l = 1; l <= length; ++l) { mc::each_word(acts.size(), l, [&](auto &w) {
            Run r{net, infl}; (void)r.moment(1);
            for (auto x : w) { const auto &[what, e] = acts[size_t(x)];
                if (what == -1) { (void)r.moment(2); r.hist += ", moments 2"; } else if (what == -2) { r.suggest(c, 1); } else if (what == -3) { r.sys->generate_dictionary(3); r.hist += ", words 3"; r.check_table(c); } else if (what == -4) { r.suggest(c, 0); }
                else if (what == 9) { r.extend(c, 1, {symbol_name_t(r.sys->Symbols().size() - 1)}, 0, false); } // the newest symbol, perhaps made by an extension
                else { r.extend(c, size_t(what), e, 1, false); } }
        }); }
    }
}

namespace mc {
    void register_cases(Registry &reg) {
        const bool q = reg.quick(); auto all = iref::nets();
        for (auto &net : all) for (size_t infl = 1; infl <= 3; ++infl) {
            const size_t ops = iref::Model(net, int(infl)).ops.size(); if (ops > (q ? 10 : 14) || (q && infl == 3 && ops > 6)) { continue; } const auto me = mc::cat(net.name, "-x", infl);
            for (size_t level : {0u, 1u, 2u}) { if (level == 2 && (ops > (q ? 6 : 8) || (q && infl == 3))) { continue; }
                reg.add(mc::cat("lists ", me, " level ", level), [=](Ctx &c) { lists(c, net, infl, level, 0, level == 2 ? (c.quick() ? 6 : 14) : (c.quick() ? 10 : 16), 2); lists(c, net, infl, level, 0, c.quick() ? 5 : 7, 3); if (ops <= (c.quick() ? 6 : 8) && level < (c.quick() ? 1 : 2)) { lists(c, net, infl, level, level + 1, c.quick() ? 9 : 16, 2); } }, 1200); }
            if (ops <= (q ? 6 : 8)) { reg.add("histories " + me, [=](Ctx &c) { histories(c, net, infl, ops <= (q ? 2 : 3) ? (q ? 3 : 4) : (q ? 2 : 3), 5); }, 1200); }
            reg.add("suggestions " + me, [=](Ctx &c) { if (!ops) { return; } for (size_t l : {0u, 1u, 2u}) { if (l == 2 && ops > (q ? 6 : 10)) { continue; } Run r{net, infl}; r.suggest(c, l); Run s{net, infl}; if (ops <= 8) { (void)s.moment(l + 1); s.suggest(c, l); } } }, 600);
        }
    }
}
