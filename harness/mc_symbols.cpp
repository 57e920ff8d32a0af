// P05: the symbol table, driven through every short history of the operations that add symbols.
#include "worlds.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "matrix/operator_matrix/moment_matrix.h"
#include "scenarios/imported/imported_context.h"
#include "utilities/dynamic_bitset.h"

using namespace Moment;
using namespace world;

namespace {
    using Snapshot = std::vector<std::tuple<Raw, ptrdiff_t, ptrdiff_t>>;

    void check_basis(mc::Ctx &c, const SymbolTable &st, const std::string &key, const std::string &hist) {
        const auto &re = st.Basis.RealSymbols(); const auto &im = st.Basis.ImaginarySymbols();
        size_t nre = 0, nim = 0; bool ok = st.Basis.RealSymbolCount() == re.size() && st.Basis.ImaginarySymbolCount() == im.size();
        for (const auto &s : st) {
            auto [r, i] = s.basis_key();
            ok = ok && st.Basis(s.Id()) == s.basis_key();
            if (r >= 0) { ++nre; ok = ok && size_t(r) < re.size() && re[r] == size_t(s.Id()) && st.Basis.imaginary_from_real(r) == i; }
            if (i >= 0) { ++nim; ok = ok && size_t(i) < im.size() && im[i] == size_t(s.Id()) && st.Basis.real_from_imaginary(i) == r; }
        }
        ok = ok && nre == re.size() && nim == im.size();
        ok = ok && st.Basis.imaginary_from_real(-1) == -1 && st.Basis.real_from_imaginary(-1) == -1;
        c.require(ok, key + " basis", [&] { std::stringstream ss; ss << hist << ": basis positions are not a gap-free bijection\n" << st; return ss.str(); });
    }

    void check_table(mc::Ctx &c, const World &w, const MatrixSystem &sys, Snapshot &snap, const std::vector<Raw> &words, const std::string &hist) {
        const SymbolTable &st = sys.Symbols(); const auto &ctx = sys.Context();
        std::map<std::pair<Raw, bool>, std::vector<symbol_name_t>> by_key;
        ++c.states;
        c.require(st.size() >= 2 && !st.empty() && st[0].sequence().zero() && st[0].basis_key() == std::pair<ptrdiff_t, ptrdiff_t>{-1, -1} && st[0].is_hermitian() && st[0].is_antihermitian()
                  && st[1].sequence().empty() && !st[1].sequence().zero() && st[1].is_hermitian() && !st[1].is_antihermitian() && st[1].basis_key() == std::pair<ptrdiff_t, ptrdiff_t>{0, -1},
                  w.name + " zero-and-one", [&] { return hist; });
        for (size_t i = 0; i < st.size(); ++i) {
            const auto &s = st[i];
            c.require(size_t(s.Id()) == i && s.has_sequence(), w.name + " id", [&] { return mc::cat(hist, ": symbol at ", i, " calls itself ", s.Id()); });
            if (i == 0) { continue; }
            const Raw r = World::raw(s.sequence()); const auto n = w.nf(r);
            if (!c.require(n && n->first == r && n->second == 0 && !s.sequence().zero() && s.sequence().get_sign() == SequenceSignType::Positive && s.hash() == ctx.the_hasher()(s.sequence().raw()),
                      w.name + " word", [&] { return mc::cat(hist, ": symbol ", i, " has word ", mc::show(r)); })) { continue; }
            const auto k = w.key(r).first;
auto &ids = by_key[std::pair{k.first, false}]; ids.push_back(s.Id());
            if (ids.size() > 1) {
                Raw first = World::raw(st[ids[0]].sequence()), second = r; if (std::pair{second.size(), second} < std::pair{first.size(), first}) { std::swap(first, second); }
                c.require(false, mc::cat(w.name, " duplicate ", mc::show(first), "~", mc::show(second)), [&] { return mc::cat(hist, ": symbols ", ids[0], " and ", i, " are the same moment ", mc::show(r)); });
            }
            const int h = w.hermiticity(r);
            c.require(s.is_hermitian() == (h == 1) && s.is_antihermitian() == (h == -1) && (s.basis_key().first >= 0) == (h != -1) && (s.basis_key().second >= 0) == (h != 1),
                      w.name + " flags", [&] { return mc::cat(hist, ": symbol ", i, " ", mc::show(r), " hermitian ", s.is_hermitian(), " antihermitian ", s.is_antihermitian(), " basis (", s.basis_key().first, ",", s.basis_key().second, "), reference ", h); });
            const auto cj = w.nf(w.reversed(r));
            if (h == 0) {
                const auto cr = World::raw(s.sequence_conj());
                c.require(cr == cj->first && int(s.sequence_conj().get_sign()) == cj->second && s.hash_conj() == ctx.the_hasher()(s.sequence_conj().raw()), w.name + " conjugate-word",
                          [&] { return mc::cat(hist, ": symbol ", i, " ", mc::show(r), " claims conjugate ", mc::show(cr), " sign ", int(s.sequence_conj().get_sign())); });
            }
        }
        check_basis(c, st, w.name, hist);
        for (size_t i = 0; i < snap.size(); ++i) {
            auto &[r, a, b] = snap[i];
            c.require(i < st.size() && World::raw(st[i].sequence()) == r && st[i].basis_key() == std::pair{a, b}, w.name + " renumbered", [&] { return mc::cat(hist, ": symbol ", i, " changed"); });
        }
        snap.clear(); for (const auto &s : st) { snap.emplace_back(World::raw(s.sequence()), s.basis_key().first, s.basis_key().second); }
        // look-ups
        for (auto &x : words) {
            const auto [k, f] = w.key(x); auto it = by_key.find({k.first, false});
            const auto seq = w.seq(ctx, x); const auto res = st.where(seq);
            if (it == by_key.end()) {
                c.require(!res.found() && !res && res == nullptr, w.name + " where-absent", [&] { return mc::cat(hist, ": ", mc::show(x), " found as ", res->Id(), " but was never added"); });
                continue;
            }
            if (!c.require(res.found() && std::count(it->second.begin(), it->second.end(), res->Id()), w.name + " where", [&] { return mc::cat(hist, ": ", mc::show(x), res.found() ? mc::cat(" found as ", res->Id()) : std::string{" not found"}, ", expected ", it->second[0]); })) { continue; }
            const Raw sr = World::raw(res->sequence());
            const bool star = w.hermiticity(x) == 0 && w.key(sr).first.second != k.second;
            c.require(res.is_conjugated == star, w.name + " where-conjugated", [&] { return mc::cat(hist, ": ", mc::show(x), " conjugated flag ", res.is_conjugated, ", symbol word ", mc::show(sr)); });
            const bool direct = x == sr || (w.nf(w.reversed(sr))->first == x);
            c.require(res.is_aliased == !direct, w.name + " where-aliased", [&] { return mc::cat(hist, ": ", mc::show(x), " aliased flag ", res.is_aliased, ", symbol word ", mc::show(sr)); });
            if (direct) {
                const auto [ix, cjg] = st.hash_to_index(ctx.hash(seq));
                c.require(ix == res->Id() && cjg == star, w.name + " hash_to_index", [&] { return mc::cat(hist, ": ", mc::show(x), " -> ", ix, " ", cjg); });
                const auto mono = st.to_symbol(seq);
                c.require(mono.id == res->Id() && mono.conjugated == star && mono.factor == 1.0, w.name + " to_symbol", [&] { return mc::cat(hist, ": ", mc::show(x), " -> ", mono.id); });
            }
        }
    }

    struct Op { std::string name; std::function<void(MatrixSystem &)> run; std::vector<Raw> adds; };

    void histories(mc::Ctx &c, const World &w, int depth, bool threads) {
        const auto words = w.canonical(w.words);
        std::vector<Op> ops;
        ops.push_back({"dictionary 1", [](MatrixSystem &s) { s.generate_dictionary(1); }, w.canonical(1)});
        ops.push_back({mc::cat("dictionary ", w.words), [&w](MatrixSystem &s) { s.generate_dictionary(w.words); }, words});
        ops.push_back({mc::cat("moment matrix ", w.level), [&w](MatrixSystem &s) { (void) s.MomentMatrix.create(w.level, Multithreading::MultiThreadPolicy::Never); }, w.canonical(w.level)});
        // a long non-Hermitian word and its conjugate
        Raw odd; for (auto &x : words) { if (w.hermiticity(x) != 1 || odd.empty()) { odd = x; } }
        if (!odd.empty()) {
            ops.push_back({"localizing 1 " + mc::show(odd), [&w, odd](MatrixSystem &s) { (void) s.LocalizingMatrix.create(LocalizingMatrixIndex{1, w.seq(s.Context(), odd)}, Multithreading::MultiThreadPolicy::Never); }, {}});
            ops.push_back({"add conjugate of " + mc::show(odd), [&w, odd](MatrixSystem &s) { s.Symbols().merge_in(w.seq(s.Context(), odd).conjugate()); }, {odd}});
            ops.push_back({"polynomial with 2i" + mc::show(odd), [&w, odd](MatrixSystem &s) { RawPolynomial rp; rp.emplace_back(w.seq(s.Context(), odd, 1), 2.0); rp.emplace_back(w.seq(s.Context(), {0}), 1.0); (void) s.polynomial_factory().register_and_construct(s.Symbols(), rp); }, {odd}});
        }
        if (threads) { ops.push_back({mc::cat("moment matrix ", w.level, " threaded"), [&w](MatrixSystem &s) { (void) s.MomentMatrix.create(w.level, Multithreading::MultiThreadPolicy::Always); }, w.canonical(w.level)}); }
        std::vector<int> h(depth, 0); const int N = int(ops.size());
        mc::each_word(N, depth, [&](const std::vector<int> &seq) {
            auto sys = w.make(); Snapshot snap; std::string hist = w.name + ":"; std::set<Raw> must;
            for (size_t k = 0; k < seq.size(); ++k) {
                hist += mc::cat(" [", ops[seq[k]].name, "]"); c.step("%s", hist.c_str());
                ops[seq[k]].run(*sys);
                for (auto &x : ops[seq[k]].adds) { must.insert(x); }
                if (k + 1 < seq.size() && k > 0) { continue; }   // shorter prefixes are covered by other histories
                check_table(c, w, *sys, snap, words, hist);
            }
            for (auto &x : must) {
                auto r = sys->Symbols().where(w.seq(sys->Context(), x));
                c.require(r.found(), w.name + " added-but-missing", [&] { return mc::cat(hist, ": ", mc::show(x)); });
            }
            ++c.traces;
        });
        // dictionary positions -> symbols
        for (int first = 1; first <= w.words; ++first) {
            auto sys = w.make(); if (first < w.words) { sys->generate_dictionary(first); sys->Symbols().OSGIndex.update_if_necessary(first); }
            sys->generate_dictionary(w.words); sys->Symbols().OSGIndex.update_if_necessary(w.words);
            const auto &osg = sys->Context().operator_sequence_generator(w.words); const auto &st = sys->Symbols();
            c.require(int(st.OSGIndex.max_length()) == w.words, w.name + " OSGIndex length", [&] { return mc::cat(st.OSGIndex.max_length()); });
            for (size_t i = 0; i < osg.size(); ++i) {
                auto [id, cj] = st.OSGIndex(i);
                Monomial m{id, 1.0, cj};
                const auto k = w.key(World::raw(osg[i]));
                Expr want = w.expect(World::elem(osg[i])), got = w.expr(st, m), minus = want; for (auto &[kk, v] : minus) { v = -v; }
                // the map carries no sign, so a moment that is minus the conjugate of its symbol is accepted up to sign
                c.require(eq(want, got) || (k.second != 1.0 && eq(minus, got)) || (w.hermiticity(World::raw(osg[i])) == -1 && eq(minus, got)), w.name + " OSGIndex", [&] { return mc::cat("position ", i, " is ", text(want), ", map says ", text(got)); });
            }
            bool threw = false; try { (void) st.OSGIndex(osg.size()); } catch (const std::range_error &) { threw = true; }
            c.require(threw, w.name + " OSGIndex range", [&] { return "no range error past the end"; });
        }
    }

    /** every ordered pair of words, in both directions and with any phase, added one at a time */
    void pairs(mc::Ctx &c, const World &w) {
        const auto words = w.canonical(w.words);
        std::vector<Raw> pick = words; if (pick.size() > 45) { std::vector<Raw> few; for (size_t i = 0; i < pick.size(); ++i) { if (i < 15 || i % (pick.size() / 30) == 0) { few.push_back(pick[i]); } } pick = few; }
        for (auto &a : pick) for (auto &b : pick) for (int ph = 0; ph < 4; ++ph) {
            auto sys = w.make(); auto &st = sys->Symbols(); Snapshot snap;
            const std::string hist = mc::cat(w.name, ": add i^", ph, mc::show(a), " then ", mc::show(b));
            if (ph == 0) { c.step("%s", hist.c_str()); }
            const auto ia = st.merge_in(w.seq(sys->Context(), a, ph)); 
            const auto ib = st.merge_in(w.seq(sys->Context(), b, 0)); const auto again = st.merge_in(w.seq(sys->Context(), w.reversed(a), 0));
            const bool same = w.key(a).first.first == w.key(b).first.first;
            c.require((ia == ib) == same && again == ia, w.name + " merge-id", [&] { return mc::cat(hist, " gave ", ia, " and ", ib, " conjugate ", again); });
            check_table(c, w, *sys, snap, {a, b, w.nf(w.reversed(a))->first}, hist);
            ++c.traces;
        }
    }

    /** operator-free tables: create / restrict, against a model of which parts each symbol still has */
    void bare(mc::Ctx &c, int depth) {
        struct Act { std::string name; int kind; int re, im; };
        // kinds: 0 create one, 1 create two, 2 restrict with bit patterns over table size (+1)
        struct M { std::vector<std::pair<bool, bool>> sym{{false, false}, {true, false}}; };
        std::function<void(std::vector<Act>, int)> rec = [&](std::vector<Act> path, int left) {
            // replay
            Imported::ImportedContext ctx{false}; SymbolTable st{ctx}; M m; std::string hist; bool dead = false;
            for (auto &a : path) {
                hist += " " + a.name; c.step("%s", hist.c_str());
                if (a.kind == 0) { auto id = st.create(a.re != 0, a.im != 0); c.require(size_t(id) == m.sym.size(), "bare create-id", [&] { return hist; }); m.sym.emplace_back(a.re, a.im); }
                if (a.kind == 1) { auto id = st.create(2, a.re != 0, a.im != 0); c.require(size_t(id) == m.sym.size(), "bare create-id", [&] { return hist; }); m.sym.emplace_back(a.re, a.im); m.sym.emplace_back(a.re, a.im); }
                if (a.kind == 2) {
                    const size_t n = size_t(a.re & 0xff); const int rb = a.re >> 8, ib = a.im;   // bits for symbols 2..
                    DynamicBitset<uint64_t> r{n, true}, i{n, true};
                    for (size_t s = 2; s < n; ++s) { if (!((rb >> (s - 2)) & 1)) { r.unset(s); } if (!((ib >> (s - 2)) & 1)) { i.unset(s); } }
                    M want = m; while (want.sym.size() < n) { want.sym.emplace_back(true, true); }
                    bool zero = false, changed = false;
                    for (size_t s = 2; s < n; ++s) {
                        auto old = want.sym[s]; want.sym[s].first = old.first && r.test(s); want.sym[s].second = old.second && i.test(s);
                        if (!want.sym[s].first && !want.sym[s].second) { zero = true; } if (old != want.sym[s]) { changed = true; }
                    }
                    std::stringstream before; before << st;
                    try { const bool got = st.merge_in(r, i); c.require(!zero, "bare zero-symbol accepted", [&] { return hist; }); c.require(got == changed, "bare changed-flag", [&] { return mc::cat(hist, " reported ", got); }); m = want; }
                    catch (const errors::zero_symbol &) {
                        c.require(zero, "bare zero-symbol", [&] { return hist + ": rejected though no symbol becomes zero"; });
                        std::stringstream after; after << st;
                        c.require(before.str() == after.str(), "bare rejected-changes", [&] { return mc::cat(hist, ": a rejected restriction changed the table from\n", before.str(), "to\n", after.str()); });
                    }
                }
                bool ok = st.size() == m.sym.size();
                for (size_t s = 1; ok && s < st.size(); ++s) {
                    ok = (st[s].basis_key().first >= 0) == m.sym[s].first && (st[s].basis_key().second >= 0) == m.sym[s].second && st[s].is_hermitian() == !m.sym[s].second && st[s].is_antihermitian() == !m.sym[s].first && size_t(st[s].Id()) == s;
                }
                c.require(ok, "bare flags", [&] { std::stringstream ss; ss << hist << "\n" << st; return ss.str(); });
                check_basis(c, st, "bare", hist);
                if (!ok) { dead = true; break; }
            }
            ++c.traces; ++c.states;
            if (left == 0 || dead) { return; }
            std::vector<Act> acts;
            for (int rr = 0; rr < 2; ++rr) for (int ii = 0; ii < 2; ++ii) { if (rr || ii) { acts.push_back({mc::cat("create(", rr, ii, ")"), 0, rr, ii}); acts.push_back({mc::cat("create(2,", rr, ii, ")"), 1, rr, ii}); } }
            const int extra = std::min<int>(int(m.sym.size()) - 2, 3);
            for (int n = int(m.sym.size()); n <= int(m.sym.size()) + 1; ++n) {
                const int bits = n - 2; if (bits < 0 || bits > 3) { continue; }
                for (int rb = 0; rb < (1 << bits); ++rb) for (int ib = 0; ib < (1 << bits); ++ib) { acts.push_back({mc::cat("restrict(", n, ",", rb, ",", ib, ")"), 2, n | (rb << 8), ib}); }
            }
            (void) extra;
            for (auto &a : acts) { auto p = path; p.push_back(a); rec(p, left - 1); }
        };
        rec({}, depth);
    }
}

void mc::register_cases(mc::Registry &reg) {
    for (auto &w : catalogue(reg.quick())) {
        reg.add("history-" + w.name, [w](Ctx &c) {
            histories(c, w, c.bound(2, 3), true);
            c.sample(w.name + ": all histories of dictionary/matrix/polynomial/word additions");
        }, reg.quick() ? 240 : 3000);
        reg.add("pairs-" + w.name, [w](Ctx &c) { pairs(c, w); }, reg.quick() ? 240 : 3000);
    }
    reg.add("bare", [](Ctx &c) { bare(c, c.bound(3, 4)); }, 2000);
}
