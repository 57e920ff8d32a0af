// P20: translational symmetry of Pauli chains and lattices, against translations worked out site by site.
#include "mc.h"
#include "pauli_ref.h"
#include "worlds.h"
#include "matrix_ref.h"
#include "multithreading/multithreading.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"

using namespace Moment; using namespace Moment::Pauli; using mc::cat; using mc::Ctx;

namespace {
    struct Shape {
        int h, w; bool lattice, wrap;
        [[nodiscard]] int n() const { return h * w; }
        [[nodiscard]] std::string name() const { return cat(lattice ? cat("lattice", h, "x", w) : cat("chain", h), wrap ? "-wrap" : ""); }
        [[nodiscard]] std::unique_ptr<PauliContext> make(bool sym = true) const {
            const auto wt = wrap ? WrapType::Wrap : WrapType::None; const auto st = sym ? SymmetryType::Translational : SymmetryType::None;
            return lattice ? std::make_unique<PauliContext>(size_t(h), size_t(w), wt, st) : std::make_unique<PauliContext>(size_t(h), wt, st);
        }
    };
    Shape chain(int n, bool wrap) { return {n, 1, false, wrap}; }
    Shape lattice(int h, int w, bool wrap) { return {h, w, true, wrap}; }

    using Sites = std::vector<std::pair<int, int>>;     // (site, letter 0..2), sorted by site
    /** translate; nothing if it leaves the lattice */
    std::optional<Sites> shift(const Shape &s, const Sites &x, int dr, int dc) {
        Sites o; o.reserve(x.size());
        for (auto [q, l] : x) {
            int r = q % s.h + dr, c = q / s.h + dc;
            if (s.wrap) { r = ((r % s.h) + s.h) % s.h; c = ((c % s.w) + s.w) % s.w; } else if (r < 0 || r >= s.h || c < 0 || c >= s.w) { return std::nullopt; }
            o.emplace_back(c * s.h + r, l);
        }
        std::sort(o.begin(), o.end()); return o;
    }
    std::vector<Sites> orbit(const Shape &s, const Sites &x) {
        std::set<Sites> out;
        for (int dc = s.wrap ? 0 : 1 - s.w; dc < s.w; ++dc) for (int dr = s.wrap ? 0 : 1 - s.h; dr < s.h; ++dr) { if (auto y = shift(s, x, dr, dc)) { out.insert(*y); } }
        return {out.begin(), out.end()};
    }
    OperatorSequence seq(const PauliContext &ctx, const Sites &x, int phase = 0) {
        sequence_storage_t raw; for (auto [q, l] : x) { raw.emplace_back(oper_name_t(3 * q + l)); }
        return OperatorSequence{std::move(raw), ctx, SequenceSignType(phase)};
    }
    Sites sites(std::span<const oper_name_t> raw) { Sites o; for (auto x : raw) { o.emplace_back(x / 3, x % 3); } return o; }
    std::vector<oper_name_t> ops(const Sites &x) { std::vector<oper_name_t> o; for (auto [q, l] : x) { o.push_back(oper_name_t(3 * q + l)); } return o; }
    std::string text(const Sites &x) { std::string o; for (auto [q, l] : x) { o += cat("XYZ"[l], q + 1, " "); } return o.empty() ? "1" : o; }
    bool is(const PauliContext &ctx, const OperatorSequence &s, const Sites &x, int phase) {
        return !s.zero() && sites(s.raw()) == x && int(s.get_sign()) == phase && s.hash() == ctx.the_hasher()(s.raw());
    }

    /** f on every word with up to `most` letters */
    template<class F> void each(const Shape &s, int most, F f, int from = 0) {
        Sites cur;
        std::function<void(int)> rec = [&](int q) { f(const_cast<const Sites &>(cur)); if (int(cur.size()) == most) { return; } for (int p = q; p < s.n(); ++p) for (int l = 0; l < 3; ++l) { cur.emplace_back(p, l); rec(p + 1); cur.pop_back(); } };
        rec(from);
    }

    /** one orbit: all members get one canonical word, a member of the orbit; nothing else does */
    void canonical(Ctx &c, const Shape &s, int most) {
        const auto ctx = s.make(); const auto &simp = ctx->moment_simplifier(); std::set<Sites> done; const std::string key = cat("canonical ", s.name());
        each(s, most, [&](const Sites &x) {
            if (done.count(x)) { return; }
            ++c.states; const auto o = orbit(s, x); std::optional<Sites> rep; size_t canonicals = 0;
            for (auto &y : o) {
                done.insert(y); ++c.traces; const auto raw = ops(y); const auto got = simp.canonical_sequence(std::span<const oper_name_t>(raw)); const Sites g = sites(got);
                if (!rep) { rep = g; }
                if (!c.require(g == *rep && std::binary_search(o.begin(), o.end(), g), key, [&] { return cat("canonical word of ", text(y), " is ", text(g), "; of its translate ", text(o[0]), " it is ", text(*rep)); })) { return; }
                const bool canon = simp.is_canonical(std::span<const oper_name_t>(raw)); canonicals += canon;
                c.require(canon == (g == y), key + " is_canonical", [&] { return text(y); });
                for (int ph = 0; ph < (s.n() <= 6 ? 4 : 1); ++ph) {
                    const int phase = s.n() <= 6 ? ph : int(c.traces % 4);
                    const auto in = seq(*ctx, y, phase);
                    c.require(is(*ctx, simp.canonical_sequence(in), g, phase), key + " sequence", [&] { return cat(text(y), " phase ", phase); });
                    c.require(is(*ctx, ctx->simplify_as_moment(in), g, phase), key + " moment", [&] { return cat(text(y), " phase ", phase); });
                    c.require(is(*ctx, ctx->simplify_as_moment(OperatorSequence{in}), g, phase), key + " moved moment", [&] { return cat(text(y), " phase ", phase); });
                    c.require(ctx->can_be_simplified_as_moment(in) == (g != y), key + " can-simplify", [&] { return cat(text(y), " phase ", phase); });
                }
            }
            c.require(canonicals == 1, key + " unique", [&] { return cat(canonicals, " canonical words among the translates of ", text(x)); });
        });
        c.require(simp.canonical_sequence(OperatorSequence::Zero(*ctx)).zero(), key + " zero", [] { return std::string("zero"); });
        c.require(is(*ctx, simp.canonical_sequence(OperatorSequence::Identity(*ctx)), {}, 0), key + " one", [] { return std::string("one"); });
    }

    void offsets(Ctx &c, const Shape &s, int most, int from = 0) {
        const auto ctx = s.make(); const auto &simp = ctx->moment_simplifier(); const std::string key = cat("offset ", s.name()); const Shape line{s.n(), 1, false, s.wrap};
        each(s, most, [&](const Sites &x) {
            ++c.states; const int phase = int(c.states % 4); const auto in = seq(*ctx, x, phase);
            for (int d = -2 * s.n(); d <= 2 * s.n(); ++d) { if (auto y = shift(line, x, d, 0)) { if (x.empty() && !s.wrap) { continue; } ++c.traces; c.require(is(*ctx, simp.chain_offset(in, d), *y, phase), key + " chain", [&] { return cat(text(x), " by ", d, " is ", text(sites(simp.chain_offset(in, d).raw()))); }); } }
            const int m = s.n() <= 16 ? 2 : 1;
            if (s.lattice || s.wrap) for (int dr = -m * s.h; dr <= m * s.h; ++dr) for (int dc = -m * s.w; dc <= m * s.w; ++dc) { if (auto y = shift(s, x, dr, dc)) { ++c.traces; c.require(is(*ctx, simp.lattice_offset(in, dr, dc), *y, phase), key + " lattice", [&] { return cat(text(x), " by ", dr, " rows and ", dc, " columns is ", text(sites(simp.lattice_offset(in, dr, dc).raw()))); }); } }
            else for (int dr = -s.h; dr <= s.h; ++dr) { if (auto y = shift(s, x, dr, 0)) { c.require(is(*ctx, simp.lattice_offset(in, dr, 0), *y, phase), key + " lattice", [&] { return cat(text(x), " by ", dr, " rows"); }); } }
        }, from);
    }

    /** all letters on all translates of a set of sites */
    std::set<Sites> filled(const Shape &s, const std::vector<size_t> &at, bool wrap) {
        Shape t = s; t.wrap = wrap; std::set<Sites> out;
        mc::each_word(3, at.size(), [&](const std::vector<int> &l) { Sites x; for (size_t i = 0; i < at.size(); ++i) { x.emplace_back(int(at[i]), l[i]); } std::sort(x.begin(), x.end()); for (auto &y : orbit(t, x)) { out.insert(y); } });
        return out;
    }
    std::vector<Sites> listed(Ctx &c, const PauliContext &ctx, const std::vector<OperatorSequence> &out, size_t from, const std::string &key) {
        std::vector<Sites> o; for (size_t i = from; i < out.size(); ++i) { const Sites x = sites(out[i].raw()); c.require(is(ctx, out[i], x, 0), key + " entry", [&] { return text(x); }); o.push_back(x); } return o;
    }

    void fills(Ctx &c, const Shape &s, int most, bool sym, bool unordered) {
        const auto ctx = s.make(sym); const std::string key = cat("fill ", s.name(), sym ? "-sym" : "");
        std::function<void(std::vector<size_t> &)> rec = [&](std::vector<size_t> &at) {
            if (!at.empty()) {
                ++c.states; const bool sorted = std::is_sorted(at.begin(), at.end()); const std::string what = mc::show(at);
                for (int mode = 0; mode < 4; ++mode) {
                    if (mode == 2 && !sorted) { continue; }
                    ++c.traces; std::vector<OperatorSequence> out; out.push_back(seq(*ctx, {{0, 0}})); LatticeDuplicator ld{*ctx, out};
                    const auto [a, b] = mode == 3 ? ld.permutation_fill(at) : mode == 2 ? ld.wrapless_symmetrical_fill(at) : ld.symmetrical_fill(at, mode == 1);
                    const std::string k = cat(key, " mode ", mode);
                    c.require(a == 1 && b == out.size(), k + " range", [&] { return what; });
                    const auto got = listed(c, *ctx, out, 1, k); const std::set<Sites> have(got.begin(), got.end());
                    std::set<Sites> want; if (mode == 3) { Shape one{int(s.n()), 1, false, false}; mc::each_word(3, at.size(), [&](const std::vector<int> &l) { Sites x; for (size_t i = 0; i < at.size(); ++i) { x.emplace_back(int(at[i]), l[i]); } std::sort(x.begin(), x.end()); want.insert(x); }); } else { want = filled(s, at, mode == 2 ? false : s.wrap); }
                    c.require(have == want, k + " orbit", [&] { std::string d; for (auto &x : want) { if (!have.count(x)) { d += " missing " + text(x); } } for (auto &x : have) { if (!want.count(x)) { d += " extra " + text(x); } } return what + d.substr(0, 200); });
                    if (mode != 0 || !s.wrap) { c.require(got.size() == have.size(), k + " repeats", [&] { return cat(what, " lists ", got.size(), " words, ", have.size(), " of them different"); }); }
                    // without the check for repeats every letter is listed once per translation, at most
                    else { c.require(got.size() <= size_t(s.n()) * size_t(std::pow(3, at.size()) + 0.5), k + " size", [&] { return what; }); }
                }
            }
            if (int(at.size()) == most) { return; }
            for (size_t q = 0; q < size_t(s.n()); ++q) { if (std::find(at.begin(), at.end(), q) != at.end() || (!unordered && !at.empty() && q < at.back())) { continue; } at.push_back(q); rec(at); at.pop_back(); }
        };
        std::vector<size_t> at; rec(at);
    }

    /** average of a polynomial over all of its translates that fit */
    void averages(Ctx &c, const Shape &s, int terms, int most) {
        const auto ctx = s.make(); const std::string key = cat("average ", s.name()); std::vector<Sites> words; each(s, most, [&](const Sites &x) { words.push_back(x); });
        const std::complex<double> w[3] = {{2, -1}, {0.5, 0}, {0, 3}};
        std::function<void(std::vector<size_t> &)> rec = [&](std::vector<size_t> &at) {
            if (!at.empty()) {
                ++c.states; ++c.traces; RawPolynomial in; for (size_t i = 0; i < at.size(); ++i) { in.emplace_back(seq(*ctx, words[at[i]]), w[i]); }
                std::map<Sites, std::complex<double>> want, have; size_t count = 0;
                for (int dc = s.wrap ? 0 : 1 - s.w; dc < s.w; ++dc) for (int dr = s.wrap ? 0 : 1 - s.h; dr < s.h; ++dr) {
                    bool ok = true; std::vector<Sites> img; for (auto k : at) { auto y = shift(s, words[k], dr, dc); if (!y) { ok = false; break; } img.push_back(*y); } if (!ok) { continue; }
                    ++count; for (size_t i = 0; i < img.size(); ++i) { want[img[i]] += w[i]; }
                }
                for (auto &[x, v] : want) { v /= double(count); }
                const auto out = LatticeDuplicator::symmetrical_copy(*ctx, in); for (auto &[q, v] : out) { have[sites(q.raw())] += v * pref::iphase(int(q.get_sign())); }
                for (auto *m : {&want, &have}) for (auto it = m->begin(); it != m->end();) { if (std::abs(it->second) < 1e-12) { it = m->erase(it); } else { ++it; } }
                bool ok = want.size() == have.size(); for (auto &[x, v] : want) { if (!have.count(x) || std::abs(have[x] - v) > 1e-9) { ok = false; } }
                c.require(ok, key, [&] { std::string d; for (auto k : at) { d += text(words[k]) + "| "; } d += " gives "; for (auto &[x, v] : have) { d += cat(v, "*", text(x), "+ "); } return d.substr(0, 400); });
            }
            if (int(at.size()) == terms) { return; }
            for (size_t k = at.empty() ? 0 : at.back() + 1; k < words.size(); ++k) { at.push_back(k); rec(at); at.pop_back(); }
        };
        std::vector<size_t> at; rec(at);
    }

    /** every symbol of a symmetric system is a canonical word, and no two are translates of one another */
    void systems(Ctx &c, const Shape &s, size_t level) {
        using Policy = Moment::Multithreading::MultiThreadPolicy;
        const std::string key = cat("system ", s.name()); const world::World w = world::pauli(s.h, s.w, s.lattice, s.wrap, true, int(level), 2);
        for (size_t nn : {0, 1}) for (auto policy : {Policy::Never, Policy::Always}) {
            auto sys = w.make(); auto &ms = dynamic_cast<PauliMatrixSystem &>(*sys); const auto &ctx = ms.pauliContext;
            auto symbols = [&](const std::string &what) {
                std::set<std::vector<Sites>> seen;
                for (size_t id = 2; id < ms.Symbols().size(); ++id) {
                    const auto &q = ms.Symbols()[symbol_name_t(id)].sequence(); const Sites x = sites(q.raw()); ++c.states;
                    c.require(!ctx.can_be_simplified_as_moment(q) && sites(ctx.moment_simplifier().canonical_sequence(q).raw()) == x && int(q.get_sign()) == 0, key + " canonical", [&] { return cat(what, ": symbol ", id, " is ", text(x)); });
                    c.require(seen.insert(orbit(s, x)).second, key + " distinct", [&] { return cat(what, ": symbol ", id, " is a translate of another: ", text(x)); });
                }
            };
            std::vector<world::Raw> words; for (auto &q : ctx.operator_sequence_generator(NearestNeighbourIndex{level, nn})) { words.push_back(world::World::raw(q)); }
            auto entries = [&](const SymbolicMatrix &m, const std::function<world::Elem(const world::Elem &, const world::Elem &)> &at, const std::string &what) {
                ++c.traces; mref::check_matrix(c, w, m, words.size(), [&](size_t i, size_t j) { return w.expect(at(w.word(words[i]), w.word(words[j]))); }, key, what, words.size() <= 30); symbols(what);
            };
            entries(ms.PauliMomentMatrices.create(Pauli::MomentMatrixIndex{level, nn}, policy).second, [&](auto &a, auto &b) { return w.mul(w.conj(a), b); }, cat("moment matrix ", level, " ", nn));
            each(s, s.n() <= 4 ? c.bound(1, 2) : 1, [&](const Sites &x) {
                if (c.quick() && s.n() >= 6 && !x.empty() && x[0].first != 0 && x[0].first != s.n() - 2) { return; }
                world::Raw r; for (auto o : ops(x)) { r.push_back(int(o)); } const auto mid = w.word(r); const auto q = seq(ctx, x); const std::string what = text(x);
                entries(ms.PauliLocalizingMatrices.create(Pauli::LocalizingMatrixIndex{level, nn, q}, policy).second, [&](auto &a, auto &b) { return w.mul(w.conj(a), w.mul(mid, b)); }, "localizing " + what);
                if (level == 1) {
                    entries(ms.CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{level, nn, q}, policy).second, [&](auto &a, auto &b) { auto z = w.mul(w.conj(a), b); return world::World::add(w.mul(z, mid), w.mul(mid, z), -1.0); }, "commutator " + what);
                }
            });
        }
    }
}

namespace mc {
    void register_cases(Registry &reg) {
        // all words on small chains and lattices
        for (bool wrap : {false, true}) {
            for (int n = 1; n <= (reg.quick() ? 6 : 8); ++n) { const auto s = chain(n, wrap); reg.add("canonical/" + s.name(), [s](Ctx &c) { canonical(c, s, s.n()); }, 600); }
            for (int h = 1; h <= 8; ++h) for (int w = 1; w <= 8; ++w) { if (h * w > (reg.quick() ? 6 : 8)) { continue; } const auto s = lattice(h, w, wrap); reg.add("canonical/" + s.name(), [s](Ctx &c) { canonical(c, s, s.n()); }, 600); }
            { const auto s = lattice(3, 3, wrap); reg.add("canonical/" + s.name(), [s](Ctx &c) { canonical(c, s, c.bound(5, 9)); }, 1800); }
            // word sizes at and around multiples of 32 sites
            for (int n : {15, 16, 17, 31, 32, 33, 34, 47, 48, 63, 64, 65, 95, 96, 97, 127, 128, 129, 161, 193, 225, 255, 256}) {
                const auto s = chain(n, wrap); reg.add("large/" + s.name(), [s](Ctx &c) { canonical(c, s, s.n() <= 34 ? c.bound(3, 4) : s.n() <= 64 ? c.bound(2, 3) : c.bound(2, s.n() <= 129 ? 3 : 2)); offsets(c, s, s.n() <= 129 ? c.bound(1, 2) : 1); }, 1800);
            }
            for (auto [h, w] : std::vector<std::pair<int, int>>{{4, 4}, {4, 8}, {8, 4}, {3, 11}, {11, 3}, {5, 7}, {7, 5}, {6, 6}, {1, 33}, {33, 1}, {1, 40}, {16, 2}, {2, 16}, {17, 2}, {31, 2}, {32, 2}, {33, 2}, {40, 2}, {64, 1}, {7, 9}, {9, 7}, {8, 8}, {10, 10}, {32, 3}, {31, 3}, {33, 3}, {20, 5}, {12, 11}, {11, 12}, {64, 2}, {65, 2}, {100, 2}, {128, 2}, {16, 16}, {15, 17}, {17, 15}, {32, 8}, {31, 8}, {8, 32}, {50, 5}}) {
                const auto s = lattice(h, w, wrap); reg.add("large/" + s.name(), [s](Ctx &c) { canonical(c, s, s.n() <= 40 ? c.bound(2, 3) : 2); if (s.n() <= 70) { offsets(c, s, s.n() <= 40 ? c.bound(1, 2) : 1); } }, 1800);
            }
            for (auto s : {chain(1, wrap), chain(2, wrap), chain(3, wrap), chain(5, wrap), chain(6, wrap), lattice(1, 1, wrap), lattice(2, 2, wrap), lattice(2, 3, wrap), lattice(3, 2, wrap), lattice(4, 2, wrap), lattice(1, 4, wrap), lattice(2, 4, wrap), lattice(1, 5, wrap), lattice(5, 1, wrap), lattice(3, 3, wrap)}) {
                reg.add("offsets/" + s.name(), [s](Ctx &c) { offsets(c, s, s.n() <= 6 ? c.bound(4, 6) : 3); }, 600);
                for (bool sym : {false, true}) { reg.add(cat("fills/", s.name(), sym ? "-sym" : ""), [s, sym](Ctx &c) { fills(c, s, c.bound(3, s.n() <= 6 ? 5 : 4), sym, true); fills(c, s, c.bound(4, 6), sym, false); }, 600); }
                reg.add("averages/" + s.name(), [s](Ctx &c) { averages(c, s, 1, s.n() <= 6 ? 4 : 3); averages(c, s, 2, s.n() <= 3 ? 3 : c.bound(1, 2)); averages(c, s, 3, s.n() <= 2 ? 2 : 1); }, 600);
            }
            for (auto s : {chain(34, wrap), lattice(5, 7, wrap), lattice(9, 8, wrap)}) { reg.add("fills-large/" + s.name(), [s](Ctx &c) { for (bool sym : {false, true}) { fills(c, s, c.bound(1, 2), sym, false); } }, 600); reg.add("averages-large/" + s.name(), [s](Ctx &c) { averages(c, s, 1, c.bound(1, 2)); }, 600); }
            for (auto s : {chain(2, wrap), chain(3, wrap), chain(4, wrap), chain(5, wrap), lattice(2, 2, wrap), lattice(2, 3, wrap), lattice(3, 2, wrap), lattice(3, 3, wrap)}) { reg.add("systems/" + s.name(), [s](Ctx &c) { systems(c, s, 1); if (s.n() <= c.bound(3, 5)) { systems(c, s, 2); } }, 600); }
        }
    }
}
