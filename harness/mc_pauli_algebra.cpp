// P02: Pauli words multiply, conjugate, (anti)commute exactly as the matrices they denote.
#include "mc.h"
#include "pauli_ref.h"

using namespace Moment;
using namespace Moment::Pauli;
using pref::Word;

namespace {
    OperatorSequence raw_seq(const PauliContext &ctx, const std::vector<int> &w, int phase) {
        sequence_storage_t raw; for (int o : w) { raw.emplace_back(static_cast<oper_name_t>(o)); }
        return OperatorSequence{std::move(raw), ctx, static_cast<SequenceSignType>(phase)};
    }

    void words_case(mc::Ctx &c, size_t n, size_t len) {
        PauliContext ctx{n};
        std::set<Word> seen;
        mc::each_word_upto(3 * n, len, [&](const std::vector<int> &w) {
            for (int ph = 0; ph < 4; ++ph) {
                c.step("n=%zu ph=%d word=%s", n, ph, mc::show(w).c_str());
                auto seq = raw_seq(ctx, w, ph);
                const Word ref = pref::from_raw(n, w, ph);
                seen.insert(ref); ++c.traces;
                c.require(pref::same(ctx, ref, seq), mc::cat("reduce n=", n, " i^", ph, mc::show(w)), [&] {
                    return mc::cat("word ", mc::show(w), " phase i^", ph, " should reduce to ", pref::text(ref), " but gave ",
                                   seq.formatted_string(), " hash ", seq.hash()); });
                // reduction of a reduced word is itself
                OperatorSequence again{seq.raw(), ctx, seq.get_sign()};
                c.require(again == seq && again.raw() == seq.raw(), "idempotent", [&] { return mc::show(w); });
                // appending letter by letter gives the same element
                OperatorSequence inc{sequence_storage_t{}, ctx, static_cast<SequenceSignType>(ph)};
                for (int o : w) { inc.append({static_cast<oper_name_t>(o)}); }
                c.require(pref::same(ctx, ref, inc), "append", [&] { return mc::cat("append of ", mc::show(w), " phase ", ph, " gave ", inc.formatted_string()); });
                if (ph == 0 && w.size() >= 2) {
                    // product of the two halves
                    for (size_t cut = 1; cut < w.size(); ++cut) {
                        auto l = raw_seq(ctx, {w.begin(), w.begin() + cut}, 0), r = raw_seq(ctx, {w.begin() + cut, w.end()}, 0);
                        c.require(pref::same(ctx, ref, l * r), "split-product", [&] { return mc::cat(mc::show(w), " cut ", cut, " gave ", (l * r).formatted_string()); });
                    }
                }
            }
        });
        c.states += seen.size();
        c.sample(mc::cat("n=", n, " all raw words up to length ", len, " times 4 phases; ", seen.size(), " distinct elements"));
    }

    /** words much longer than any letter count the sorting or storage code treats specially */
    void periodic(mc::Ctx &c, size_t n, size_t period, size_t to) {
        PauliContext ctx{n};
        mc::each_periodic(3 * n, period, 15, to, [&](const std::vector<int> &w) {
            c.step("n=%zu periodic %s", n, mc::show(w).c_str());
            const Word ref = pref::from_raw(n, w, 0); auto seq = raw_seq(ctx, w, 0); ++c.traces;
            c.require(pref::same(ctx, ref, seq), mc::cat("reduce-periodic n=", n), [&] { return mc::cat(mc::show(w), " should reduce to ", pref::text(ref), " but gave ", seq.formatted_string()); });
        });
    }

    void unary(mc::Ctx &c, size_t n) {
        PauliContext ctx{n};
        for (const auto &w : pref::all_words(n, true)) {
            auto s = pref::to_seq(ctx, w);
            c.step("unary %s", pref::text(w).c_str()); ++c.states;
            c.require(pref::same(ctx, pref::conj(w), s.conjugate()), mc::cat("conjugate ", pref::text(w)), [&] { return s.conjugate().formatted_string(); });
            c.require(pref::same(ctx, pref::conj(w), ctx.conjugate(s)), mc::cat("ctx-conjugate ", pref::text(w)), [&] { return ctx.conjugate(s).formatted_string(); });
            Word neg = w; neg.phase = (w.phase + 2) & 3;
            c.require(pref::same(ctx, neg, -s), mc::cat("negate ", pref::text(w)), [&] { return (-s).formatted_string(); });
            c.require(pref::same(ctx, neg, -OperatorSequence{s}), mc::cat("negate-rvalue ", pref::text(w)), [&] { return "rvalue"; });
            const auto want = (w.phase & 1) ? HermitianType::AntiHermitian : HermitianType::Hermitian;
            c.require(s.hermitian_type() == want, mc::cat("hermitian_type ", pref::text(w)), [&] { return mc::cat(int(s.hermitian_type())); });
            c.require(s.formatted_string() == pref::text(w), mc::cat("text ", pref::text(w)), [&] { return s.formatted_string(); });
        }
        auto z = ctx.zero();
        c.require(z.zero() && z.conjugate().zero() && (-z).zero() && z.hermitian_type() == HermitianType::Zero, "zero-unary");
        auto z2 = ctx.zero(); z2.append({0}); z2.append({0, 1});
        c.require(z2.zero() && z2.empty(), "zero-append");
        for (size_t q = 0; q < n; ++q) for (int ph = 0; ph < 4; ++ph) for (int k = 1; k <= 3; ++k) {
            Word w(n); w.p[q] = k; w.phase = ph; auto st = static_cast<SequenceSignType>(ph); auto qn = static_cast<oper_name_t>(q);
            auto s = k == 1 ? ctx.sigmaX(qn, st) : k == 2 ? ctx.sigmaY(qn, st) : ctx.sigmaZ(qn, st);
            c.require(pref::same(ctx, w, s), mc::cat("sigma ", pref::text(w)), [&] { return s.formatted_string(); });
        }
        for (int ph = 0; ph < 4; ++ph) {
            Word w(n); w.phase = ph;
            c.require(pref::same(ctx, w, ctx.identity(static_cast<SequenceSignType>(ph))), mc::cat("identity i^", ph), [&] { return "identity"; });
        }
    }

    void pairs(mc::Ctx &c, size_t n, bool phases, size_t shard, size_t shards) {
        PauliContext ctx{n};
        auto words = pref::all_words(n, phases);
        { Word z(n); z.zero = true; words.push_back(z); }
        std::vector<OperatorSequence> seqs; for (auto &w : words) { seqs.push_back(pref::to_seq(ctx, w)); }
        for (size_t i = shard; i < words.size(); i += shards) for (size_t j = 0; j < words.size(); ++j) {
            const auto &a = words[i], &b = words[j];
            if (j % 16 == 0) { c.step("pairs n=%zu %s * %s..", n, pref::text(a).c_str(), pref::text(b).c_str()); }
            ++c.traces;
            const auto &A = seqs[i], &B = seqs[j];
            const auto ab = pref::mul(a, b);
            auto nm = [&](const char *w) { return mc::cat(w, " ", pref::text(a), " , ", pref::text(b)); };
            if (!pref::same(ctx, ab, A * B)) { c.fail(nm("multiply"), (A * B).formatted_string()); }
            OperatorSequence m{A}; m *= B;
            if (!pref::same(ctx, ab, m)) { c.fail(nm("multiply-assign"), m.formatted_string()); }
            const bool com = a.zero || b.zero || pref::commute(a, b);
            Word zero(n); zero.zero = true;
            auto cm = ctx.commutator(A, B), am = ctx.anticommutator(A, B);
            if (!pref::same(ctx, com ? zero : ab, cm)) { c.fail(nm("commutator"), cm.formatted_string()); }
            if (!pref::same(ctx, (com && !ab.zero) ? ab : zero, am)) { c.fail(nm("anticommutator"), am.formatted_string()); }
            c.transitions += 4;
            // equality is equality of the matrices (with phase)
            if ((A == B) != (a == b)) { c.fail(nm("equality"), "sequence equality disagrees with operator equality"); }
        }
        c.states += (words.size() + shards - 1 - shard) / shards;
    }

    /** Long words: every pair of {I,X}^n times {I,Y,..}^n patterns, so words exceed the inline storage. */
    void long_pairs(mc::Ctx &c, size_t n, int la, int lb, int lc) {
        PauliContext ctx{n};
        std::vector<Word> as, bs;
        mc::each_word(2, n, [&](const std::vector<int> &w) { Word x(n); for (size_t q = 0; q < n; ++q) { x.p[q] = w[q] ? la : 0; } as.push_back(x); });
        mc::each_word(2, n, [&](const std::vector<int> &w) { Word x(n); for (size_t q = 0; q < n; ++q) { x.p[q] = w[q] ? (q % 2 ? lb : lc) : 0; } x.phase = n % 4; bs.push_back(x); });
        for (auto &a : as) {
            c.step("long %s", pref::text(a).c_str());
            auto A = pref::to_seq(ctx, a);
            for (auto &b : bs) {
                ++c.traces; ++c.transitions;
                auto AB = A * pref::to_seq(ctx, b);
                if (!pref::same(ctx, pref::mul(a, b), AB)) { c.fail(mc::cat("multiply ", pref::text(a), " , ", pref::text(b)), AB.formatted_string()); }
                // the same product, reduced from the concatenated raw word
                auto ca = pref::canonical_ops(a), cb = pref::canonical_ops(b); ca.insert(ca.end(), cb.begin(), cb.end());
                if (!pref::same(ctx, pref::mul(a, b), raw_seq(ctx, ca, b.phase))) { c.fail(mc::cat("reduce-long ", mc::show(ca)), raw_seq(ctx, ca, b.phase).formatted_string()); }
            }
        }
        c.states += as.size() + bs.size();
    }

    void polys(mc::Ctx &c, size_t n, size_t shard, size_t shards) {
        PauliContext ctx{n};
        const std::vector<std::complex<double>> coef = {{1, 0}, {0, 2}, {-1, 0}, {0.5, -1}};
        auto words = pref::all_words(n, false);
        // every polynomial of one or two terms over a spread of words
        std::vector<size_t> pick;
        for (size_t i = 0; i < words.size(); ++i) { if (n == 1 || i % 3 == 1 || i == 0) { pick.push_back(i); } }
        struct P { RawPolynomial r; pref::Poly p; std::string t; };
        std::vector<P> ps; ps.push_back({});
        auto mk = [&](std::vector<std::pair<size_t, size_t>> terms) {
            P x; for (auto [w, k] : terms) { x.r.emplace_back(pref::to_seq(ctx, words[w]), coef[k]); pref::acc(x.p, words[w], coef[k]); x.t += mc::cat(coef[k], pref::text(words[w]), " "); }
            ps.push_back(x);
        };
        for (size_t a : pick) for (size_t k = 0; k < coef.size(); ++k) { mk({{a, k}}); }
        for (size_t a : pick) for (size_t b : pick) if (a < b) { mk({{a, 0}, {b, 2}}); mk({{a, 1}, {b, 3}}); }
        // unsorted
        for (size_t a : pick) for (size_t b : pick) if (a > b && (a + b) % 2) { mk({{a, 0}, {b, 1}}); }
        for (size_t i = shard; i < ps.size(); i += shards) for (size_t j = 0; j < ps.size(); ++j) {
            if (j % 16 == 0) { c.step("poly n=%zu (%s) (%s)", n, ps[i].t.c_str(), ps[j].t.c_str()); }
            ++c.traces;
            pref::Poly ab, ba, sum, diff;
            for (auto &[u, x] : ps[i].p) for (auto &[v, y] : ps[j].p) { Word a(n), b(n); a.p = u; b.p = v; pref::acc(ab, pref::mul(a, b), x * y); pref::acc(ba, pref::mul(b, a), x * y); }
            pref::Poly com = ab, ant = ab; for (auto &[k, v] : ba) { com[k] -= v; ant[k] += v; }
            sum = ps[i].p; for (auto &[k, v] : ps[j].p) { sum[k] += v; }
            diff = ps[i].p; for (auto &[k, v] : ps[j].p) { diff[k] -= v; }
            auto check = [&](const char *what, const RawPolynomial &got, const pref::Poly &want) {
                ++c.transitions;
                auto g = pref::from_real(n, got);
                bool ok = pref::eq(g, want) && got.size() == pref::clean(want).size();   // no zero or repeated terms left
                if (!ok) { c.fail(mc::cat(what, " (", ps[i].t, ") (", ps[j].t, ")"), mc::cat("got ", pref::text(g), " want ", pref::text(want), " terms=", got.size())); }
            };
            check("poly-multiply", static_cast<const Context &>(ctx).multiply(ps[i].r, ps[j].r), ab);
            check("poly-commutator", ctx.commutator(ps[i].r, ps[j].r), com);
            check("poly-anticommutator", ctx.anticommutator(ps[i].r, ps[j].r), ant);
            check("poly-add", RawPolynomial::add(ps[i].r, ps[j].r), sum);
            check("poly-subtract", RawPolynomial::subtract(ps[i].r, ps[j].r), diff);
        }
        c.states += ps.size() / shards;
    }
}

void mc::register_cases(mc::Registry &reg) {
    struct WL { size_t n, q, t; };
    for (auto w : {WL{1, 7, 9}, WL{2, 5, 6}, WL{3, 4, 5}, WL{4, 3, 4}, WL{6, 3, 3}}) {
        reg.add(cat("words-", w.n), [w](Ctx &c) { words_case(c, w.n, c.bound(w.q, w.t)); }, 900);
    }
    for (int k = 1; k <= 3; ++k) { reg.add(cat("long-pairs-", k), [k](Ctx &c) { long_pairs(c, c.bound(8, 10), k, 1 + k % 3, k == 2 ? 2 : 3); }, 900); }
    for (size_t n : {1, 2, 3, 5}) { reg.add(cat("periodic-", n), [n](Ctx &c) { periodic(c, n, n == 5 ? 2 : c.bound(3, 4), c.bound(36, 70)); }, 900); }
    for (size_t n : {1, 2, 3, 4}) { reg.add(cat("unary-", n), [n](Ctx &c) { unary(c, n); }); }
    for (size_t n : {1, 2, 3}) for (size_t s = 0; s < 4; ++s) { reg.add(cat("pairs-", n, "-", s), [n, s](Ctx &c) { pairs(c, n, true, s, 4); }); }
    for (size_t s = 0; s < 4; ++s) { reg.add(cat("pairs-4-", s), [s](Ctx &c) { pairs(c, 4, false, s, 4); }); }
    for (size_t s = 0; s < 8; ++s) { reg.deep(cat("pairs-5-", s), [s](Ctx &c) { pairs(c, 5, false, s, 8); }); }
    for (size_t s = 0; s < 2; ++s) { reg.add(cat("polys-1-", s), [s](Ctx &c) { polys(c, 1, s, 2); }); }
    for (size_t s = 0; s < 4; ++s) { reg.add(cat("polys-2-", s), [s](Ctx &c) { polys(c, 2, s, 4); }); }
}
