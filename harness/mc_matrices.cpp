// P06: moment, localizing and (anti)commutator matrices, against sums and products of words in the reference algebra.
#include "matrix_ref.h"
#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_osg.h"

using namespace Moment;
using namespace mref;
using MTP = Multithreading::MultiThreadPolicy;

namespace {
    struct Req { std::string name; std::function<void(MatrixSystem &, mc::Ctx &)> run; };

    Expected sandwich(const World &w, std::vector<Elem> g, Elem mid) {
        std::vector<Elem> left; for (auto &x : g) { left.push_back(w.mul(w.conj(x), mid)); }
        return [&w, g = std::move(g), left = std::move(left)](size_t i, size_t j) { return w.expect(w.mul(left[i], g[j])); };
    }
    Expected bracket(const World &w, std::vector<Elem> g, Elem mid, double sign) {
        std::vector<Elem> left; for (auto &x : g) { left.push_back(w.conj(x)); }
        return [&w, g = std::move(g), left = std::move(left), mid = std::move(mid), sign](size_t i, size_t j) { auto x = w.mul(left[i], g[j]); return w.expect(World::add(w.mul(x, mid), w.mul(mid, x), sign)); };
    }
    /** words to localize with: all canonical words of up to a length, limited to a spread of n */
    std::vector<Raw> localizers(const World &w, size_t len, size_t n) {
        auto all = w.canonical(len); if (all.size() <= n) { return all; }
        std::vector<Raw> out; const size_t stride = (all.size() + n - 1) / n; for (size_t i = 0; i < all.size(); ++i) { if (i < 4 || i % stride == 0 || i + 1 == all.size()) { out.push_back(all[i]); } }
        return out;
    }
    RawPolynomial raw_poly(const World &w, const Context &ctx, const Elem &e) { RawPolynomial p; for (auto &[k, v] : e) { p.emplace_back(w.seq(ctx, k), v); } return p; }

    /** polynomials over a few words with a spread of real, imaginary, complex, repeated and conjugate-paired coefficients */
    std::vector<Elem> polynomials(const World &w, const std::vector<Raw> &pick, size_t limit) {
        std::vector<Elem> out; const cd I(0, 1); const std::vector<cd> coef{1.0, -2.0, I, cd(1, -1)};
        for (auto &a : pick) for (auto &b : pick) for (auto &x : coef) for (auto &y : coef) {
            Elem e; e[a] += x; e[b] += y; e = tidy(e); if (e.empty()) { continue; } out.push_back(e);
            if (a == b) { Elem h = World::add(w.word(a, x), w.conj(w.word(a, x))); if (!h.empty()) { out.push_back(h); } Elem k = World::add(w.word(a, x), w.conj(w.word(a, x)), -1.0); if (!k.empty()) { out.push_back(k); } Elem t = h; t[{}] += y; t = tidy(t); if (!t.empty()) { out.push_back(t); } }
        }
        if (out.size() <= limit) { return out; }
        std::vector<Elem> few; const size_t stride = out.size() / limit + 1; for (size_t i = 0; i < out.size(); i += stride) { few.push_back(out[i]); } return few;
    }

    const char *policy_name(MTP p) { return p == MTP::Always ? "threads" : "single"; }

    void world_case(mc::Ctx &c, const World &w) {
        // moment matrices: each level on its own and after the others
        for (int order = 0; order < 2; ++order) {
            auto sys = w.make();
            for (int k = 0; k <= w.level; ++k) {
                const int level = order ? w.level - k : k; const std::string what = mc::cat(w.name, order ? " descending" : "", " moment matrix ", level); c.step("%s", what.c_str());
                const auto g = generators(*sys, size_t(level));
                auto [id, m] = sys->MomentMatrix.create(size_t(level), MTP::Never);
                check_matrix(c, w, m, g.size(), sandwich(w, g, Elem{{{}, 1.0}}), w.name + " moment", what); ++c.traces;
                c.require(&sys->get(id) == &m && &sys->MomentMatrix(size_t(level)) == &m, w.name + " moment index", [&] { return what; });
            }
        }
        // localizing matrices with words, in a fresh system and in a shared one; with every phase
        auto shared = w.make(); const auto words = localizers(w, size_t(std::min(3, w.words)), c.bound(24, 200));
        for (int level = 0; level <= std::min(w.level, c.bound(1, 2)); ++level) for (auto &x : words) for (int ph = 0; ph < 4; ++ph) {
            const std::string what = mc::cat(w.name, " localizing ", level, " i^", ph, mc::show(x)); c.step("%s", what.c_str());
            auto sys = w.make(); const auto g = generators(*sys, size_t(level));
            const auto mid = w.word(x, pref::iphase(ph));
            auto [id, m] = sys->LocalizingMatrix.create(LocalizingMatrixIndex{size_t(level), w.seq(sys->Context(), x, ph)}, MTP::Never);
            check_matrix(c, w, m, g.size(), sandwich(w, g, mid), mc::cat(w.name, " localizing", ph ? " phase" : ""), what, ph == 0 || x.size() < 2); ++c.traces;
            auto [id2, m2] = shared->LocalizingMatrix.create(LocalizingMatrixIndex{size_t(level), w.seq(shared->Context(), x, ph)}, MTP::Never);
            check_matrix(c, w, m2, g.size(), sandwich(w, g, mid), mc::cat(w.name, " shared localizing"), what + " (one system)", false); ++c.traces;
        }
        // localizing matrices with polynomials
        auto pick = localizers(w, size_t(std::min(2, w.words)), c.bound(4, 8));
        size_t number = 0;
        for (auto &e : polynomials(w, pick, size_t(c.bound(60, 600)))) for (int level = 0; level <= std::min(w.level, 1); ++level) {
            const std::string what = mc::cat(w.name, " localizing ", level, " ", text(e)); c.step("%s", what.c_str());
            auto sys = w.make(); const auto g = generators(*sys, size_t(level));
            if (number++ % 3 == 0) { (void) sys->MomentMatrix.create(1, MTP::Never); }
            const auto raw = raw_poly(w, sys->Context(), e);
            auto [id, m] = sys->create_and_register_localizing_matrix(size_t(level), raw, MTP::Never);
            check_matrix(c, w, m, g.size(), sandwich(w, g, e), w.name + " polynomial-localizing", what, number % 2 == 0); ++c.traces;
            if (!w.aliases) {   // polynomials of symbols cannot tell words with the same moment apart
                auto poly = sys->polynomial_factory().construct(raw);
                auto [id2, m2] = sys->PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{size_t(level), poly}, MTP::Never);
                check_matrix(c, w, m2, g.size(), sandwich(w, g, e), w.name + " polynomial-localizing index", what + " (symbolic)", false); ++c.traces;
            }
        }
    }

    void pauli_case(mc::Ctx &c, const World &w, int level, int neighbours, size_t max_words, size_t max_polys) {
        auto shared = w.make();
        const auto gens = [&](MatrixSystem &s) { std::vector<Elem> g; for (auto &q : dynamic_cast<const Pauli::PauliContext &>(s.Context()).pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{size_t(level), size_t(neighbours)})()) { g.push_back(World::elem(q)); } return g; };
        auto mm = [&](const std::string &kind, const std::string &detail, auto &&make, auto &&expected, bool bases) {
            for (int sh = 0; sh < 2; ++sh) {
                auto fresh = w.make(); MatrixSystem &base = sh ? *shared : *fresh; auto &sys = dynamic_cast<Pauli::PauliMatrixSystem &>(base);
                const auto g = gens(sys); const std::string what = mc::cat(w.name, " level ", level, " neighbours ", neighbours, " ", kind, " ", detail, sh ? " (one system)" : ""); c.step("%s", what.c_str());
                const SymbolicMatrix &m = make(sys);
                check_matrix(c, w, m, g.size(), expected(g), mc::cat(w.name, " ", kind, sh ? " shared" : ""), what, bases && !sh); ++c.traces;
            }
        };
        const size_t L = size_t(level), N = size_t(neighbours);
        mm("moment", "", [&](auto &s) -> const SymbolicMatrix & { return s.PauliMomentMatrices.create(Pauli::MomentMatrixIndex{L, N}, MTP::Never).second; }, [&](auto &g) { return sandwich(w, g, Elem{{{}, 1.0}}); }, true);
        for (auto &x : localizers(w, size_t(w.words), max_words)) for (int ph = 0; ph < 4; ++ph) {
            const auto mid = w.word(x, pref::iphase(ph)); const std::string d = mc::cat("i^", ph, mc::show(x)), suffix = ph ? " phase" : "";
            auto sq = [&](auto &s) { return w.seq(s.Context(), x, ph); };
            mm("localizing" + suffix, d, [&](auto &s) -> const SymbolicMatrix & { return s.PauliLocalizingMatrices.create(Pauli::LocalizingMatrixIndex{L, N, sq(s)}, MTP::Never).second; }, [&](auto &g) { return sandwich(w, g, mid); }, ph == 0);
            mm("commutator" + suffix, d, [&](auto &s) -> const SymbolicMatrix & { return s.CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{L, N, sq(s)}, MTP::Never).second; }, [&](auto &g) { return bracket(w, g, mid, -1); }, true);
            mm("anticommutator" + suffix, d, [&](auto &s) -> const SymbolicMatrix & { return s.AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{L, N, sq(s)}, MTP::Never).second; }, [&](auto &g) { return bracket(w, g, mid, 1); }, true);
        }
        auto pick = localizers(w, size_t(std::min(2, w.words)), size_t(c.bound(4, 8)));
        for (auto &e : polynomials(w, pick, max_polys)) {
            const Pauli::NearestNeighbourIndex nn{L, N};
            mm("polynomial-localizing", text(e), [&](auto &s) -> const SymbolicMatrix & { return s.create_and_register_localizing_matrix(nn, raw_poly(w, s.Context(), e), MTP::Never).second; }, [&](auto &g) { return sandwich(w, g, e); }, false);
            mm("polynomial-commutator", text(e), [&](auto &s) -> const SymbolicMatrix & { return s.create_and_register_commutator_matrix(nn, raw_poly(w, s.Context(), e), MTP::Never).second; }, [&](auto &g) { return bracket(w, g, e, -1); }, true);
            mm("polynomial-anticommutator", text(e), [&](auto &s) -> const SymbolicMatrix & { return s.create_and_register_anticommutator_matrix(nn, raw_poly(w, s.Context(), e), MTP::Never).second; }, [&](auto &g) { return bracket(w, g, e, 1); }, false);
        }
    }
}

void mc::register_cases(mc::Registry &reg) {
    for (auto &w : catalogue(reg.quick())) {
        reg.add("world-" + w.name, [w](Ctx &c) { world_case(c, w); c.sample(w.name); }, reg.quick() ? 300 : 4000);
    }
    struct P { int h, w; bool lat, wrap, sym; int level, nn; };
    std::vector<P> ps{{1, 1, false, false, false, 1, 0}, {2, 1, false, false, false, 1, 0}, {2, 1, false, false, false, 2, 0}, {3, 1, false, false, false, 2, 1}, {3, 1, false, true, false, 2, 1}, {4, 1, false, true, true, 2, 1}, {4, 1, false, true, true, 1, 0},
                      {4, 1, false, false, true, 2, 1}, {5, 1, false, true, true, 2, 2}, {2, 2, true, false, false, 1, 0}, {2, 2, true, true, true, 1, 0}, {2, 2, true, false, true, 2, 1}, {2, 3, true, true, true, 1, 0}, {3, 3, true, true, true, 1, 0}};
    for (auto &p : ps) {
        auto w = pauli(p.h, p.w, p.lat, p.wrap, p.sym, p.level, p.h * p.w <= 2 ? 2 : (p.level == 1 ? 2 : 1));
        reg.add(mc::cat("pauli-", w.name, "-L", p.level, "n", p.nn), [w, p](Ctx &c) { const bool big = p.nn >= 2; pauli_case(c, w, p.level, p.nn, size_t(c.bound(big ? 2 : 5, big ? 6 : 40)), size_t(c.bound(big ? 3 : 24, big ? 24 : 240))); }, reg.quick() ? 300 : 4000);
    }
}
