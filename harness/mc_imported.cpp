// P25: importing matrices of symbols into a system without operators, against the constraints the entries themselves impose.
#include "matrix_ref.h"
#include "scenarios/imported/imported_context.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "matrix_system/matrix_system_errors.h"
#include "symbolic/polynomial_factory.h"

using namespace Moment;
using Imported::ImportedMatrixSystem;
namespace {
    using cd = std::complex<double>;
    struct Entry { int id; cd f; bool conj; bool operator==(const Entry &) const = default; };
    /** 0: any matrix, 1: equal to its conjugate transpose; complex says if parts may be complex at all */
    struct Import { size_t n; bool complex, hermitian; std::vector<Entry> e;
        const Entry &at(size_t i, size_t j) const { return e[j * n + i]; }
        std::string text() const { std::ostringstream o; o << (complex ? "complex" : "real") << (hermitian ? " selfadjoint" : "") << " " << n << ":"; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { const auto &x = at(i, j); o << " " << x.f.real() << (x.f.imag() < 0 ? "-" : "+") << std::abs(x.f.imag()) << "i#" << x.id << (x.conj ? "*" : ""); } return o.str(); }
        std::unique_ptr<SquareMatrix<Monomial>> make() const { std::vector<Monomial> d; for (auto &x : e) { d.emplace_back(symbol_name_t(x.id), x.f, x.conj); } return std::make_unique<SquareMatrix<Monomial>>(n, std::move(d)); }
    };
    /** what a symbol may be: a real part, an imaginary part */
    struct Kind { bool re = true, im = true; bool operator==(const Kind &) const = default; };
    cd value(const Entry &x, cd s) { return x.id == 0 ? cd(0) : x.f * (x.conj ? std::conj(s) : s); }

    /** The reference: a system is just the parts each symbol may have, and the imported matrices. */
    struct Model {
        bool real_only = false; std::vector<Kind> symbols{{false, false}, {true, false}}; std::vector<Import> matrices;
        /** true if accepted */
        bool import(const Import &in) {
            if (real_only && in.complex) { return false; }
            auto next = symbols;
            for (auto &x : in.e) { while (next.size() <= size_t(x.id)) { next.push_back({true, !real_only}); } }
            for (auto &x : in.e) { if (!in.complex && x.id > 0) { next[size_t(x.id)].im = false; } }
            if (in.hermitian) {
                for (size_t i = 0; i < in.n; ++i) for (size_t j = 0; j < in.n; ++j) {
                    const auto &u = in.at(i, j), &l = in.at(j, i);
                    if (u.id != l.id) { return false; } if (u.id == 0) { continue; }
                    // a pure real (pure imaginary) value must satisfy the equation, or the symbol has no such part
                    if (value(l, 1.0) != std::conj(value(u, 1.0))) { next[size_t(u.id)].re = false; }
                    if (value(l, cd(0, 1)) != std::conj(value(u, cd(0, 1)))) { next[size_t(u.id)].im = false; }
                }
            }
            for (size_t s = 1; s < next.size(); ++s) { if (!next[s].re && !next[s].im) { return false; } }
            symbols = std::move(next); matrices.push_back(in); return true;
        }
    };

    struct Real {
        ImportedMatrixSystem sys; std::vector<const SymbolicMatrix *> where;
        explicit Real(bool real_only) : sys{real_only} { }
    };
    std::vector<Kind> kinds(const SymbolTable &st) { std::vector<Kind> k; for (auto &s : st) { k.push_back({!s.is_antihermitian(), !s.is_hermitian()}); } return k; }

    void check_symbols(mc::Ctx &c, const Model &m, const SymbolTable &st, const std::string &key, const std::string &me) {
        c.require(kinds(st) == m.symbols, key, [&] { std::ostringstream o; o << me << ":"; for (auto &k : kinds(st)) { o << " " << k.re << k.im; } o << " should be"; for (auto &k : m.symbols) { o << " " << k.re << k.im; } return o.str(); });
        long nr = 0, ni = 0; bool ok = st.size() == m.symbols.size(); 
        for (size_t i = 0; ok && i < st.size(); ++i) { const auto [r, q] = st[symbol_name_t(i)].basis_key(); ok = st[symbol_name_t(i)].Id() == symbol_name_t(i) && r == (m.symbols[i].re ? nr++ : -1) && q == (m.symbols[i].im ? ni++ : -1); }
        c.require(ok && st.Basis.RealSymbolCount() == size_t(nr) && st.Basis.ImaginarySymbolCount() == size_t(ni), "basis of symbols", [&] { return me; });
    }
    void check_matrix(mc::Ctx &c, const Model &m, const Import &in, const SymbolicMatrix &got, const std::string &me, bool bases) {
        const auto *mm = dynamic_cast<const MonomialMatrix *>(&got);
        if (!c.require(mm != nullptr && got.Dimension() == in.n, "shape of imported matrix", [&] { return me; })) { return; }
        bool ok = true;
        for (size_t i = 0; i < in.n; ++i) for (size_t j = 0; j < in.n; ++j) {
            const auto &want = in.at(i, j); const auto &x = mm->SymbolMatrix(i, j); ok = ok && x.id == want.id; if (want.id == 0 || !ok) { continue; }
            const auto &k = m.symbols[size_t(want.id)]; const Entry is{int(x.id), x.factor, x.conjugated};
            if (k.re) { ok = ok && value(is, 1.0) == value(want, 1.0); } if (k.im) { ok = ok && value(is, cd(0, 1)) == value(want, cd(0, 1)); }
        }
        c.require(ok, "entries of imported matrix", [&] { std::ostringstream o; for (size_t i = 0; i < in.n; ++i) for (size_t j = 0; j < in.n; ++j) { o << " " << mm->SymbolMatrix(i, j); } return me + " has" + o.str(); });
        if (in.hermitian) { c.require(got.Hermitian(), "self-adjoint import", [&] { return me; }); }
        mref::check_self(c, got, "imported matrix", me, bases, !in.hermitian);
    }

    /** apply one import to both; false after a disagreement */
    bool step(mc::Ctx &c, Model &m, Real &r, const Import &in, const std::string &hist, bool bases) {
        const bool want = m.import(in); bool got = true; std::string msg; ++c.states; ++c.traces; c.step(hist);
        try { auto [ix, mat] = r.sys.import_matrix(in.make(), in.complex, in.hermitian); r.where.push_back(&mat); c.require(ix + 1 == m.matrices.size() && &r.sys[ix] == &mat, "index of imported matrix", [&] { return hist; }); }
        catch (const Imported::errors::bad_import_matrix &e) { got = false; msg = e.what(); }
        c.count(got ? "accepted" : "rejected");
        if (!c.require(got == want, want ? "consistent import refused" : "inconsistent import taken", [&] { return mc::cat(hist, want ? " refused: " + msg : std::string(" accepted")); })) { return false; }
        check_symbols(c, m, r.sys.Symbols(), got ? "symbols after import" : "symbols after rejected import", hist);
        c.require(r.sys.size() == m.matrices.size(), "matrices after import", [&] { return hist; });
        for (size_t k = 0; k < m.matrices.size(); ++k) { c.require(&r.sys[k] == r.where[k], "matrix moved", [&] { return hist; }); check_matrix(c, m, m.matrices[k], r.sys[k], mc::cat(hist, " [matrix ", k, "]"), bases); }
        return true;
    }

    std::vector<Entry> entries(const std::vector<int> &ids, const std::vector<cd> &factors) {
        std::vector<Entry> o; for (int id : ids) { if (id == 0) { o.push_back({0, 1.0, false}); continue; } for (auto f : factors) for (int cj = 0; cj < (id == 1 ? 1 : 2); ++cj) { o.push_back({id, f, cj != 0}); } } return o;
    }
    const cd I{0, 1};
    struct Mode { bool context_real, complex, hermitian; };
    const std::vector<Mode> modes{{false, true, false}, {false, true, true}, {false, false, false}, {false, false, true}, {true, false, false}, {true, false, true}, {true, true, true}, {true, true, false}};

    /** every 2x2 matrix of the alphabet into a fresh system */
    void single(mc::Ctx &c, const Mode &md, const std::vector<Entry> &alpha) {
        const size_t N = alpha.size();
        for (auto &a : alpha) { Model m; m.real_only = md.context_real; Real r{md.context_real}; Import in{1, md.complex, md.hermitian, {a}}; step(c, m, r, in, in.text(), true); }
        for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) for (size_t d = 0; d < N; ++d) for (size_t e = 0; e < N; ++e) {
            Model m; m.real_only = md.context_real; Real r{md.context_real}; Import in{2, md.complex, md.hermitian, {alpha[a], alpha[b], alpha[d], alpha[e]}};
            step(c, m, r, in, in.text(), (a + b + d + e) % 7 == 0 || m.symbols.size() > 3);
        }
    }
    /** 3x3 self-adjoint patterns: each off-diagonal pair from the alphabet, diagonals fixed */
    void three(mc::Ctx &c, const Mode &md, const std::vector<std::pair<Entry, Entry>> &pairs) {
        const Entry one{1, 1.0, false};
        for (auto &p : pairs) for (auto &q : pairs) for (auto &s : pairs) { Model m; m.real_only = md.context_real; Real r{md.context_real}; Import in{3, md.complex, md.hermitian, {one, p.second, q.second, p.first, one, s.second, q.first, s.first, one}}; step(c, m, r, in, in.text(), false); }
    }
    /** every sequence of imports of the given length */
    void histories(mc::Ctx &c, bool context_real, const std::vector<Import> &alpha, size_t length, const Import *first = nullptr) {
        std::vector<size_t> ix(length, 0);
        for (;;) {
            Model m; m.real_only = context_real; Real r{context_real}; std::string hist = context_real ? "real system; " : "system; ";
            if (first) { hist += first->text() + "; "; step(c, m, r, *first, hist, true); } // all symbols exist from then on: every basis is asked for after every step
            for (size_t k = 0; k < length; ++k) { hist += alpha[ix[k]].text() + "; "; if (!step(c, m, r, alpha[ix[k]], hist, first || k + 1 == length)) { break; } }
            size_t k = length; while (k > 0 && ++ix[k - 1] == alpha.size()) { ix[--k] = 0; } if (k == 0) { return; }
        }
    }
    /** imports whose off-diagonal pair and diagonal are drawn from small lists */
    std::vector<Import> imports(const std::vector<Entry> &diag, const std::vector<std::pair<Entry, Entry>> &pairs, const std::vector<std::pair<bool, bool>> &how) {
        std::vector<Import> o; for (auto [cx, h] : how) { for (auto &d : diag) { o.push_back({1, cx, h, {d}}); } for (auto &p : pairs) { o.push_back({2, cx, h, {{1, 1.0, false}, p.second, p.first, {1, 1.0, false}}}); } } return o;
    }
    std::vector<std::pair<Entry, Entry>> pairs_of(const std::vector<Entry> &a, bool same) { std::vector<std::pair<Entry, Entry>> o; for (auto &x : a) for (auto &y : a) { if (!same || x.id == y.id) { o.emplace_back(x, y); } } return o; }

    void generators(mc::Ctx &c) {
        for (bool ro : {false, true}) { Real r{ro}; Model m; m.real_only = ro;
            for (int k = 0; k < 3; ++k) {
                auto refuses = [&](const char *what, auto &&f) { bool threw = false; try { f(); } catch (const std::exception &) { threw = true; } c.require(threw, "operator matrix made without operators", [&] { return mc::cat(what, " after ", k, " imports"); }); check_symbols(c, m, r.sys.Symbols(), "symbols after refusal", what); c.require(r.sys.size() == m.matrices.size(), "matrices after refusal", [&] { return what; }); };
                for (size_t L : {0u, 1u, 2u}) { refuses("moment matrix", [&] { r.sys.MomentMatrix.create(L, Multithreading::MultiThreadPolicy::Never); }); refuses("polynomial localizing matrix", [&] { auto &pf = r.sys.polynomial_factory(); r.sys.PolynomialLocalizingMatrix.create({L, pf({Monomial{1}})}, Multithreading::MultiThreadPolicy::Never); }); }
                step(c, m, r, {2, !ro, true, {{1, 1.0, false}, {2 + k, 1.0, true}, {2 + k, 1.0, false}, {1, 1.0, false}}}, mc::cat("after refusals ", k), k == 2);
            } }
    }
}

void mc::register_cases(mc::Registry &reg) {
    for (size_t k = 0; k < modes.size(); ++k) {
        const auto md = modes[k]; const auto name = mc::cat(md.context_real ? "real-system" : "system", md.complex ? "-complex" : "-real", md.hermitian ? "-selfadjoint" : "-any");
        for (int part = 0; part < 3; ++part) { // three alphabets
            reg.add("single-" + name + "-" + std::to_string(part), [md, part](mc::Ctx &c) {
                std::vector<cd> f = md.complex ? (part == 0 ? std::vector<cd>{1.0, -1.0} : part == 1 ? std::vector<cd>{I, -I} : std::vector<cd>{2.0, cd(1, 1)}) : part == 0 ? std::vector<cd>{1.0, -1.0} : part == 1 ? std::vector<cd>{1.0, 2.0} : std::vector<cd>{-0.5, 0.5};
                auto ids = c.quick() ? std::vector<int>{0, 1, 2, 3} : std::vector<int>{0, 1, 2, 3, 5}; if (!c.quick() && md.complex && part == 0) { f = {1.0, -1.0, I}; }
                single(c, md, entries(ids, f));
            }, 600);
        }
        if (md.hermitian) { reg.add("three-" + name, [md](mc::Ctx &c) { three(c, md, pairs_of(entries({2, 3}, c.quick() ? (md.complex ? std::vector<cd>{1.0, I} : std::vector<cd>{1.0, -1.0}) : md.complex ? std::vector<cd>{1.0, -1.0, I} : std::vector<cd>{1.0, -1.0, 2.0}), true)); }, 600); }
    }
    for (bool ro : {false, true}) {
        const std::string me = ro ? "real-system-" : "system-";
        reg.add(me + "two-imports", [ro](mc::Ctx &c) {
            const auto d = entries({0, 1, 2, 3}, {1.0, -1.0, I}); const auto p = pairs_of(entries({2, 3}, {1.0, -1.0, I}), true);
            std::vector<Import> a = imports(entries({2, 3, 4}, {1.0, I}), c.quick() ? pairs_of(entries({2, 3}, {1.0, I}), true) : p, {{true, false}, {true, true}}); const auto rl = imports(entries({2, 3, 4}, {1.0, -1.0}), pairs_of(entries({2, 3}, {1.0, -1.0}), true), {{false, false}, {false, true}}); a.insert(a.end(), rl.begin(), rl.end());
            histories(c, ro, a, 2);
        }, 800);
        reg.add(me + "three-imports", [ro](mc::Ctx &c) {
            // per symbol: unconstrained, made real, made imaginary, contradictory; sharing and not sharing symbols; a gap in the numbering
            std::vector<Import> a;
            for (int s : {2, 3}) { a.push_back({1, true, false, {{s, 1.0, true}}}); a.push_back({1, true, true, {{s, 1.0, false}}}); a.push_back({1, true, true, {{s, I, false}}}); a.push_back({2, true, true, {{1, 1.0, false}, {s, -1.0, false}, {s, 1.0, false}, {1, 1.0, false}}}); a.push_back({2, true, true, {{1, 1.0, false}, {s, 1.0, true}, {s, 1.0, false}, {1, 1.0, false}}}); a.push_back({1, false, false, {{s, -1.0, true}}}); a.push_back({2, false, true, {{s, 1.0, false}, {5 - s, 1.0, false}, {5 - s, 1.0, false}, {0, 1.0, false}}}); a.push_back({2, true, false, {{s, 1.0, false}, {5 - s, I, true}, {s, -2.0, true}, {1, 1.0, false}}}); }
            a.push_back({2, true, true, {{5, 1.0, false}, {2, -1.0, false}, {2, 1.0, false}, {1, 1.0, false}}}); a.push_back({2, true, true, {{1, 1.0, false}, {6, 1.0, false}, {7, 1.0, false}, {1, 1.0, false}}}); a.push_back({1, true, true, {{1, I, false}}}); a.push_back({0, true, true, {}}); 
            histories(c, ro, a, c.bound(3u, 4u));
        }, 800);
    }
    reg.add("bases-after-every-import", [](mc::Ctx &c) {
        std::vector<Import> a; const Entry one{1, 1.0, false};
        for (int s : {2, 3, 4}) { a.push_back({1, true, false, {{s, 1.0, true}}}); a.push_back({1, true, true, {{s, 1.0, false}}}); a.push_back({1, true, true, {{s, I, false}}}); a.push_back({2, true, true, {one, {s, -1.0, false}, {s, 1.0, false}, one}}); a.push_back({2, false, true, {{s, 1.0, false}, {2 + (s - 1) % 3, 1.0, false}, {2 + (s - 1) % 3, 1.0, false}, {0, 1.0, false}}}); }
        for (const Import &first : {Import{2, true, false, {{2, 1.0, false}, {3, 1.0, true}, {4, -1.0, false}, one}}, Import{2, true, true, {one, {4, 1.0, true}, {4, 1.0, false}, one}}, Import{2, true, false, {{2, I, true}, {3, I, false}, {4, 2.0, true}, {3, 1.0, true}}}}) { histories(c, false, a, c.bound(2u, 3u), &first); }
    }, 800);
    reg.add("no-operators", generators, 120);
}
