// P19: symmetrised matrix systems and their maps, against averages worked out letter by letter.
#include "group_ref.h"
#include "matrix_ref.h"
#include "multithreading/multithreading.h"
#include "scenarios/derived/derived_errors.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"

using namespace gref;
using world::Expr;
using Policy = Moment::Multithreading::MultiThreadPolicy;

namespace {
    Elem average(const World &w, const std::vector<Subst> &group, const Elem &e) { Elem o; for (auto &g : group) { for (auto &[x, c] : image(w, g, e)) { o[x] += c / double(group.size()); } } return world::tidy(o); }

    struct Setup { const World &w; const std::vector<Subst> &group; const SymbolTable &origin, &target; const Derived::SymbolTableMap &map; };
    /** value of a target polynomial, read through the inverse map */
    Expr value(const Setup &s, const Monomial &m) {
        Expr o = s.w.expr(s.origin, s.map.inverse(m.id)); if (m.conjugated) { o = s.w.conj(o); } for (auto &[k, v] : o) { v *= m.factor; } return world::tidy(o);
    }
    Expr value(const Setup &s, const Polynomial &p) { Expr o; for (auto &m : p) { for (auto &[k, v] : value(s, m)) { o[k] += v; } } return world::tidy(o); }

    /** are the target symbols, and the conjugates of those that have one of their own, independent functions of the moments? */
    bool independent(const Setup &s) {
        std::map<std::pair<Raw, bool>, int> pos; std::vector<Expr> rows;
        for (size_t y = 1; y < s.target.size(); ++y) { const auto &sym = s.target[symbol_name_t(y)]; const Expr v = y == 1 ? Expr{{{Raw{}, false}, 1.0}} : s.w.expr(s.origin, s.map.inverse(symbol_name_t(y))); rows.push_back(v); if (!sym.is_hermitian() && !sym.is_antihermitian()) { rows.push_back(s.w.conj(v)); } }
        for (auto &r : rows) for (auto &[k, v] : r) { pos.emplace(k, int(pos.size())); }
        Eigen::MatrixXcd m = Eigen::MatrixXcd::Zero(int(rows.size()), int(pos.size()));
        for (size_t i = 0; i < rows.size(); ++i) { for (auto &[k, v] : rows[i]) { m(int(i), pos[k]) += v; } const double n = m.row(int(i)).norm(); if (n > 1e-14) { m.row(int(i)) /= n; } }
        return Eigen::FullPivLU<Eigen::MatrixXcd>(m).setThreshold(1e-9).rank() == int(rows.size());
    }

    void check_system(mc::Ctx &c, const World &w, const std::vector<Subst> &gens, size_t L, size_t longer, size_t bound, const std::string &name) {
        const auto elems = closure(w, gens, bound); if (elems.empty()) { return; }
        // the group must also respect the identification of moments
        if (w.aliases) { for (auto &u : w.canonical(L)) { if (const Raw m = w.moment(u); m != u && !world::eq(w.expect(average(w, elems, w.word(u))), w.expect(average(w, elems, w.word(m))))) { c.count("not a symmetry of the moments"); return; } } }
        c.step("%s L=%zu", name.c_str(), L); ++c.states; c.count("group elements", elems.size());
        std::shared_ptr<MatrixSystem> base = w.make(); const Context &ctx = base->Context();
        // in some histories the base system already knows longer words than the map will
        base->generate_dictionary(longer ? longer : L);
        ptrdiff_t long_matrix = -1;
        if (longer) { auto [i, m] = base->MomentMatrix.create(longer / 2, Policy::Never); long_matrix = ptrdiff_t(i); }
        const auto letters = basis(ctx, 1); std::vector<repmat_t> g; for (auto &s : gens) { g.push_back(sparse(*matrix(w, s, letters))); }
        auto grp = std::make_unique<Group>(ctx, std::make_unique<Representation>(1, Group::dimino_generation(g, bound + 1)));
        SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(base), std::move(grp), L, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, Policy::Never);
        const auto &map = sms.map(); const Setup s{w, elems, base->Symbols(), sms.Symbols(), map};
        const std::string key = mc::cat("sym ", w.name);
        c.require(sms.longest_supported_word() == L, "longest-word", [&] { return name; });
        // forward: average
        const std::vector<cd> factors{1.0, -1.0, cd(0, 1), cd(2, -1)};
        for (size_t id = 0; id < s.origin.size(); ++id) {
            const auto &sym = s.origin[symbol_name_t(id)]; const Elem e = id == 0 ? Elem{} : World::elem(sym.sequence());
            const bool too_long = id > 1 && sym.sequence().size() > L;
            if (too_long) {
                bool threw = false; try { (void)map(symbol_name_t(id)); } catch (const Moment::errors::bad_map &) { threw = true; }
                c.require(threw, key + " too-long-symbol", [&] { return mc::cat(name, " L=", L, ": symbol ", id, " has ", sym.sequence().size(), " letters but is mapped to ", world::text(value(s, map(symbol_name_t(id))))); }); continue;
            }
            const Elem avg = average(w, elems, e); const Expr want = w.expect(avg); const Polynomial &p = map(symbol_name_t(id)); ++c.traces;
            if (!c.require(world::eq(value(s, p), want), key + " average", [&] { return mc::cat(name, " L=", L, ": <", world::text(e), "> maps to ", world::text(value(s, p)), ", average is ", world::text(want)); })) { continue; }
            for (auto f : factors) for (bool cj : {false, true}) {
                Expr x = cj ? w.conj(want) : want; for (auto &[k, v] : x) { v *= f; }
                const Polynomial q = map(Monomial{symbol_name_t(id), f, cj});
                c.require(world::eq(value(s, q), x), key + " factor-conjugate", [&] { return mc::cat(name, ": ", f, cj ? "*conj" : "", " of symbol ", id, " maps to ", world::text(value(s, q)), ", expected ", world::text(x)); });
            }
        }
        c.require(map(symbol_name_t(0)).empty() && map(symbol_name_t(1)) == Polynomial::Scalar(1.0), key + " constants", [&] { return name; });
        for (symbol_name_t id : {symbol_name_t(-1), symbol_name_t(s.origin.size()), symbol_name_t(s.origin.size() + 7)}) { bool threw = false; try { (void)map(id); } catch (const Moment::errors::bad_map &) { threw = true; } c.require(threw, key + " out-of-range", [&] { return mc::cat(name, " symbol ", id); }); }
        // inverse, target symbols
        c.require(map.inv_size() == s.target.size() && s.target.size() >= 2, key + " target-size", [&] { return mc::cat(name, ": ", map.inv_size(), " vs ", s.target.size()); });
        for (symbol_name_t y : {symbol_name_t(-1), symbol_name_t(map.inv_size())}) { bool threw = false; try { (void)map.inverse(y); } catch (const Moment::errors::bad_map &) { threw = true; } c.require(threw, key + " inverse-out-of-range", [&] { return mc::cat(name, " symbol ", y); }); }
        c.require(map.inverse(symbol_name_t(0)).empty() && map.inverse(symbol_name_t(1)) == Polynomial::Scalar(1.0), key + " inverse-constants", [&] { return name; });
        const bool redundant = !independent(s);
        for (size_t y = 2; y < map.inv_size() && y < s.target.size(); ++y) {
            ++c.states; const Expr v = w.expr(s.origin, map.inverse(symbol_name_t(y))), cv = w.conj(v); Expr neg = v; for (auto &[k, x] : neg) { x = -x; }
            const auto &sym = s.target[symbol_name_t(y)];
            c.require(sym.is_hermitian() == world::eq(v, cv), key + " target-hermitian", [&] { return mc::cat(name, ": target symbol ", y, " = ", world::text(v), " is marked Hermitian=", sym.is_hermitian()); });
            c.require(sym.is_antihermitian() == world::eq(neg, cv), key + " target-antihermitian", [&] { return mc::cat(name, ": target symbol ", y, " = ", world::text(v), " is marked anti-Hermitian=", sym.is_antihermitian()); });
            for (auto f : factors) for (bool cj : {false, true}) { Expr x = cj ? cv : v; for (auto &[k, z] : x) { z *= f; } const Expr got = w.expr(s.origin, map.inverse(Monomial{symbol_name_t(y), f, cj})); c.require(world::eq(got, x), key + " inverse-factor", [&] { return mc::cat(name, ": inverse of ", f, cj ? "*conj" : "", " ", y, " is ", world::text(got), ", expected ", world::text(x)); }); }
            // forward after inverse
            const Polynomial round = map(map.inverse(symbol_name_t(y))); ++c.traces;
            auto lin = [&](const Polynomial &p) { std::map<std::pair<symbol_name_t, bool>, cd> o; for (auto &m : p) { o[{m.id, m.conjugated && !s.target[m.id].is_hermitian() && !s.target[m.id].is_antihermitian()}] += m.conjugated && s.target[m.id].is_antihermitian() ? -m.factor : m.factor; } return world::tidy(o); };
            const auto got = lin(round); const bool ok = got.size() == 1 && got.begin()->first == std::pair{symbol_name_t(y), false} && std::abs(got.begin()->second - 1.0) < 1e-9;
            if (redundant) { ++c.transitions; if (!ok) { c.count("redundant symbols"); } continue; }
            c.require(ok, mc::cat(key, " round-trip"), [&] { std::stringstream ss; for (auto &[k, x] : got) { ss << x << "*" << k.first << (k.second ? "* " : " "); } return mc::cat("target symbol ", y, " = ", world::text(v), " comes back as ", ss.str()); });
        }
        // matrices
        auto check_matrix = [&](const SymbolicMatrix &m, size_t dim, const std::function<Elem(size_t, size_t)> &entry, const std::string &what) {
            ++c.traces; if (!c.require(m.Dimension() == dim, key + " dimension", [&] { return what; })) { return; }
            for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) {
                Expr got; for (auto &[id, f, cj] : mref::terms(m, i, j)) { for (auto &[k, v] : value(s, Monomial{id, f, cj})) { got[k] += v; } }
                const Expr want = w.expect(average(w, elems, entry(i, j)));
                if (!c.require(world::eq(world::tidy(got), want), key + " matrix-entry", [&] { return mc::cat(name, " ", what, " (", i, ",", j, ") = ", world::text(world::tidy(got)), ", average is ", world::text(want)); })) { return; }
            }
            mref::check_self(c, m, key + " matrix", what, true, true);
        };
        auto too_long = [&](auto f, const std::string &what) { bool threw = false; try { f(); } catch (const Moment::errors::too_large_to_transform_error &) { threw = true; } c.require(threw, key + " too-large", [&] { return mc::cat(name, " L=", L, " ", what); }); };
        for (size_t level = 0; level <= L / 2 + 1; ++level) {
            const auto gen = mref::generators(*base, level); const auto what = mc::cat("moment matrix ", level);
            if (2 * level > L) { too_long([&] { (void)sms.MomentMatrix.create(level, Policy::Never); }, what); continue; }
            auto [i, m] = sms.MomentMatrix.create(level, Policy::Never);
            check_matrix(m, gen.size(), [&](size_t r, size_t q) { return w.mul(w.conj(gen[r]), gen[q]); }, what);
            auto [bi, bm] = base->MomentMatrix.create(level, Policy::Never); auto [di, dm] = sms.DerivedMatrices.create(bi, Policy::Never);
            c.require(size_t(di) == size_t(i) && &dm == &m, key + " derived-index", [&] { return mc::cat(name, " ", what, ": as derived matrix ", di, ", as moment matrix ", i); });
        }
        for (int o = 0; o < std::min(w.ops, 3); ++o) for (size_t level = 0; level <= (L + 1) / 2; ++level) {
            const OperatorSequence word = w.seq(ctx, {o}); if (word.zero() || word.size() != 1) { continue; } const auto gen = mref::generators(*base, level); const auto what = mc::cat("localizing matrix ", o, " level ", level);
            if (2 * level + 1 > L) { too_long([&] { (void)sms.LocalizingMatrix.create(LocalizingMatrixIndex{level, word}, Policy::Never); }, what); continue; }
            auto [i, m] = sms.LocalizingMatrix.create(LocalizingMatrixIndex{level, word}, Policy::Never);
            check_matrix(m, gen.size(), [&](size_t r, size_t q) { return w.mul(w.mul(w.conj(gen[r]), w.word({o})), gen[q]); }, what);
        }
        // the other way round: the base matrix first, then its image
        if (L >= 2) {
            const auto gen = mref::generators(*base, 0); const OperatorSequence word = w.seq(ctx, {0, w.ops > 1 ? 1 : 0});
            if (!word.zero()) { auto [bi, bm] = base->LocalizingMatrix.create(LocalizingMatrixIndex{0, word}, Policy::Never); auto [di, dm] = sms.DerivedMatrices.create(bi, Policy::Never); check_matrix(dm, gen.size(), [&](size_t, size_t) { return World::elem(word); }, "image of localizing matrix of a word"); }
        }
        if (long_matrix >= 0) {
            const auto gen = mref::generators(*base, longer / 2); bool any = false; for (auto &r : gen) for (auto &q : gen) { for (auto &[x, v] : w.mul(w.conj(r), q)) { any = any || x.size() > L; } }
            bool threw = !any; try { if (any) { (void)sms.DerivedMatrices.create(long_matrix, Policy::Never); } } catch (const std::runtime_error &) { threw = true; }
            c.require(threw, key + " too-long-matrix", [&] { return mc::cat(name, " L=", L, ": image of the moment matrix of level ", longer / 2, " was made, though its words are longer than the map knows"); });
        }
        bool threw = false; try { (void)sms.DerivedMatrices.create(ptrdiff_t(base->size()) + 3, Policy::Never); } catch (const std::runtime_error &) { threw = true; } c.require(threw, key + " no-such-matrix", [&] { return name; });
    }

    void check_world(mc::Ctx &c, const World &w, bool signs, bool flips, size_t upto, size_t maxL, size_t bound, size_t pairs, size_t singles = 100000) {
        const auto autos = automorphisms(w, upto, signs, flips); size_t n = 0, m = 0;
        for (size_t i = 0; i < autos.size() && m < singles; ++i) { ++m;
            for (size_t L = 1; L <= maxL; ++L) { check_system(c, w, {autos[i]}, L, 0, bound, mc::cat(w.name, " ", gref::text(autos[i]))); }
            check_system(c, w, {autos[i]}, 2, 4, bound, mc::cat(w.name, " longer-known ", gref::text(autos[i])));
            for (size_t j = i + 1; j < autos.size() && n < pairs; ++j) { ++n; check_system(c, w, {autos[i], autos[j]}, maxL, 0, bound, mc::cat(w.name, " ", gref::text(autos[i]), gref::text(autos[j]))); }
        }
    }
    Subst rotation(const World &w, int a, int b, int n) { Subst s; for (int o = 0; o < w.ops; ++o) { s.push_back(w.word({o})); } const double t = 2 * M_PI / n; s[size_t(a)] = World::add(w.word({a}, std::cos(t)), w.word({b}, std::sin(t))); s[size_t(b)] = World::add(w.word({a}, -std::sin(t)), w.word({b}, std::cos(t))); return s; }
}

/** The number of target symbols that do not survive the round trip because there are more of them than invariant moments. */
static void add(mc::Registry &reg, const std::string &name, mc::Body body, double limit) {
    reg.add(name, [name, body](mc::Ctx &c) { body(c); if (const auto n = c.counters["redundant symbols"]) { c.fail(mc::cat("redundant ", c.quick() ? "quick " : "thorough ", name, " ", n), mc::cat(n, " target symbols do not come back as themselves: they are conjugates of, or contain, other target symbols")); } }, limit);
}
void mc::register_cases(Registry &reg) {
    for (auto &a : aref::algebras()) { add(reg, "algebra-" + a.name, [a](Ctx &c) { const int n = aref::Model(a).n; check_world(c, world::algebra(a, 1, 2), true, true, 4, n == 1 ? 6 : n == 2 ? 4 : 2, 24, c.bound<size_t>(n <= 2 ? 40 : 20, 500)); }, 300); }
    for (auto &a : aref::signed_algebras()) { add(reg, "algebra-" + a.name, [a](Ctx &c) { check_world(c, world::algebra(a, 1, 2), true, true, 4, 3, 24, c.bound<size_t>(20, 500)); }, 300); }
    aref::Alg free3{"free3", 3, aref::Mode::SelfAdjoint, false, true, {}}; add(reg, "algebra-free3", [free3](Ctx &c) { check_world(c, world::algebra(free3, 1, 2), true, false, 4, 3, 24, c.bound<size_t>(20, 500)); }, 300);
    aref::Alg free4{"free4", 4, aref::Mode::SelfAdjoint, false, true, {}}; add(reg, "algebra-free4", [free4](Ctx &c) { auto w = world::algebra(free4, 1, 2); each_signed_permutation(w, {0, 1, 2, 3}, false, false, [&](const Subst &s) { check_system(c, w, {s}, 2, 0, 24, cat(w.name, " ", gref::text(s))); }); }, 300);
    for (auto &l : std::vector<lref::Layout>{{{2}, {2}}, {{2, 2}}, {{2, 2}, {2, 2}}, {{3}}, {{3, 2}}, {{3}, {3}}, {{2}, {2}, {2}}}) {
        auto w = world::locality(l, 1, 2); add(reg, w.name, [w](Ctx &c) { check_world(c, w, false, true, 3, w.ops <= 3 ? 4 : 3, 150, c.bound<size_t>(20, 300), c.bound<size_t>(40, 1000)); }, 300);
    }
    add(reg, "pauli1", [](Ctx &c) { check_world(c, world::pauli(1, 1, false, false, false, 1, 2), true, false, 4, 3, 60, c.bound<size_t>(60, 500)); }, 300);
    add(reg, "pauli2", [](Ctx &c) {
        auto w = world::pauli(2, 1, false, false, false, 1, 2); const auto words = w.canonical(2); std::vector<Subst> autos;
        each_signed_permutation(w, {0, 1, 2}, true, false, [&](const Subst &s) { if (automorphism(w, s, words, 3)) { autos.push_back(s); } });
        Subst swap; for (int o : {3, 4, 5, 0, 1, 2}) { swap.push_back(w.word({o})); }
        for (size_t i = 0; i < autos.size(); ++i) { check_system(c, w, {autos[i]}, 2, 0, 200, cat("pauli2 ", gref::text(autos[i]))); if (i < c.bound<size_t>(8, 24)) { check_system(c, w, {autos[i], swap}, 2, 0, 1200, cat("pauli2 swap and ", gref::text(autos[i]))); } }
    }, 300);
    add(reg, "pauli-symmetric", [](Ctx &c) { // words that share a moment by translation, then symmetrised further
        for (auto &w : {world::pauli(3, 1, false, true, true, 1, 2), world::pauli(3, 1, false, false, true, 1, 2)}) {
            mc::each_word(6, 1, [&](const std::vector<int> &k) { std::vector<int> p{0, 1, 2}; for (int i = 0; i < k[0]; ++i) { std::next_permutation(p.begin(), p.end()); }
                mc::each_word(2, 3, [&](const std::vector<int> &sg) { Subst s; for (int o = 0; o < w.ops; ++o) { s.push_back(w.word({3 * (o / 3) + p[size_t(o % 3)]}, sg[size_t(o % 3)] ? -1.0 : 1.0)); }
                    if (automorphism(w, s, w.canonical(2), 3)) { check_system(c, w, {s}, 2, 0, 60, cat(w.name, " ", gref::text(s))); } }); });
        }
    }, 300);
    for (auto &nt : {"bell", "one-source", "triangle"}) { add(reg, cat("inflation-", nt), [nt](Ctx &c) { auto w = world::inflation(world::net(nt), std::string(nt) == "triangle" ? 1 : 2, 1, 2); if (w.ops > 6) { c.count("skipped"); return; } check_world(c, w, false, true, 3, 2, 60, c.bound<size_t>(20, 200), c.bound<size_t>(40, 1000)); }, 300); }
    add(reg, "rotations", [](Ctx &c) {
        for (int n : {2, 3, 4, 5, 7, 8}) {
            for (auto &w : {world::pauli(1, 1, false, false, false, 1, 2), world::pauli(2, 1, false, false, false, 1, 2)}) for (auto [a, b] : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 0}}) for (size_t L = 1; L <= 2; ++L) { check_system(c, w, {rotation(w, a, b, n)}, L, 0, 20, cat(w.name, " rotation ", a, b, " by 1/", n)); }
            for (auto &al : aref::algebras()) if (al.name == "anticommuting" || al.name == "free2") { auto w = world::algebra(al, 1, 2); for (size_t L = 1; L <= 4; ++L) { check_system(c, w, {rotation(w, 0, 1, n)}, L, 0, 20, cat(w.name, " rotation by 1/", n)); } }
        }
    }, 300);
}
