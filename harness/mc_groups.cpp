// P18: group enumeration and representations of symmetry groups on words.
#include "group_ref.h"
#include "multithreading/multithreading.h"

using namespace gref;
using Policy = Moment::Multithreading::MultiThreadPolicy;

namespace {
    std::vector<Mat> dense(const std::vector<repmat_t> &v) { std::vector<Mat> o; for (auto &m : v) { o.push_back(Mat(m)); } return o; }

    /** dimino against breadth-first closure */
    void check_group(mc::Ctx &c, const std::vector<Mat> &gens, const std::vector<Mat> &want) {
        std::vector<repmat_t> g; for (auto &m : gens) { g.push_back(sparse(m)); }
        auto name = [&] { std::string s; for (auto &m : gens) { s += text(m) + " "; } return s; };
        ++c.states;
        const auto got = dense(Group::dimino_generation(g, 4 * want.size() + 4));
        c.require(got.size() == want.size(), mc::cat("group-size ", gens.size(), " generators"), [&] { return mc::cat(name(), ": enumeration gives ", got.size(), " elements, closure ", want.size()); });
        std::vector<bool> hit(want.size(), false); bool ok = true;
        for (auto &m : got) { bool f = false; for (size_t i = 0; i < want.size(); ++i) { if (!hit[i] && same(want[i], m)) { hit[i] = f = true; break; } } ok = ok && f; }
        c.require(ok, mc::cat("group-elements ", gens.size(), " generators"), [&] { return mc::cat(name(), ": a returned element is repeated or not in the group"); });
        c.require(!got.empty() && same(got[0], Mat::Identity(gens[0].rows(), gens[0].cols())), "identity-first", [&] { return name(); });
        // the whole group again, from all its elements, is a fixed point
        if (want.size() <= 24) { std::vector<repmat_t> all; for (auto &m : got) { all.push_back(sparse(m)); } c.require(Group::dimino_generation(all, 4 * want.size() + 4).size() == want.size(), "group-closed", name); }
    }

    std::vector<Mat> signed_permutations(int n) {
        std::vector<Mat> out; std::vector<int> p(static_cast<size_t>(n)); std::iota(p.begin(), p.end(), 0);
        do { for (int s = 0; s < (1 << n); ++s) { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) { m(p[size_t(i)], i) = (s >> i) & 1 ? -1 : 1; } out.push_back(m); } } while (std::next_permutation(p.begin(), p.end()));
        return out;
    }
    std::vector<Mat> permutations(int n) {
        std::vector<Mat> out; std::vector<int> p(static_cast<size_t>(n)); std::iota(p.begin(), p.end(), 0);
        do { Mat m = Mat::Zero(n, n); for (int i = 0; i < n; ++i) { m(p[size_t(i)], i) = 1; } out.push_back(m); } while (std::next_permutation(p.begin(), p.end()));
        return out;
    }
    Mat rotation(int n, int k) { Mat m(2, 2); const double a = 2 * M_PI * k / n; m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a); return m; }
    Mat reflection(int n, int k) { Mat m(2, 2); const double a = 2 * M_PI * k / n; m << std::cos(a), std::sin(a), std::sin(a), -std::cos(a); return m; }
    template<class F> void tuples(size_t n, size_t k, F f) { for (size_t l = 1; l <= k; ++l) { mc::each_word(n, l, f); } }

    void enumerate_from(mc::Ctx &c, const std::vector<Mat> &pool, size_t k) {
        tuples(pool.size(), k, [&](const std::vector<int> &w) {
            std::vector<Mat> g; for (int i : w) { g.push_back(pool[size_t(i)]); }
            c.step("%s", mc::show(w).c_str());
            check_group(c, g, closure(g, 2000));
        });
    }

    /** every creation order of a set of word lengths, each policy, against letter-wise substitution */
    void check_reps(mc::Ctx &c, const World &w, const std::vector<Subst> &gens, size_t max_len, size_t bound, bool orders, const std::string &what) {
        auto sys = w.make(); const Context &ctx = sys->Context();
        const auto elems = closure(w, gens, bound); if (elems.empty()) { c.count("groups beyond the bound"); return; }
        const auto letters = basis(ctx, 1);
        std::vector<repmat_t> g; for (auto &s : gens) { g.push_back(sparse(*matrix(w, s, letters))); }
        c.step("%s", what.c_str()); ++c.states; c.count("group elements", elems.size());
        auto list = Group::dimino_generation(g, bound + 1);
        if (!c.require(list.size() == elems.size(), "group-size", [&] { return mc::cat(what, ": ", list.size(), " vs ", elems.size()); })) { return; }
        // identify each returned matrix with a substitution
        std::vector<const Subst *> which; std::vector<Mat> mats; for (auto &s : elems) { mats.push_back(*matrix(w, s, letters)); }
        for (auto &m : list) { const Mat d(m); const Subst *f = nullptr; for (size_t i = 0; i < mats.size(); ++i) { if (same(mats[i], d)) { f = &elems[i]; } }
            if (!c.require(f != nullptr, "group-element", [&] { return mc::cat(what, ": ", text(d)); })) { return; } which.push_back(f); }
        // expected matrices
        std::vector<std::vector<Mat>> want(max_len + 1); std::vector<size_t> lengths;
        for (size_t L = 1; L <= max_len; ++L) { const auto b = basis(ctx, L); lengths.push_back(L); for (auto *s : which) { auto m = matrix(w, *s, b); if (!m) { c.count("substitution not real on words"); return; } want[L].push_back(*m); } }
        auto verify = [&](const Group &grp, size_t L, const Representation &r, const std::string &how) {
            ++c.traces;
            c.require(&grp.representation(L) == &r, "same-object", [&] { return mc::cat(what, how); });
            c.require(r.word_length == L && r.size() == which.size() && r.dimension == size_t(want[L][0].rows()), "rep-shape", [&] { return mc::cat(what, how, " L=", L, ": dimension ", r.dimension, " size ", r.size()); });
            Mat sum = Mat::Zero(want[L][0].rows(), want[L][0].rows());
            for (size_t i = 0; i < which.size() && i < r.size(); ++i) {
                const Mat got(r[i]); sum += want[L][i];
                c.require(same(got, want[L][i]), mc::cat("rep ", w.name, " L", L), [&] { return mc::cat(what, how, " L=", L, " element ", i, " ", gref::text(*which[i]), ": ", want[L][i].rows() <= 12 ? mc::cat("got ", text(got), " want ", text(want[L][i])) : std::string("differs")); });
            }
            c.require(same(Mat(r.sum_of()), sum), mc::cat("rep-sum ", w.name, " L", L), [&] { return mc::cat(what, how); });
        };
        std::vector<std::vector<size_t>> seqs; { auto p = lengths; do { seqs.push_back(p); } while (orders && std::next_permutation(p.begin(), p.end())); if (!orders) { auto r = lengths; std::reverse(r.begin(), r.end()); seqs.push_back(r); } }
        for (auto &seq : seqs) for (auto pol : {Policy::Never, Policy::Always}) {
            auto copy = list; Group grp(ctx, std::make_unique<Representation>(1, std::move(copy)));
            c.require(grp.size == which.size() && grp.fundamental_dimension == letters.size(), "group-object", [&] { return what; });
            const auto how = mc::cat(" order ", mc::show(seq), pol == Policy::Never ? " single" : " multi");
            std::set<size_t> asked{1};
            for (size_t L : seq) {
                if (!asked.contains(L)) { bool threw = false; const Representation *r = nullptr; try { r = &grp.representation(L); } catch (const std::runtime_error &) { threw = true; } if (!threw) { verify(grp, L, *r, how + " (built on the way)"); } }
                asked.insert(L);
                verify(grp, L, grp.create_representation(L, pol), how);
            }
            for (size_t L : seq) { verify(grp, L, grp.representation(L), how + " (again)"); }
        }
    }

    /** groups generated by one and by two of the automorphisms */
    void check_world(mc::Ctx &c, const World &w, bool signs, bool flips, size_t upto, size_t max_len, size_t bound, size_t pairs) {
        const auto autos = automorphisms(w, upto, signs, flips); c.count("automorphisms", autos.size());
        c.require(!autos.empty(), "some-automorphism", [&] { return w.name; });
        size_t n = 0;
        for (size_t i = 0; i < autos.size(); ++i) {
            check_reps(c, w, {autos[i]}, max_len, bound, max_len <= 4, mc::cat(w.name, " generator ", gref::text(autos[i])));
            for (size_t j = 0; j < autos.size() && n < pairs; ++j) { if (i == j) { continue; } ++n; check_reps(c, w, {autos[i], autos[j]}, std::min<size_t>(max_len, 3), bound, false, mc::cat(w.name, " generators ", gref::text(autos[i]), gref::text(autos[j]))); }
        }
    }
}

void mc::register_cases(Registry &reg) {
    reg.add("dimino/no-generators", [](Ctx &c) { const auto e = Group::dimino_generation({}); ++c.states; c.require(e.size() == 1 && same(Mat(e[0]), Mat::Identity(1, 1)), "trivial"); });
    for (int n : {1, 2}) { reg.add(cat("dimino/signed-permutations-", n), [n](Ctx &c) { enumerate_from(c, signed_permutations(n), 3); }); }
    reg.add("dimino/signed-permutations-3", [](Ctx &c) { enumerate_from(c, signed_permutations(3), 2); });
    reg.add("dimino/permutations-3", [](Ctx &c) { enumerate_from(c, permutations(3), c.bound<size_t>(3, 4)); });
    reg.add("dimino/permutations-4", [](Ctx &c) { enumerate_from(c, permutations(4), 2); });
    reg.deep("dimino/permutations-4-triples", [](Ctx &c) { auto p = permutations(4); for (size_t i = 0; i < p.size(); ++i) for (size_t j = 0; j < p.size(); ++j) for (size_t k = 0; k < p.size(); ++k) { c.step("%zu %zu %zu", i, j, k); std::vector<Mat> g{p[i], p[j], p[k]}; check_group(c, g, closure(g, 100)); } });
    reg.deep("dimino/permutations-5", [](Ctx &c) { enumerate_from(c, permutations(5), 2); });
    reg.add("dimino/dihedral", [](Ctx &c) {
        for (int n = 1; n <= c.bound(9, 24); ++n) for (int k = 0; k < n; ++k) for (int kind = 0; kind < 2; ++kind) for (int l = 0; l < n; ++l) for (int kind2 = 0; kind2 < 2; ++kind2) {
            std::vector<Mat> g{kind ? reflection(n, k) : rotation(n, k), kind2 ? reflection(n, l) : rotation(n, l)}; c.step("%d %d %d %d %d", n, k, kind, l, kind2);
            check_group(c, g, closure(g, 200));
        }
    });
    reg.add("dimino/bound", [](Ctx &c) {
        // a group as large as the bound is delivered; infinite groups are reported, whichever generator makes them infinite
        std::vector<Mat> finite{Mat::Identity(2, 2), -Mat::Identity(2, 2), reflection(4, 0), rotation(3, 1), rotation(4, 1)};
        Mat shear(2, 2); shear << 1, 1, 0, 1; Mat stretch(2, 2); stretch << 2, 0, 0, 0.5; Mat skew(2, 2); skew << -1, 1, 0, 1; Mat irr = rotation(7, 1); irr(0, 0) = irr(1, 1) = 0.6; irr(0, 1) = -0.8; irr(1, 0) = 0.8;
        const std::vector<Mat> infinite{shear, stretch, irr};
        auto run = [&](const std::vector<Mat> &g, size_t bound) { std::vector<repmat_t> s; for (auto &m : g) { s.push_back(sparse(m)); } try { return long(Group::dimino_generation(s, bound).size()); } catch (const std::runtime_error &) { return -1L; } };
        for (size_t bound : {1, 2, 3, 5, 8, 20, 60}) {
            c.step("bound %zu", bound);
            for (auto &x : infinite) { ++c.states; c.require(run({x}, bound) == -1, "infinite-first", [&] { return cat("bound ", bound, " ", text(x)); });
                for (auto &f : finite) { ++c.states; c.step("finite then infinite, bound %zu", bound); c.require(run({f, x}, bound) == -1, "infinite-second", [&] { return cat("bound ", bound, " ", text(f), text(x)); }); c.require(run({x, f}, bound) == -1, "infinite-then-finite", [&] { return cat("bound ", bound); }); } }
            c.require(run({reflection(4, 0), skew}, bound) == -1 || !closure({reflection(4, 0), skew}, 500).empty(), "infinite-jointly", [&] { return cat("bound ", bound); });
            for (int n = 1; n <= 12; ++n) { const long got = run({rotation(n, 1)}, bound); ++c.states; c.require(size_t(n) <= bound ? got == n : (got == n || got == -1), "finite-in-bound", [&] { return cat("cyclic ", n, " bound ", bound, " gives ", got); });
                const long d = run({reflection(n, 0), rotation(n, 1)}, bound); c.require(2 * size_t(n) <= bound && n > 2 ? d == 2 * n : true, "finite-in-bound-2", [&] { return cat("dihedral ", n, " bound ", bound, " gives ", d); }); }
        }
    }, 60);

    // representations
    reg.add("rep/errors", [](Ctx &c) {
        auto w = world::locality({{2, 2}, {2, 2}}, 1, 2); auto sys = w.make();
        for (int d = 0; d <= 8; ++d) { bool threw = false; ++c.states; try { std::vector<repmat_t> v; v.push_back(sparse(Mat::Identity(d, d))); Group g(sys->Context(), std::make_unique<Representation>(1, std::move(v))); } catch (const std::exception &) { threw = true; } c.require(threw == (d != 5), "dimension-check", [&] { return cat("dimension ", d); }); }
        bool threw = false; try { Group g(sys->Context(), nullptr); } catch (const std::exception &) { threw = true; } c.require(threw, "null-representation");
        std::vector<repmat_t> v; v.push_back(sparse(Mat::Identity(5, 5))); Group g(sys->Context(), std::make_unique<Representation>(1, std::move(v)));
        threw = false; try { (void)g.representation(0); } catch (const std::exception &) { threw = true; } c.require(threw, "length-zero");
        threw = false; try { (void)g.create_representation(0); } catch (const std::exception &) { threw = true; } c.require(threw, "create-length-zero");
        threw = false; try { (void)g.representation(2); } catch (const std::exception &) { threw = true; } c.require(threw, "not-created");
        (void)g.create_representation(4); for (size_t L : {3, 5, 6, 7}) { threw = false; try { (void)g.representation(L); } catch (const std::exception &) { threw = true; } c.require(threw, "not-created-other", [&] { return cat("L ", L); }); }
    });
    // words: which lengths are put together from which; one letter, long words
    reg.add("rep/long-words", [](Ctx &c) {
        for (auto &a : aref::algebras()) { if (aref::Model(a).n > 2) { continue; } const size_t top = aref::Model(a).n == 1 ? c.bound<size_t>(12, 20) : c.bound<size_t>(5, 7); auto w = world::algebra(a, 1, 2);
            const auto autos = automorphisms(w, 4, true, true);
            for (auto &s : autos) { check_reps(c, w, {s}, a.rules.empty() && aref::Model(a).n == 2 ? std::min<size_t>(top, 6) : top, 50, false, cat(a.name, " ", gref::text(s))); } }
    }, 300);
    for (auto &a : aref::algebras()) { reg.add("rep/algebra-" + a.name, [a](Ctx &c) { const int n = aref::Model(a).n; check_world(c, world::algebra(a, 1, 2), true, true, 4, n <= 2 ? 4 : 3, 60, n <= 2 ? 1000 : c.bound<size_t>(60, 2000)); }, 300); }
    for (auto &a : aref::signed_algebras()) { reg.add("rep/algebra-" + a.name, [a](Ctx &c) { check_world(c, world::algebra(a, 1, 2), true, true, 4, 3, 60, c.bound<size_t>(100, 3000)); }, 300); }
    for (auto &l : std::vector<lref::Layout>{{{2}, {2}}, {{2, 2}}, {{2, 2}, {2, 2}}, {{3}}, {{3, 2}}, {{3}, {3}}, {{2}, {2}, {2}}}) {
        auto w = world::locality(l, 1, 2);
        reg.add("rep/" + w.name, [w](Ctx &c) { check_world(c, w, false, true, 3, w.ops <= 4 ? 3 : 2, 150, c.bound<size_t>(40, 1000)); }, 300);
    }
    reg.add("rep/pauli1", [](Ctx &c) { check_world(c, world::pauli(1, 1, false, false, false, 1, 2), true, false, 4, 3, 60, 1000); }, 300);
    reg.add("rep/pauli2", [](Ctx &c) {
        auto w = world::pauli(2, 1, false, false, false, 1, 2); const auto words = w.canonical(2); std::vector<Subst> autos;
        // swap of qubits, and the local Clifford maps of the first qubit
        each_signed_permutation(w, {0, 1, 2}, true, false, [&](const Subst &s) { if (automorphism(w, s, words, 3)) { autos.push_back(s); } });
        Subst swap; for (int o : {3, 4, 5, 0, 1, 2}) { swap.push_back(w.word({o})); }
        for (size_t i = 0; i < autos.size(); ++i) { check_reps(c, w, {autos[i]}, 3, 200, true, cat("pauli2 ", gref::text(autos[i]))); if (i < c.bound<size_t>(8, 24)) { check_reps(c, w, {autos[i], swap}, 2, 1200, false, cat("pauli2 swap and ", gref::text(autos[i]))); } }
    }, 300);
    // rotations, which mix letters
    reg.add("rep/rotations", [](Ctx &c) {
        auto rot = [](const World &w, int a, int b, int n, int k) { Subst s; for (int o = 0; o < w.ops; ++o) { s.push_back(w.word({o})); } const double t = 2 * M_PI * k / n; s[size_t(a)] = World::add(w.word({a}, std::cos(t)), w.word({b}, std::sin(t))); s[size_t(b)] = World::add(w.word({a}, -std::sin(t)), w.word({b}, std::cos(t))); return s; };
        for (int n : {2, 3, 4, 5, 8}) {
            for (auto &w : {world::pauli(1, 1, false, false, false, 1, 2), world::pauli(2, 1, false, false, false, 1, 2)}) for (auto [a, b] : std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {0, 2}, {2, 0}}) {
                check_reps(c, w, {rot(w, a, b, n, 1)}, 3, 20, n == 3, cat(w.name, " rotation ", a, b, " by 1/", n)); }
            for (auto &al : aref::algebras()) if (al.name == "anticommuting" || al.name == "free2") { auto w = world::algebra(al, 1, 2); check_reps(c, w, {rot(w, 0, 1, n, 1)}, 4, 20, false, cat(w.name, " rotation by 1/", n)); }
        }
    }, 300);
}
