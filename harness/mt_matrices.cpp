// P07: matrices made by worker threads, in every schedule, against the ones made by a single thread.
#include "mt.h"
#include "group_ref.h"
#include "matrix_ref.h"
#include "mt_common.h"
#include "matrix/operator_matrix/operator_matrix_factory.h"
#include "matrix/substituted_matrix.h"
#include "multithreading/matrix_transformation_worker.h"
#include "multithreading/multithreading.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "symbolic/rules/moment_rulebook.h"
#include <iostream>

using namespace world;
using mc::Ctx;
using Policy = Moment::Multithreading::MultiThreadPolicy;

namespace {
    using Make = std::function<std::shared_ptr<MatrixSystem>()>;
    using Act = std::function<const SymbolicMatrix &(MatrixSystem &, Policy)>;
    struct Scenario { std::string name; Make make; Act before, act; };

    /** A worker (or the main thread) runs out of memory, or a thread cannot be started: the caller gets an exception, nothing hangs or
      * crashes, and the same matrix can be made afterwards. Every allocation of every thread, and every thread creation, is made to fail. */
    void faults(Ctx &c, const Scenario &s, size_t workers, int preemptions, double seconds) {
        std::string want; { auto sys = s.make(); if (s.before) { (void)s.before(*sys, Policy::Never); } want = picture(*sys, s.act(*sys, Policy::Never)); }
        uint64_t n[32] = {}, threads = 0;
        auto body = [&](mt::Fault f, bool count) { return [&, f, count] {
            auto sys = s.make(); if (s.before) { (void)s.before(*sys, Policy::Never); }
            const SymbolicMatrix *m = nullptr; std::string what;
            mt::arm(f); try { m = &s.act(*sys, Policy::Always); } catch (const std::exception &e) { what = e.what(); } bool hit = mt::disarm();
            if (count) { for (size_t t = 0; t < 32; ++t) { n[t] = std::max<uint64_t>(n[t], mt::allocations(t)); } }
            mt::require(hit || m, "error without reason", [&] { return what; });
            if (!m && f.allocation && f.thread == 0) { return; } // out of memory half-way through registering symbols: only that the caller is told
            if (!m) { m = &s.act(*sys, Policy::Never); }
            std::string got = picture(*sys, *m); mt::require(got == want, hit ? "matrix differs after an error" : "matrix differs", [&] { return "made by one thread:\n" + want + "made after " + what + ":\n" + got; });
        }; };
        mt::Options o; o.workers = workers; o.preemptions = 0; o.max_seconds = seconds;
        threads = mt::explore(c, s.name, o, body({}, true)).max_threads; c.sample(mc::cat(s.name, ": allocations by thread ", n[0], " ", n[1], " ", n[2], " ", n[3], " ", n[4]));
        o.preemptions = preemptions;
        auto one = [&](mt::Fault f, const std::string &name) { mt::explore_iteratively(c, name, o, body(f, false)); c.count("faults"); };
        for (uint64_t k = 1; k < threads; ++k) { one({0, 0, k}, mc::cat(s.name, ", thread ", k, " cannot be started")); }
        for (uint64_t t = 0; t < threads; ++t) { for (uint64_t k = 1; k <= n[t]; ++k) { one({t, k, 0}, mc::cat(s.name, ", allocation ", k, " of thread ", t, " fails")); } }
    }

    void run(Ctx &c, const Scenario &s, size_t workers, int preemptions, double seconds) {
        std::string want, want_symbols;
        { auto sys = s.make(); if (s.before) { (void)s.before(*sys, Policy::Never); } const auto &m = s.act(*sys, Policy::Never); want = picture(*sys, m); want_symbols = symbols(*sys); }
        mt::Options o; o.workers = workers; o.preemptions = preemptions; o.max_seconds = seconds;
        c.sample(mc::cat(s.name, " with ", workers, " workers: ", want.substr(0, 120)));
        auto body = [&] {
            auto sys = s.make(); if (s.before) { (void)s.before(*sys, Policy::Never); }
            const auto &m = s.act(*sys, Policy::Always);
            std::string got = picture(*sys, m), got_symbols = symbols(*sys);
            mt::require(got == want, "matrix differs", [&] { return "made by one thread:\n" + want + "made by several threads:\n" + got; });
            mt::require(got_symbols == want_symbols, "symbols differ", [&] { return "made by one thread: " + want_symbols + "\nmade by several threads: " + got_symbols; });
        };
        auto r = preemptions < 0 ? mt::explore(c, s.name, o, body) : mt::explore_iteratively(c, s.name, o, body);
        c.require(r.max_threads > 1, s.name + ": no threads", [&] { return std::string("the library never started a worker thread"); });
    }
}

namespace mc {
    void register_cases(Registry &reg) {
        std::vector<Scenario> all;
        auto world_make = [](const World &w) -> Make { return [make = w.make] { return std::shared_ptr<MatrixSystem>(make()); }; };
        auto add = [&](const std::string &n, const World &w, Act act, Act before = {}) { all.push_back({n + " " + w.name, world_make(w), std::move(before), std::move(act)}); };
        auto mm = [](size_t L) -> Act { return [L](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return s.MomentMatrix.create(L, p).second; }; };
        auto lm = [](const World &w, size_t L, Raw x, int ph) -> Act { return [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return s.LocalizingMatrix.create(LocalizingMatrixIndex{L, w.seq(s.Context(), x, ph)}, p).second; }; };
        auto plm = [](const World &w, size_t L, std::vector<std::pair<Raw, cd>> e) -> Act { return [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & {
            RawPolynomial raw; for (auto &[x, f] : e) { raw.emplace_back(w.seq(s.Context(), x), f); } return s.create_and_register_localizing_matrix(L, raw, p).second; }; };

        const World one = locality({{2, 2}}, 1, 2), tri = locality({{3}}, 1, 2), bell = locality({{2, 2}, {2, 2}}, 1, 2);
        add("moment matrix 1", one, mm(1)); add("moment matrix 1", bell, mm(1)); add("moment matrix 2", one, mm(2)); add("moment matrix 1", tri, mm(1));
        add("localizing matrix", one, lm(one, 1, {0}, 0)); add("localizing matrix, non-Hermitian word", one, lm(one, 1, {0, 1}, 0)); add("localizing matrix, phase", one, lm(one, 1, {0}, 1));
        add("polynomial localizing matrix", one, plm(one, 1, {{{0}, 1.0}, {{1}, 2.0}})); add("polynomial localizing matrix, complex", one, plm(one, 1, {{{0, 1}, cd{0, 1}}, {{1}, -1.0}}));
        for (auto &a : aref::algebras()) { auto w = algebra(a, 1, 2); if (w.ops > 3) { continue; } add("moment matrix 1", w, mm(1)); add("localizing matrix", w, lm(w, 1, {0, 1 % w.ops}, 0)); }
        for (auto &a : aref::signed_algebras()) { auto w = algebra(a, 1, 2); if (w.ops > 3) { continue; } add("moment matrix 1", w, mm(1)); }
        const World p2 = pauli(2, 1, false, false, false, 1, 2), p1 = pauli(1, 1, false, false, false, 1, 2), p3s = pauli(3, 1, false, true, true, 1, 2), p2s = pauli(2, 1, false, true, true, 1, 2), lat = pauli(2, 2, true, true, true, 1, 2);
        add("moment matrix 1", p1, mm(1)); add("moment matrix 1", p2, mm(1)); add("moment matrix 1", p2s, mm(1)); add("moment matrix 1", p3s, mm(1)); add("moment matrix 1", lat, mm(1));
        for (auto &w : {p1, p2, p2s}) for (int ph : {0, 1}) {
            const size_t nn = 0; const Raw x = ph ? Raw{0, 1} : Raw{2};
            auto P = [](MatrixSystem &s) -> Pauli::PauliMatrixSystem & { return dynamic_cast<Pauli::PauliMatrixSystem &>(s); };
            auto tag = mc::cat(" i^", ph, mc::show(x));
            add("Pauli localizing" + tag, w, [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return P(s).PauliLocalizingMatrices.create(Pauli::LocalizingMatrixIndex{1, nn, w.seq(s.Context(), x, 0)}, p).second; });
            add("commutator" + tag, w, [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return P(s).CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{1, nn, w.seq(s.Context(), x, 0)}, p).second; });
            add("anticommutator" + tag, w, [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return P(s).AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{1, nn, w.seq(s.Context(), x, 0)}, p).second; });
            add("polynomial commutator" + tag, w, [=](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { RawPolynomial raw; raw.emplace_back(w.seq(s.Context(), x), 2.0); raw.emplace_back(w.seq(s.Context(), Raw{1}), cd{0, 1}); return P(s).create_and_register_commutator_matrix(Pauli::NearestNeighbourIndex{1, nn}, raw, p).second; });
        }
        // substituted matrices: rules <w0> = 1/2, <w1> = 1/3 <w0>, ...
        auto rules = [](const World &w, bool poly) -> Act { return [=](MatrixSystem &s, Policy) -> const SymbolicMatrix & {
            const SymbolicMatrix &m = poly ? static_cast<const SymbolicMatrix &>(s.create_and_register_localizing_matrix(1, [&] { RawPolynomial raw; raw.emplace_back(w.seq(s.Context(), Raw{0}), 1.0); raw.emplace_back(w.seq(s.Context(), Raw{1}), 2.0); return raw; }(), Policy::Never).second) : s.MomentMatrix.create(1, Policy::Never).second;
            auto rb = std::make_unique<MomentRulebook>(s); 
            auto rule = [&](symbol_name_t a, symbol_name_t b) { Polynomial lhs = s.polynomial_factory()({Monomial{a, 1.0, false}, Monomial{b, -0.5, false}}); return lhs; };
            std::vector<Polynomial> ps; ps.emplace_back(rule(symbol_name_t(s.Symbols().size() - 1), 2)); ps.emplace_back(rule(3, 1));
            rb->add_raw_rules(std::move(ps)); rb->complete(); (void)s.Rulebook.add(std::move(rb)); return m; }; };
        for (auto &w : {one, p1, p2}) for (bool poly : {false, true}) {
            add(poly ? "substituted polynomial matrix" : "substituted matrix", w, [](MatrixSystem &s, Policy p) -> const SymbolicMatrix & { return s.SubstitutedMatrix.create(SubstitutedMatrixIndex{0, 0}, p).second; }, rules(w, poly)); }
        // inflation
        for (auto &w : {inflation(net("one-source"), 2, 1, 2), inflation(net("bell"), 2, 1, 2)}) {
            add("moment matrix 1", w, mm(1)); add("localizing matrix", w, lm(w, 1, {0}, 0)); }
        for (auto &w : {inflation(net("one-source"), 2, 1, 2)}) for (size_t k : {1, 2}) {
            add(mc::cat("extended matrix by ", k), w, [k](MatrixSystem &s, Policy p) -> const SymbolicMatrix & {
                std::vector<symbol_name_t> ext; for (size_t i = 2; i < s.Symbols().size() && ext.size() < k; ++i) { if (dynamic_cast<Inflation::InflationMatrixSystem &>(s).Factors()[i].fundamental()) { ext.push_back(symbol_name_t(i)); } }
                return dynamic_cast<Inflation::InflationMatrixSystem &>(s).ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{1, std::span<const symbol_name_t>{ext}}, p).second; }, mm(1)); }

        // representations of groups
        auto group = [&](const std::string &name, const World &w, std::vector<gref::Subst> gens, size_t L, size_t first) {
            for (size_t workers : {2, 3}) { reg.add(mc::cat("representations up to ", L, first ? mc::cat(" after ", first) : "", " ", name, " ", workers), [=](Ctx &c) {
                auto make = [=](Policy p, bool whole, std::function<void()> arm = {}) -> std::string {
                    std::shared_ptr<MatrixSystem> base = w.make(); const Context &ctx = base->Context(); base->generate_dictionary(L);
                    std::vector<gref::repmat_t> g; { mt::Unmanaged u; for (auto &s : gens) { g.push_back(gref::sparse(*gref::matrix(w, s, gref::basis(ctx, 1)))); } }
                    auto grp = std::make_unique<gref::Group>(ctx, std::make_unique<gref::Representation>(1, gref::Group::dimino_generation(g, 50)));
                    std::stringstream ss; if (arm) { arm(); }
                    auto show = [&](const gref::Representation &r) { for (size_t i = 0; i < r.size(); ++i) { mt::Unmanaged u; ss << gref::text(gref::Mat(r[i])) << "\n"; } };
                    if (whole) {
                        Symmetrized::SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(base), std::move(grp), L, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, p);
                        const auto &m = sms.MomentMatrix.create(L / 2, p).second;
                        for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j) { std::multiset<std::string> e; for (auto &[id, f, cj] : mref::terms(m, i, j)) { e.insert(mc::cat(number(f), "#", id, cj)); } for (auto &x : e) { ss << x; } ss << ";"; }
                    } else { if (first) { (void)grp->create_representation(first, p); } show(grp->create_representation(L, p)); for (size_t l = 1; l < L; ++l) { try { show(grp->representation(l)); } catch (const std::runtime_error &) { ss << "none\n"; } } }
                    return ss.str(); };
                for (bool whole : {false, true}) { if (whole && first) { continue; }
                    const std::string want = make(Policy::Never, whole); const auto text = mc::cat(name, whole ? " symmetrised" : " representation"); c.sample(text + ": " + want.substr(0, 100));
                    mt::Options o; o.workers = workers; o.preemptions = c.quick() ? (workers == 2 ? 2 : 1) : (workers == 2 ? -1 : 3); o.max_seconds = c.quick() ? 10 : 900;
                    auto body = [&] { std::string got = make(Policy::Always, whole); mt::require(got == want, "differs", [&] { return "one thread:\n" + want + "several threads:\n" + got; }); };
                    auto r = o.preemptions < 0 ? mt::explore(c, text, o, body) : mt::explore_iteratively(c, text, o, body);
                    c.require(r.max_threads > 1, text + ": no threads", [&] { return std::string("the library never started a worker thread"); });
                } }, 2400);
                if (workers == 2) { reg.add(mc::cat("faults representations up to ", L, first ? mc::cat(" after ", first) : "", " ", name), [=](Ctx &c) {
                    const auto one = w.make(); uint64_t n[32] = {};
                    auto attempt = [&](mt::Fault f, bool count) { return [&, f, count] {
                        std::shared_ptr<MatrixSystem> base = w.make(); const Context &ctx = base->Context(); base->generate_dictionary(L);
                        std::vector<gref::repmat_t> g; { mt::Unmanaged u; for (auto &s : gens) { g.push_back(gref::sparse(*gref::matrix(w, s, gref::basis(ctx, 1)))); } }
                        auto grp = std::make_unique<gref::Group>(ctx, std::make_unique<gref::Representation>(1, gref::Group::dimino_generation(g, 50)));
                        if (first) { (void)grp->create_representation(first, Policy::Never); }
                        const gref::Representation *r = nullptr; std::string what; mt::arm(f); try { r = &grp->create_representation(L, Policy::Always); } catch (const std::exception &e) { what = e.what(); } bool hit = mt::disarm();
                        if (count) { for (size_t t = 0; t < 32; ++t) { n[t] = std::max<uint64_t>(n[t], mt::allocations(t)); } }
                        mt::require(hit || r, "error without reason", [&] { return what; });
                        if (!r) { if (f.allocation && f.thread == 0) { return; } r = &grp->create_representation(L, Policy::Never); }
                        mt::require(r->size() == grp->size && r->word_length == L, "representation differs after an error", [&] { return what; });
                    }; };
                    mt::Options o; o.workers = 2; o.preemptions = 0; o.max_seconds = 20; auto threads = mt::explore(c, name, o, attempt({}, true)).max_threads; o.preemptions = c.quick() ? 0 : 1;
                    for (uint64_t k = 1; k < threads; ++k) { mt::explore_iteratively(c, mc::cat(name, ", thread ", k, " cannot be started"), o, attempt({0, 0, k}, false)); c.count("faults"); }
                    for (uint64_t t = 0; t < threads; ++t) { for (uint64_t k = 1; k <= n[t]; ++k) { mt::explore_iteratively(c, mc::cat(name, ", allocation ", k, " of thread ", t, " fails"), o, attempt({t, k, 0}, false)); c.count("faults"); } }
                }, 2400); } }
        };
        const gref::Subst swap{Elem{{Raw{1}, 1.0}}, Elem{{Raw{0}, 1.0}}};
        const gref::Subst flip{Elem{{Raw{}, 1.0}, {Raw{0}, -1.0}}, Elem{{Raw{1}, 1.0}}};
        group("swap", one, {swap}, 2, 0); group("swap and flip", one, {swap, flip}, 2, 0); group("swap", one, {swap}, 4, 0); group("swap", one, {swap}, 4, 3); group("swap", one, {swap}, 3, 2);

        const std::set<std::string> lead{"moment matrix 1 locality(2,2,)", "moment matrix 1 locality(2,2,)(2,2,)", "localizing matrix locality(2,2,)", "localizing matrix, phase locality(2,2,)", "localizing matrix, non-Hermitian word locality(2,2,)",
            "polynomial localizing matrix locality(2,2,)", "moment matrix 1 pauli2-wrap-sym", "moment matrix 1 pauli2", "commutator i^1[0,1] pauli1", "anticommutator i^0[2] pauli2", "polynomial commutator i^0[2] pauli1", "substituted matrix pauli2",
            "substituted polynomial matrix pauli1", "moment matrix 1 inflation-one-source-x2", "localizing matrix inflation-one-source-x2", "moment matrix 1 anticommuting", "localizing matrix free2",
            "extended matrix by 1 inflation-one-source-x2", "extended matrix by 2 inflation-one-source-x2"};
        for (auto &s : all) {
            const bool first = lead.contains(s.name);
            auto two = [s, first](Ctx &c) { run(c, s, 2, c.quick() ? (first ? 2 : 1) : (first ? -1 : 4), c.quick() ? 15 : 900); };
            auto three = [s](Ctx &c) { run(c, s, 3, c.quick() ? 1 : 3, c.quick() ? 12 : 900); };
            auto fault = [s](Ctx &c) { faults(c, s, 2, c.quick() ? 0 : 1, 20); };
            reg.add(s.name + " 2", two, 2400);
            if (first) { reg.add(s.name + " 3", three, 2400); reg.add("faults " + s.name, fault, 2400); } else { reg.deep(s.name + " 3", three, 2400); reg.deep("faults " + s.name, fault, 2400); }
        }
    }
}
