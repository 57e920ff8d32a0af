// P26: tables that grow when somebody asks (word lists, group representations, probability tables, symbol look-ups, bases of matrices),
// asked for by several threads at once, in every schedule, against the answers that one thread gets.
#include "mt_common.h"
#include "group_ref.h"
#include "probability/maintains_tensors.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/probability_tensor.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_context.h"
#include <deque>

using mc::Ctx;
namespace {
    template<class R> std::string hide(R &&r) { mt::Unmanaged u; return r(); }

    // ---------------------------------------------------------------- the scheme: named questions, asked by threads, with known answers
    struct Question { std::string name; std::function<std::string(void *)> ask; /* returns the answer */ };
    struct Table { std::string name; std::function<std::shared_ptr<void>()> make; std::vector<Question> questions; std::function<std::string(void *)> afterwards = {}; /* asked when all threads have ended */ };

    /** Every program of the threads: each question must get the answer it gets when asked alone, whoever else asks what. */
    void ask_all(Ctx &c, const Table &t, const std::vector<size_t> &ops, int preemptions, double seconds) {
        std::vector<std::string> want; for (auto &q : t.questions) { auto s = t.make(); want.push_back(q.ask(s.get())); c.sample(mc::cat(t.name, ", ", q.name, ": ", want.back().substr(0, 80))); }
        programs(ops, t.questions.size(), [&](auto &prog) {
            std::string name = t.name; for (auto &p : prog) { name += "; thread:"; for (auto q : p) { name += " " + t.questions[q].name; } }
            std::string last; if (t.afterwards) { auto s = t.make(); for (auto &p : prog) for (auto q : p) { (void)t.questions[q].ask(s.get()); } last = t.afterwards(s.get()); }
            mt::Options o; o.preemptions = preemptions; o.max_seconds = seconds; c.count("programs");
            auto body = [&] { auto s = t.make(); std::vector<std::thread> threads; std::deque<std::vector<std::string>> got(prog.size()); for (size_t i = 0; i < prog.size(); ++i) { got[i].resize(prog[i].size()); }
                for (size_t i = 0; i < prog.size(); ++i) { threads.emplace_back([&, i] { for (size_t k = 0; k < prog[i].size(); ++k) { got[i][k] = t.questions[prog[i][k]].ask(s.get()); } }); }
                for (auto &x : threads) { x.join(); }
                for (size_t i = 0; i < prog.size(); ++i) { for (size_t k = 0; k < prog[i].size(); ++k) { mt::require(got[i][k] == want[prog[i][k]], "wrong answer", [&] { return mc::cat("thread ", i, " asks ", t.questions[prog[i][k]].name, "\nalone: ", want[prog[i][k]], "\nhere: ", got[i][k]); }); } }
                for (size_t q = 0; q < t.questions.size() && !t.afterwards; ++q) { auto a = t.questions[q].ask(s.get()); mt::require(a == want[q], "wrong answer afterwards", [&] { return mc::cat(t.questions[q].name, "\nalone: ", want[q], "\nhere: ", a); }); }
                if (t.afterwards) { auto a = t.afterwards(s.get()); mt::require(a == last, "other state afterwards", [&] { return mc::cat("one after another: ", last, "\nhere: ", a); }); } };
            if (preemptions < 0) { mt::explore(c, name, o, body); } else { mt::explore_iteratively(c, name, o, body); }
        });
    }

    // ---------------------------------------------------------------- word lists
    std::string list(const OperatorSequenceGenerator &g) { std::string s = mc::cat(g.size(), " up to ", g.max_sequence_length, ":"); for (auto &w : g) { s += mc::cat(" ", int(w.get_sign()), ":"); for (auto o : w) { s += std::to_string(o) + "."; } s += std::to_string(w.hash()); } return s; }
    std::string list(const OSGPair &p) { return list(p()) + " | " + (p.self_adjoint() ? "=" : list(p.conjugate())); }
    Table word_lists(const World &w, size_t top, bool counts, std::vector<Pauli::NearestNeighbourIndex> near = {}) {
        Table t; t.name = "word lists " + w.name; t.make = [w] { return std::shared_ptr<MatrixSystem>(w.make()); };
        auto dict = [](void *s) -> const Dictionary & { return static_cast<MatrixSystem *>(s)->Context().dictionary(); };
        for (size_t l = 0; l <= top; ++l) {
            t.questions.push_back({mc::cat("words(", l, ")"), [=](void *s) { const OSGPair &a = dict(s).Level(l); return list(a); }});
            if (counts) { t.questions.push_back({mc::cat("count(", l, ")"), [=](void *s) { return mc::cat(dict(s).WordCount(l)); }}); } }
        for (auto nn : near) { t.questions.push_back({mc::cat("near(", nn.moment_matrix_level, ",", nn.neighbours, ")"), [=](void *s) { auto &d = dynamic_cast<const Pauli::PauliDictionary &>(dict(s)); const auto &a = d.NearestNeighbour(nn); return list(a); }}); }
        return t; }

    // ---------------------------------------------------------------- group representations
    struct Grp { std::shared_ptr<MatrixSystem> base; std::unique_ptr<gref::Group> group; };
    Table representations(const std::string &name, const World &w, std::vector<gref::Subst> gens, size_t top) {
        Table t; t.name = "representations " + name; t.make = [=] { auto g = std::make_shared<Grp>(); g->base = w.make(); const Context &ctx = g->base->Context(); g->base->generate_dictionary(top);
            std::vector<gref::repmat_t> m; { mt::Unmanaged u; for (auto &s : gens) { m.push_back(gref::sparse(*gref::matrix(w, s, gref::basis(ctx, 1)))); } }
            g->group = std::make_unique<gref::Group>(ctx, std::make_unique<gref::Representation>(1, gref::Group::dimino_generation(m, 50))); return g; };
        for (size_t l = 1; l <= top; ++l) { t.questions.push_back({mc::cat("create(", l, ")"), [=](void *s) { auto &g = *static_cast<Grp *>(s); const auto &r = g.group->create_representation(l, Policy::Never); std::string text; for (size_t i = 0; i < r.size(); ++i) { mt::Unmanaged u; text += gref::text(gref::Mat(r[i])) + "\n"; }
            const auto &again = g.group->representation(l); return text + (&again == &r ? "" : "moved"); }}); }
        return t; }

    // ---------------------------------------------------------------- bases of a matrix
    template<class M> std::string matrix_text(const M &m) { std::stringstream ss; if constexpr (requires { m.nonZeros(); m.outerSize(); typename M::StorageIndex; }) { ss << m.rows() << "x" << m.cols() << ":"; for (Eigen::Index k = 0; k < m.outerSize(); ++k) { for (typename M::InnerIterator it(m, k); it; ++it) { ss << it.row() << "," << it.col() << "=" << it.value() << " "; } } }
        else if constexpr (requires { m.rows(); m(0, 0); }) { ss << m.rows() << "x" << m.cols() << ":" << m; } else { for (auto &x : m) { ss << matrix_text(x) << ";"; } } return ss.str(); }
    struct Made { std::shared_ptr<MatrixSystem> sys; const SymbolicMatrix *m; };
    Table bases(const World &w, bool poly) {
        Table t; t.name = mc::cat(poly ? "bases of polynomial matrix " : "bases of moment matrix ", w.name);
        t.make = [=] { auto x = std::make_shared<Made>(); x->sys = w.make();
            if (!poly) { x->m = &x->sys->MomentMatrix.create(1, Policy::Never).second; } else { RawPolynomial raw; raw.emplace_back(w.seq(x->sys->Context(), Raw{0}), 2.0); raw.emplace_back(w.seq(x->sys->Context(), Raw{}), 1.0); x->m = &x->sys->create_and_register_localizing_matrix(1, raw, Policy::Never).second; }
            return x; };
        auto add = [&](const char *n, auto get) { t.questions.push_back({n, [=](void *s) -> std::string { try { auto &&r = get(static_cast<Made *>(s)->m->Basis); std::string a = matrix_text(std::get<0>(r)), b = matrix_text(std::get<1>(r)); return a + " | " + b; } catch (const std::exception &e) { return std::string("refused: ") + e.what(); } }}); };
        add("dense", [](auto &b) { return b.Dense(); }); add("sparse", [](auto &b) { return b.Sparse(); }); add("dense-complex", [](auto &b) { return b.DenseComplex(); }); add("sparse-complex", [](auto &b) { return b.SparseComplex(); });
        add("dense-monolithic", [](auto &b) { return b.DenseMonolithic(); }); add("sparse-monolithic", [](auto &b) { return b.SparseMonolithic(); }); add("dense-monolithic-complex", [](auto &b) { return b.DenseMonolithicComplex(); }); add("sparse-monolithic-complex", [](auto &b) { return b.SparseMonolithicComplex(); });
        return t; }

    // ---------------------------------------------------------------- probability tables and symbols, while matrices are being made
    using Entries = std::vector<std::string>;
    const std::string UNKNOWN = "?";
    std::string polynomial(const MatrixSystem &sys, const Polynomial &p) { std::multiset<std::string> e; for (auto &m : p) { e.insert(number(m.factor) + meaning(sys, m.id) + (m.conjugated ? "*" : "")); } std::string s; for (auto &x : e) { s += x + " "; } return s; }
    template<class T> Entries entries(const MatrixSystem &sys, const T &t) { Entries e; for (auto it = t.begin(); it != t.end(); ++it) { if constexpr (requires { it->symbol_id; }) { e.push_back(it->symbol_id < 0 ? UNKNOWN : mc::cat(word(it->sequence), "=", meaning(sys, it->symbol_id), it->is_alias)); } else { e.push_back(it->hasSymbolPoly ? polynomial(sys, it->symbolPolynomial) : UNKNOWN); } } return e; }
    enum Act { MM1, MM2, CG, CG2, FC, PT, PT2, LOOK, ACTS }; const char *const acts[] = {"moment-matrix(1)", "moment-matrix(2)", "CG", "CG(own lock)", "FC", "PT", "PT(own lock)", "look-up"};
    std::string join(const Entries &e) { std::string s; for (auto &x : e) { s += x + "; "; } return s; }
    MaintainsTensors &tensors(MatrixSystem &s) { return dynamic_cast<MaintainsTensors &>(s); }
    std::string all_tables(MatrixSystem &s, bool fc) { auto &t = tensors(s); t.RefreshProbabilityTensor(); if (fc) { t.RefreshFullCorrelator(); } t.RefreshCollinsGisin(); return join(entries(s, t.CollinsGisin())) + "| " + join(entries(s, t.ProbabilityTensor())) + "| " + (fc ? join(entries(s, t.FullCorrelator())) : ""); }

    void tables(Ctx &c, const World &w, bool fc, const std::vector<size_t> &ops, bool two, int preemptions, double seconds, bool prepared) {
        // what everything is, once all is known
        Entries cg, f, pt; std::map<std::string, std::string> mm; std::vector<std::pair<Raw, std::string>> words;
        { auto s = w.make(); for (size_t l = 1; l <= (two ? 2 : 1); ++l) { s->MomentMatrix.create(l, Policy::Never); } (void)all_tables(*s, fc); auto &t = tensors(*s); cg = entries(*s, t.CollinsGisin()); pt = entries(*s, t.ProbabilityTensor()); if (fc) { f = entries(*s, t.FullCorrelator()); }
            for (auto &x : w.canonical(2)) { auto r = s->Symbols().where(w.seq(s->Context(), x)); if (r.found()) { words.emplace_back(x, meaning(*s, r->Id()) + (r.is_conjugated ? "*" : "")); } } }
        auto sound = [](const Entries &got, const Entries &want, bool complete, const char *what) { mt::require(got.size() == want.size(), mc::cat(what, " size")); for (size_t i = 0; i < got.size(); ++i) { mt::require(got[i] == want[i] || (!complete && got[i] == UNKNOWN), mc::cat(what, complete ? " incomplete or wrong" : " wrong"), [&] { return mc::cat("entry ", i, ": ", got[i], " expected ", want[i]); }); } };
        std::vector<Act> use; for (int a = 0; a < ACTS; ++a) { if ((a != MM2 || two) && (a != FC || fc)) { use.push_back(Act(a)); } }
        programs(ops, use.size(), [&](auto &prog) {
            // programs in which only matrices are made are P14's
            bool table = false; for (auto &p : prog) for (auto a : p) { table |= use[a] != MM1 && use[a] != MM2; } if (!table) { return; }
            std::string name = mc::cat("tables of ", w.name, prepared ? " after a matrix" : ""); for (auto &p : prog) { name += "; thread:"; for (auto a : p) { name += mc::cat(" ", acts[use[a]]); } }
            std::string last; { auto s = w.make(); if (prepared) { s->MomentMatrix.create(1, Policy::Never); } for (auto &p : prog) for (auto a : p) { if (use[a] == MM1) { s->MomentMatrix.create(1, Policy::Never); } if (use[a] == MM2) { s->MomentMatrix.create(2, Policy::Never); } } last = all_tables(*s, fc); }
            mt::Options o; o.preemptions = preemptions; o.max_seconds = seconds; c.count("programs");
            auto body = [&] {
                std::shared_ptr<MatrixSystem> s = w.make(); if (prepared) { s->MomentMatrix.create(1, Policy::Never); } std::vector<std::thread> threads; auto &t = tensors(*s);
                for (size_t i = 0; i < prog.size(); ++i) { threads.emplace_back([&, i] { for (auto a : prog[i]) { switch (use[a]) {
                    case MM1: (void)s->MomentMatrix.create(1, Policy::Never); break;
                    case MM2: (void)s->MomentMatrix.create(2, Policy::Never); break;
                    case CG: { auto lock = s->get_read_lock(); bool all = t.RefreshCollinsGisin(lock); mt::require(s->is_locked_read_lock(lock), "lock lost"); sound(entries(*s, t.CollinsGisin()), cg, all, "CG"); break; }
                    case FC: { auto lock = s->get_read_lock(); bool all = t.RefreshFullCorrelator(lock); mt::require(s->is_locked_read_lock(lock), "lock lost"); sound(entries(*s, t.FullCorrelator()), f, all, "FC"); sound(entries(*s, t.CollinsGisin()), cg, false, "CG"); break; }
                    case PT: { auto lock = s->get_read_lock(); bool all = t.RefreshProbabilityTensor(lock); mt::require(s->is_locked_read_lock(lock), "lock lost"); sound(entries(*s, t.ProbabilityTensor()), pt, all, "PT"); sound(entries(*s, t.CollinsGisin()), cg, false, "CG"); break; }
                    case CG2: { bool all = t.RefreshCollinsGisin(); auto lock = s->get_read_lock(); const auto &x = t.CollinsGisin(); sound(entries(*s, x), cg, all, "CG"); lock.unlock(); lock.lock(); mt::require(&x == &t.CollinsGisin(), "the CG tensor was replaced"); break; }
                    case PT2: { bool all = t.RefreshProbabilityTensor(); auto lock = s->get_read_lock(); const auto &x = t.ProbabilityTensor(); sound(entries(*s, x), pt, all, "PT"); lock.unlock(); lock.lock(); mt::require(&x == &t.ProbabilityTensor(), "the tensor was replaced"); break; }
                    case LOOK: { auto lock = s->get_read_lock(); for (auto &[x, want] : words) { auto r = s->Symbols().where(w.seq(s->Context(), x)); if (r.found()) { auto got = meaning(*s, r->Id()) + (r.is_conjugated ? "*" : ""); mt::require(got == want, "symbol look-up", [&] { return mc::cat(mc::show(x), ": ", got, " expected ", want); }); } } for (size_t k = 0; k < s->Symbols().size(); ++k) { (void)meaning(*s, symbol_name_t(k)); } break; }
                    default: break; } } }); }
                for (auto &x : threads) { x.join(); }
                auto got = all_tables(*s, fc); mt::require(got == last, "tables differ afterwards", [&] { return mc::cat("one after another: ", last, "\nhere: ", got); });
            };
            if (preemptions < 0) { mt::explore(c, name, o, body); } else { mt::explore_iteratively(c, name, o, body); }
        });
    }
}
namespace mc {
    void register_cases(Registry &reg) {
        auto add = [&](const Table &t, std::vector<size_t> ops, int quick, int thorough, bool deep = false) { auto nm = mc::cat(t.name, ", questions ", mc::show(ops)); auto f = [=](Ctx &c) { ask_all(c, t, ops, c.quick() ? quick : thorough, c.quick() ? 10 : 300); }; if (deep) { reg.deep(nm, f, 3600); } else { reg.add(nm, f, 1500); } };
        const World one = locality({{2, 2}}, 1, 2), two = locality({{2}, {2}}, 1, 2), tri = locality({{3, 2}}, 1, 2), three = locality({{2}, {2}, {2}}, 1, 2);
        const World p2 = pauli(2, 1, false, false, false, 1, 2), p3s = pauli(3, 1, false, true, true, 1, 2), inf = inflation(net("one-source"), 2, 1, 2), pair = inflation(net("bell"), 1, 1, 2);
        std::vector<World> ws{one, two, p2, inf}; for (auto &a : aref::algebras()) { auto w = algebra(a, 1, 2); if (w.ops <= 2) { ws.push_back(w); } } for (auto &a : aref::signed_algebras()) { auto w = algebra(a, 1, 2); if (w.ops <= 2) { ws.push_back(w); } }
        for (size_t i = 0; i < ws.size(); ++i) { auto &w = ws[i]; auto t = word_lists(w, w.ops > 4 ? 1 : 2, i == 0); add(t, {1, 1}, -1, -1); add(t, {2, 1}, -1, -1); add(t, {1, 1, 1}, -1, -1); add(t, {2, 2}, -1, -1, i > 2); }
        for (auto &w : {p2, p3s}) { auto t = word_lists(w, 1, false, {Pauli::NearestNeighbourIndex{1, 0}, Pauli::NearestNeighbourIndex{1, 1}, Pauli::NearestNeighbourIndex{2, 1}}); t.name += " with neighbours"; add(t, {1, 1}, -1, -1); add(t, {2, 1}, -1, -1); add(t, {1, 1, 1}, -1, -1, true); }
        const gref::Subst swap{Elem{{Raw{1}, 1.0}}, Elem{{Raw{0}, 1.0}}}, flip{Elem{{Raw{}, 1.0}, {Raw{0}, -1.0}}, Elem{{Raw{1}, 1.0}}};
        for (size_t top : {2, 3}) { auto t = representations(mc::cat("swap up to ", top), one, {swap}, top); add(t, {1, 1}, -1, -1); add(t, {2, 1}, -1, -1); add(t, {1, 1, 1}, -1, -1); }
        add(representations("swap and flip up to 2", one, {swap, flip}, 2), {1, 1}, -1, -1);
        for (auto &w : {one, p2, inf}) for (bool poly : {false, true}) { auto t = bases(w, poly); add(t, {1, 1}, -1, -1); add(t, {2, 1}, -1, -1); add(t, {1, 1, 1}, -1, -1, true); }
        auto tab = [&](const World &w, bool fc, bool mm2, std::vector<size_t> ops, bool prepared, int quick, int thorough, bool deep = false) { auto nm = mc::cat("tables of ", w.name, ", actions ", mc::show(ops), prepared ? " after a matrix" : ""); auto f = [=](Ctx &c) { tables(c, w, fc, ops, mm2, c.quick() ? quick : thorough, c.quick() ? 10 : 300, prepared); }; if (deep) { reg.deep(nm, f, 3600); } else { reg.add(nm, f, 1500); } };
        for (bool prepared : {false, true}) {
            tab(two, true, false, {1, 1}, prepared, -1, -1); tab(two, true, false, {2, 1}, prepared, 2, -1); tab(two, true, false, {1, 1, 1}, prepared, 2, -1); tab(one, true, true, {1, 1}, prepared, -1, -1); tab(tri, false, true, {1, 1}, prepared, -1, -1); tab(inf, false, false, {1, 1}, prepared, -1, -1); tab(pair, false, false, {1, 1}, prepared, -1, -1); tab(three, true, true, {1, 1}, prepared, -1, -1); tab(two, true, false, {2, 2}, prepared, 1, -1, true); tab(inf, false, false, {2, 1}, prepared, 1, -1); }
    }
}
