// P14: several threads ask one matrix system for matrices, in every schedule, against what they get one after another.
#include "systems.h"
#include <deque>
using mc::Ctx; using namespace sysm;
namespace {
    using Sys = std::shared_ptr<MatrixSystem>;
    /** something a thread can do; the answer is an object, a text, or neither */
    struct Answer { const void *object = nullptr; std::string text; };
    struct Act { std::string name; std::function<Answer(MatrixSystem &, std::vector<Bound> &)> run; bool maybe = false; /* may also find nothing */ };
    struct Setup { std::string name; std::function<Sys()> make; std::vector<Desc> descs; std::vector<Act> acts; };

    std::string body_text(const SymbolicMatrix &m) { // without the symbol table
        std::string s = mc::cat(m.Dimension(), ":"); for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j) { for (auto &[id, f, cj] : mref::terms(m, i, j)) { s += mc::cat(id, number(f), cj); } s += ";"; } return s; }
    Act create(size_t d, const Desc &e) { return {"create " + e.name, [d](MatrixSystem &, std::vector<Bound> &b) { auto [n, m] = b[d].create(Policy::Never); Answer a{m, {}}; (void)body_text(*m); return a; }}; }
    Act call(size_t d, const Desc &e) { return {"() " + e.name, [d](MatrixSystem &, std::vector<Bound> &b) { auto *m = b[d].make(); (void)body_text(*m); return Answer{m, {}}; }}; }
    Act find(size_t d, const Desc &e) { return {"find " + e.name, [d](MatrixSystem &, std::vector<Bound> &b) { try { auto *m = b[d].find(); (void)body_text(*m); return Answer{m, {}}; } catch (const Moment::errors::missing_component &) { return Answer{}; } }, true}; }
    Act get(size_t d, const Desc &e) { return {"const() " + e.name, [d](MatrixSystem &, std::vector<Bound> &b) { try { auto *m = b[d].get(); (void)body_text(*m); return Answer{m, {}}; } catch (const Moment::errors::missing_component &) { return Answer{}; } }, true}; }

    /** everything in the system, in terms of words, whatever the order it was made in */
    std::string all_of(const MatrixSystem &s) { std::multiset<std::string> m; for (size_t i = 0; i < s.size(); ++i) { m.insert(picture(s, s[ptrdiff_t(i)])); } std::string t; for (auto &x : m) { t += x; } return t + symbols(s) + mc::cat(" rulebooks ", s.Rulebook.size()); }

    void run(Ctx &c, const Setup &s, const std::vector<size_t> &ops, int preemptions, double seconds, long only = -1) {
        std::map<size_t, std::string> own; for (size_t d = 0; d < s.descs.size(); ++d) { auto t = s.make(); try { own[d] = picture(*t, *s.descs[d].bind(*t).create(Policy::Never).second); } catch (const std::exception &) {} }
        programs(ops, s.acts.size(), [&](auto &prog) {
            if (only >= 0 && prog[0][0] != size_t(only)) { return; }
            std::string name = s.name; for (auto &p : prog) { name += "; thread:"; for (auto q : p) { name += " " + s.acts[q].name + ","; } } c.count("programs");
            std::string want; { auto t = s.make(); std::vector<Bound> b; for (auto &d : s.descs) { b.push_back(d.bind(*t)); } for (auto &p : prog) for (auto q : p) { (void)s.acts[q].run(*t, b); } want = all_of(*t); }
            mt::Options o; o.preemptions = preemptions; o.max_seconds = seconds;
            auto body = [&] {
                auto t = s.make(); std::vector<Bound> b; for (auto &d : s.descs) { b.push_back(d.bind(*t)); }
                std::deque<std::vector<Answer>> got(prog.size()); std::vector<std::thread> threads; for (size_t i = 0; i < prog.size(); ++i) { got[i].resize(prog[i].size()); }
                for (size_t i = 0; i < prog.size(); ++i) { threads.emplace_back([&, i] { for (size_t k = 0; k < prog[i].size(); ++k) { got[i][k] = s.acts[prog[i][k]].run(*t, b); } }); }
                for (auto &x : threads) { x.join(); }
                std::string now = all_of(*t); mt::require(now == want, "system differs", [&] { return "one after another: " + want + "\nhere: " + now; });
                std::map<std::string, const void *> first;
                for (size_t i = 0; i < prog.size(); ++i) { bool seen = false; for (size_t k = 0; k < prog[i].size(); ++k) { auto &a = s.acts[prog[i][k]]; auto what = a.name.substr(a.name.find(' ') + 1);
                    if (!got[i][k].object) { mt::require(a.maybe || !got[i][k].text.empty(), "no answer", [&] { return a.name; }); continue; } (void)seen;
                    auto [it, fresh] = first.emplace(what, got[i][k].object); mt::require(it->second == got[i][k].object, "one description, two objects", [&] { return a.name; }); } }
                for (size_t d = 0; d < s.descs.size(); ++d) { auto n = b[d].find_index(); if (n < 0) { continue; } auto it = first.find(s.descs[d].name); const auto &m = (*t)[n];
                    mt::require(it == first.end() || it->second == &m, "answer is not what the system holds", [&] { return s.descs[d].name; });
                    if (own.count(d) && s.descs[d].name.substr(0, 3) != "Sub") { std::string p = picture(*t, m); mt::require(p == own[d], "wrong contents", [&] { return s.descs[d].name + "\nalone: " + own[d] + "\nhere: " + p; }); } } };
            if (preemptions < 0) { mt::explore(c, name, o, body); } else { mt::explore_iteratively(c, name, o, body); }
        });
    }
}

namespace mc {
    void register_cases(Registry &reg) {
        std::vector<Setup> all;
        auto with = [](const World &w, size_t words) { return [w, words]() -> Sys { std::shared_ptr<MatrixSystem> s = w.make(); if (words) { s->generate_dictionary(words); } return s; }; };
        auto add = [&](const std::string &n, std::function<Sys()> make, std::vector<Desc> descs, std::vector<Act> more = {}) { Setup s{n, std::move(make), std::move(descs), {}}; for (size_t d = 0; d < s.descs.size(); ++d) { s.acts.push_back(create(d, s.descs[d])); s.acts.push_back(call(d, s.descs[d])); } for (size_t d = 0; d < s.descs.size(); ++d) { auto t = s.make(); if (s.descs[d].bind(*t).find) { s.acts.push_back(find(d, s.descs[d])); s.acts.push_back(get(d, s.descs[d])); break; } } for (auto &m : more) { s.acts.push_back(m); } all.push_back(std::move(s)); };
        const World one = locality({{2, 2}}, 1, 2), tiny = locality({{2}}, 1, 2);
        const Act fill{"words up to 2", [](MatrixSystem &s, std::vector<Bound> &) { (void)s.generate_dictionary(2); return Answer{nullptr, "done"}; }};
        auto rule = [](const World &w, Terms e) { return Act{"rulebook", [=](MatrixSystem &s, std::vector<Bound> &) { std::unique_ptr<MomentRulebook> r; { auto lock = s.get_read_lock(); r = std::make_unique<MomentRulebook>(s); std::vector<Polynomial> p; p.push_back(poly(w, s, e)); r->add_raw_rules(std::move(p)); r->complete(); } auto [n, b] = s.Rulebook.add(std::move(r)); return Answer{nullptr, "done"}; }}; };
        auto rawreg = [](const World &w, Terms e) { return Act{"raw", [=](MatrixSystem &s, std::vector<Bound> &) { auto r = raw(w, s, e); auto [n, m] = s.create_and_register_localizing_matrix(1, r, Policy::Never); (void)body_text(m); return Answer{nullptr, "done"}; }}; };
        add("moments", with(tiny, 0), {moment(1), moment(0)}, {fill});
        add("moments of two operators", with(one, 0), {moment(1), local(one, 1, Raw{0})}, {fill});
        add("localizing", with(one, 2), {local(one, 0, Raw{0}), local(one, 0, Raw{1}), local(one, 1, Raw{0})}, {rawreg(one, {{{0}, 2.0}, {{1}, 1.0}})});
        add("polynomial localizing", with(one, 2), {local(one, 0, Terms{{{0}, 1.0}, {{1}, 1.0}}), local(one, 0, Raw{0}), local(one, 0, Terms{{{0}, 1.0}, {{1}, 2.0}})});
        { auto make = [one]() -> Sys { std::shared_ptr<MatrixSystem> s = one.make(); s->generate_dictionary(2); (void)s->MomentMatrix.create(1, Policy::Never); auto r = std::make_unique<MomentRulebook>(*s); std::vector<Polynomial> p; p.push_back(poly(one, *s, {{{0}, 1.0}, {{}, -0.5}})); r->add_raw_rules(std::move(p)); r->complete(); (void)s->Rulebook.add(std::move(r)); return s; };
          add("substituted", make, {subst(0, 0), moment(0)}, {rule(one, {{{1}, 1.0}, {{}, -0.5}})}); }
        for (auto &w : {pauli(1, 1, false, false, false, 1, 2), pauli(2, 1, false, true, true, 1, 2)}) {
            add("pauli " + w.name, with(w, 2), {pmoment(1, 0), moment(1), plocal(w, 0, 0, Raw{0}), local(w, 0, Raw{0})});
            add("pauli commutators " + w.name, with(w, 2), {pcomm(w, 1, 0, Raw{0}), panti(w, 1, 0, Raw{0}), pcomm(w, 0, 0, Terms{{{0}, 1.0}, {{1}, 2.0}}), panti(w, 0, 0, Terms{{{0}, 1.0}, {{1}, 2.0}})}); }
        { auto w = inflation(net("one-source"), 2, 1, 2); auto make = [w]() -> Sys { std::shared_ptr<MatrixSystem> s = w.make(); s->generate_dictionary(2); (void)s->MomentMatrix.create(1, Policy::Never); return s; };
          add("inflation", make, {extended(w, 1, {{0}}), extended(w, 1, {{0}, {0, w.ops - 1}}), moment(0)}); }
        { auto w = one; auto make = [w]() -> Sys { std::shared_ptr<MatrixSystem> base = w.make(); base->generate_dictionary(2); const Context &ctx = base->Context(); std::vector<gref::repmat_t> g; { mt::Unmanaged u; gref::Subst swap{w.word(Raw{1}), w.word(Raw{0})}; g.push_back(gref::sparse(*gref::matrix(w, swap, gref::basis(ctx, 1)))); }
            auto grp = std::make_unique<gref::Group>(ctx, std::make_unique<gref::Representation>(1, gref::Group::dimino_generation(g, 9)));
            return std::make_shared<Symmetrized::SymmetrizedMatrixSystem>(std::move(base), std::move(grp), 2, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, Policy::Never); };
          auto base = [](MatrixSystem &s) -> MatrixSystem & { return dynamic_cast<Derived::DerivedMatrixSystem &>(s).base_system(); };
          add("symmetrized", make, {moment(1), local(w, 0, Raw{0})}, {Act{"base", [base](MatrixSystem &s, std::vector<Bound> &) { auto [n, m] = base(s).MomentMatrix.create(1, Policy::Never); (void)body_text(m); return Answer{nullptr, "done"}; }}}); }
        for (auto &s : all) {
            const bool q = reg.quick(); auto n = [](const std::vector<size_t> &o) { std::string t; for (auto x : o) { t += mc::cat(t.empty() ? "" : "+", x); } return t; };
            for (long i = 0; i < long(s.acts.size()); ++i) {
                for (auto &o : std::vector<std::vector<size_t>>{{1, 1}, {2, 1}, {1, 1, 1}}) { reg.add(mc::cat(s.name, ", ", n(o), ", from ", s.acts[size_t(i)].name), [=](Ctx &c) { run(c, s, o, -1, q ? 4 : 900, i); }, 7200); }
                for (auto &o : std::vector<std::vector<size_t>>{{2, 2}, {2, 1, 1}, {3, 1}}) { reg.deep(mc::cat(s.name, ", ", n(o), ", from ", s.acts[size_t(i)].name), [=](Ctx &c) { run(c, s, o, -1, 60, i); }, 7200); } } }
    }
}
