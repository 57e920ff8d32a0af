// P14: every short history of requests to a matrix system, against a reference that remembers what was made.
#include "systems.h"
using mc::Ctx; using namespace sysm;
namespace {
    using Sys = std::shared_ptr<MatrixSystem>;
    /** how a matrix came about, so that it can be made again alone in another system */
    struct Recipe { std::string key; std::function<const SymbolicMatrix *(MatrixSystem &)> make; };
    struct Setup { std::string name; World w; std::function<Sys()> make; std::vector<Desc> descs; std::vector<Terms> rules; std::vector<Terms> raws; };

    struct Unnamed {}; // a matrix that came into being on the way, and has no description of its own here
    struct Record { ptrdiff_t offset; const SymbolicMatrix *m; std::string picture; bool deleted = false; };
    struct Slot { Recipe recipe; const SymbolicMatrix *m; std::string picture; bool deleted = false; };
    struct Model { std::map<size_t, Record> known; std::vector<Slot> slots; std::vector<std::set<size_t>> books; };
    enum What { CREATE, CALL, DELETE, ADD, MERGE, RAW, FILL, PUSH };
    struct Op { What what; long arg; std::string name; };

    struct Run {
        Ctx &c; const Setup &s; std::map<std::string, std::string> &twins; std::string history; Sys sys; Model m; std::vector<Bound> b;
        Run(Ctx &c, const Setup &s, std::map<std::string, std::string> &twins) : c(c), s(s), twins(twins), sys(s.make()) { for (auto &d : s.descs) { b.push_back(d.bind(*sys)); } m.slots.resize(sys->size(), Slot{}); for (size_t i = 0; i < sys->size(); ++i) { m.slots[i] = {{mc::cat("initial", i), [i](MatrixSystem &t) { return &t[ptrdiff_t(i)]; }}, &(*sys)[ptrdiff_t(i)], picture(*sys, (*sys)[ptrdiff_t(i)])}; }
            for (size_t d = 0; d < s.descs.size(); ++d) { auto n = b[d].find_index(); if (n >= 0 && n < ptrdiff_t(sys->size())) { m.known[d] = {n, m.slots[size_t(n)].m, m.slots[size_t(n)].picture}; if (auto r = recipe(d)) { req(same(twin(*r), m.slots[size_t(n)].picture), "wrong contents", [&] { return s.descs[d].name; }); } } } }
        bool req(bool ok, const std::string &k, const std::function<std::string()> &f) { return c.require(ok, mc::cat(s.name, ": ", k), [&] { return history + "\n" + f(); }); }

        std::unique_ptr<MomentRulebook> book(MatrixSystem &t, const std::set<size_t> &rules) { auto r = std::make_unique<MomentRulebook>(t); std::vector<Polynomial> p; for (auto i : rules) { p.push_back(poly(s.w, t, s.rules[i])); } r->add_raw_rules(std::move(p)); r->complete(); return r; }
        /** what the description stands for now; nothing if it refers to something that does not exist */
        std::optional<Recipe> recipe(size_t d) {
            auto &n = s.descs[d].name; long a = -1, bk = -1;
            if (sscanf(n.c_str(), "Sub%ld,%ld", &a, &bk) == 2) {
                if (a < 0 || size_t(a) >= m.slots.size() || m.slots[size_t(a)].deleted || bk < 0 || size_t(bk) >= m.books.size()) { return std::nullopt; }
                auto src = m.slots[size_t(a)].recipe; auto rules = m.books[size_t(bk)]; std::string k = "Sub(" + src.key + ","; for (auto r : rules) { k += mc::cat(r, " "); }
                return Recipe{k + ")", [=, this](MatrixSystem &t) -> const SymbolicMatrix * { const auto *x = src.make(t); auto [n, rb] = t.Rulebook.add(book(t, rules)); for (ptrdiff_t i = 0; i < ptrdiff_t(t.size()); ++i) { if (&t[i] == x) { return &t.SubstitutedMatrix.create(SubstitutedMatrixIndex{i, ptrdiff_t(n)}, Policy::Never).second; } } return nullptr; }}; }
            if (sscanf(n.c_str(), "Der%ld", &a) == 1) { // what that matrix of the base system becomes; its contents are those of the description it was made from
                auto &base = dynamic_cast<Derived::DerivedMatrixSystem &>(*sys).base_system(); if (a < 0 || size_t(a) >= base.size()) { return std::nullopt; } auto pic = picture(base, base[a]);
                for (size_t e = 0; e < s.descs.size(); ++e) { if (s.descs[e].name.substr(0, 3) == "Der" || s.descs[e].name.substr(0, 3) == "Sub") { continue; } auto key = "base of " + s.descs[e].name;
                    auto it = twins.find(key); if (it == twins.end()) { std::string p; { auto t = s.make(); auto &tb = dynamic_cast<Derived::DerivedMatrixSystem &>(*t).base_system(); size_t before = tb.size(); try { (void)s.descs[e].bind(*t).create(Policy::Never); ptrdiff_t n = -1; for (size_t i = 0; i < tb.size(); ++i) { auto x = dynamic_cast<Derived::DerivedMatrixSystem &>(*t).DerivedMatrices.find_index(Derived::DerivedMatrixIndex{i}); if (x >= 0 && &(*t)[x] == s.descs[e].bind(*t).create(Policy::Never).second) { n = ptrdiff_t(i); } } (void)before; p = n < 0 ? "none" : picture(tb, tb[n]); } catch (const std::exception &) { p = "refused"; } } it = twins.emplace(key, p).first; }
                    if (it->second == pic) { return Recipe{s.descs[e].name, [this, e](MatrixSystem &t) { return s.descs[e].bind(t).create(Policy::Never).second; }}; } }
                req(false, "no description for a matrix of the base system", [&] { return pic; }); return std::nullopt; }
            return Recipe{n, [this, d](MatrixSystem &t) { return s.descs[d].bind(t).create(Policy::Never).second; }}; }
        static bool same(const std::string &alone, const std::string &here) { return alone == "unknown" || alone == here; }
        [[nodiscard]] bool any_gone() const { for (auto &x : m.slots) { if (x.deleted) { return true; } } return false; }
        const std::string &twin(const Recipe &r) { auto it = twins.find(r.key); if (it == twins.end()) { std::string p; { auto t = s.make(); try { p = picture(*t, *r.make(*t)); } catch (const Unnamed &) { p = "unknown"; } catch (const std::exception &e) { p = std::string("refused"); } } it = twins.emplace(r.key, p).first; ++c.traces; } return it->second; }

        void took(size_t d, const Recipe &r, Made made, size_t before) { // a description has been answered for the first time (since deletion)
            auto [n, p] = made; if (!req(n >= 0 && size_t(n) < sys->size(), "number out of range", [&] { return mc::cat(s.descs[d].name, " has number ", n, " of ", sys->size()); })) { return; }
            std::string pic = picture(*sys, *p); req(same(twin(r), pic), "wrong contents", [&] { return s.descs[d].name + "\nalone: " + twin(r) + "\nhere: " + pic; });
            bool fresh = size_t(n) >= before; if (!fresh) { bool same = !m.slots[size_t(n)].deleted && m.slots[size_t(n)].m == p && m.slots[size_t(n)].picture == pic; req(same, "new description got an old number", [&] { return mc::cat(s.descs[d].name, " got ", n); }); }
            while (m.slots.size() < sys->size()) { m.slots.push_back({}); }
            if (fresh) { req(m.slots[size_t(n)].m == nullptr || m.slots[size_t(n)].m == p, "one number, two objects", [&] { return s.descs[d].name; }); m.slots[size_t(n)] = {r, p, pic}; }
            m.known[d] = {n, p, pic}; }
        void ask(size_t d, bool call) {
            size_t before = sys->size(); auto r = recipe(d); auto it = m.known.find(d); const bool had = it != m.known.end(), gone = had && it->second.deleted;
            Made made{-1, nullptr}; std::string error; bool missing = false;
            try { if (call) { made.second = b[d].make(); made.first = b[d].find_index(); } else { made = b[d].create(Policy::Never); } } catch (const Moment::errors::missing_component &e) { error = e.what(); missing = true; } catch (const std::exception &e) { error = e.what(); }
            if (had && !gone) { req(made.second == it->second.m && made.first == it->second.offset && sys->size() == before, "second request answered differently", [&] { return mc::cat(s.descs[d].name, ": first ", it->second.offset, ", then ", made.first, " ", error, ", matrices ", before, " -> ", sys->size()); }); return; }
            if (!made.second) {
                std::string want = r ? twin(*r) : "refused"; const bool any_deleted = gone || any_gone();
                req(want == "refused" || want == "unknown" || any_deleted, "request refused", [&] { return s.descs[d].name + ": " + error; });
                req(r || gone || missing || s.descs[d].name.substr(0, 3) == "Der", "missing part not reported as missing", [&] { return s.descs[d].name + ": " + error; });
                found(before); return; }
            if (!req(r.has_value() || gone, "made out of something missing", [&] { return s.descs[d].name; })) { return; }
            if (r) { took(d, *r, made, before); } found(before); }
        /** anything else that has become available on the way */
        void found(size_t before) {
            while (m.slots.size() < sys->size()) { m.slots.push_back({}); }
            for (size_t d = 0; d < s.descs.size(); ++d) { if (m.known.count(d)) { continue; } auto n = b[d].find_index(); if (n < 0) { continue; } auto r = recipe(d);
                if (!req(r && size_t(n) < sys->size(), "number for something never made", [&] { return mc::cat(s.descs[d].name, " has ", n, " of ", sys->size()); })) { continue; } took(d, *r, {n, &(*sys)[n]}, before); }
            for (size_t i = before; i < m.slots.size(); ++i) { if (!m.slots[i].m) { const auto *p = &(*sys)[ptrdiff_t(i)]; m.slots[i] = {{mc::cat("unnamed", i, history), [](MatrixSystem &) -> const SymbolicMatrix * { throw Unnamed{}; }}, p, picture(*sys, *p)}; } } }
        void apply(const Op &o) {
            history += o.name + "; "; ++c.transitions; const size_t before = sys->size();
            switch (o.what) {
                case CREATE: case CALL: ask(size_t(o.arg), o.what == CALL); break;
                case DELETE: { ptrdiff_t n = o.arg == -2 ? ptrdiff_t(before) : o.arg == -3 ? ptrdiff_t(before) - 1 : ptrdiff_t(o.arg); bool want = n >= 0 && size_t(n) < before && !m.slots[size_t(n)].deleted; bool got; { auto lock = sys->get_write_lock(); got = sys->delete_matrix(lock, n); }
                    req(got == want, "delete answers wrongly", [&] { return mc::cat("delete ", n, " of ", before, " says ", got); }); req(sys->size() == before, "delete renumbers", [&] { return mc::cat(before, " -> ", sys->size()); });
                    if (want) { m.slots[size_t(n)].deleted = true; for (auto &[d, r] : m.known) { if (r.offset == n) { r.deleted = true; } } } break; }
                case ADD: { std::set<size_t> r{size_t(o.arg)}; auto [n, bk] = sys->Rulebook.add(book(*sys, r)); req(n == m.books.size(), "rulebook number", [&] { return mc::cat(n); }); m.books.push_back(r); req(&sys->Rulebook.find(n) == &bk, "rulebook address", [] { return ""; }); break; }
                case MERGE: { bool ok = true; try { auto bk = book(*sys, {size_t(o.arg)}); auto [n, res] = sys->Rulebook.merge_in(0, std::move(*bk)); req(n == 0 && &res == &sys->Rulebook.find(0), "merged rulebook", [] { return ""; }); } catch (const Moment::errors::missing_component &) { ok = false; } catch (const Moment::errors::already_in_use &) { req(!m.books.empty() && sys->Rulebook.find(0).in_use(), "merge refused", [] { return ""; }); break; }
                    req(ok == !m.books.empty(), "merge into a missing rulebook", [] { return ""; }); if (ok) { m.books[0].insert(size_t(o.arg)); } break; }
                case RAW: { auto terms = s.raws[size_t(o.arg)]; ptrdiff_t n; const SymbolicMatrix *xp; try { auto [i, y] = sys->create_and_register_localizing_matrix(1, raw(s.w, *sys, terms), Policy::Never); n = i; xp = &y; } catch (const std::exception &e) { req(any_gone(), "request refused", [&] { return e.what(); }); found(before); break; } const auto &x = *xp; Recipe r{mc::cat("raw", o.arg), [this, terms](MatrixSystem &t) -> const SymbolicMatrix * { return &t.create_and_register_localizing_matrix(1, raw(s.w, t, terms), Policy::Never).second; }};
                    req(n >= ptrdiff_t(before) && size_t(n) < sys->size(), "raw number", [&] { return mc::cat(n); }); std::string pic = picture(*sys, x); req(same(twin(r), pic), "wrong contents", [&] { return "alone: " + twin(r) + "\nhere: " + pic; }); while (m.slots.size() < sys->size()) { m.slots.push_back({}); } m.slots[size_t(n)] = {r, &x, pic}; found(before); break; }
                case PUSH: { auto src = m.slots.empty() || m.slots[0].deleted ? nullptr : m.slots[0].m; if (!src) { break; } auto copy = src->clone(Policy::Never); const auto *p = copy.get(); ptrdiff_t n; { auto lock = sys->get_write_lock(); n = sys->push_back(lock, std::move(copy)); } req(n == ptrdiff_t(before), "pushed number", [&] { return mc::cat(n); }); m.slots.push_back({m.slots[0].recipe, p, picture(*sys, *p)}); break; }
                case FILL: (void)sys->generate_dictionary(size_t(o.arg)); found(before); break; } }
        void check() {
            ++c.states; req(sys->size() == m.slots.size(), "matrix count", [&] { return mc::cat(sys->size(), " vs ", m.slots.size()); }); const MatrixSystem &cs = *sys;
            auto missing = [&](auto f) { try { (void)f(); return false; } catch (const Moment::errors::missing_component &) { return true; } };
            for (ptrdiff_t n = -2; n < ptrdiff_t(m.slots.size()) + 2; ++n) { bool there = n >= 0 && size_t(n) < m.slots.size() && !m.slots[size_t(n)].deleted;
                if (!there) { req(missing([&] { return &cs[n]; }) && missing([&] { return &sys->get(n); }), "number without a matrix not reported", [&] { return mc::cat("number ", n, " of ", m.slots.size()); }); continue; }
                auto &sl = m.slots[size_t(n)]; if (!req(&cs[n] == sl.m && &sys->get(n) == sl.m, "matrix moved", [&] { return mc::cat("number ", n); })) { continue; }
                std::string now = picture(*sys, *sl.m); req(now == sl.picture, "matrix changed", [&] { return "before: " + sl.picture + "\nnow: " + now; }); }
            for (size_t d = 0; d < s.descs.size(); ++d) { auto it = m.known.find(d); auto n = b[d].find_index(); bool has = b[d].contains();
                if (it == m.known.end()) {
                    req(n < 0 && !has, "found without being made", [&] { return s.descs[d].name; }); if (b[d].find) { req(missing([&] { return b[d].find(); }) && missing([&] { return b[d].get(); }), "absence not reported", [&] { return s.descs[d].name; }); } continue; }
                auto &r = it->second; if (r.deleted) { if (b[d].find) { req(missing([&] { return b[d].find(); }) && missing([&] { return b[d].get(); }), "deletion not reported", [&] { return s.descs[d].name; }); } continue; }
                req(n == r.offset && has, "number changed", [&] { return mc::cat(s.descs[d].name, ": ", r.offset, " now ", n); }); if (b[d].find) { req(b[d].find() == r.m && b[d].get() == r.m, "found another object", [&] { return s.descs[d].name; }); } }
            req(sys->Rulebook.size() == m.books.size() && missing([&] { return &sys->Rulebook.find(m.books.size()); }), "rulebook count", [&] { return mc::cat(sys->Rulebook.size()); }); }
    };

    void explore(Ctx &c, const Setup &s, const std::vector<Op> &ops, size_t depth, const std::vector<size_t> &first) {
        std::map<std::string, std::string> twins;
        std::vector<size_t> h; std::function<void()> rec = [&] {
            if (h.size() >= first.size()) { Run r(c, s, twins); c.step("%s", [&] { std::string t = s.name + ":"; for (auto i : h) { t += " " + ops[i].name + ";"; } return t; }().c_str()); for (auto i : h) { r.apply(ops[i]); } r.check(); if (h.size() == depth) { c.sample(r.history + mc::cat(r.m.slots.size(), " matrices")); } }
            if (h.size() == depth) { return; }
            for (size_t i = 0; i < ops.size(); ++i) { if (h.size() < first.size() && i != first[h.size()]) { continue; } h.push_back(i); rec(); h.pop_back(); } };
        rec(); }

    std::vector<Op> ops_for(const Setup &s, bool calls) {
        std::vector<Op> o; for (size_t d = 0; d < s.descs.size(); ++d) { o.push_back({CREATE, long(d), s.descs[d].name}); if (calls) { o.push_back({CALL, long(d), "()" + s.descs[d].name}); } }
        for (long k : {0L, 1L, -2L, -3L, -1L}) { o.push_back({DELETE, k, mc::cat("delete ", k == -2 ? "one past the end" : k == -3 ? "last" : std::to_string(k))}); }
        for (size_t r = 0; r < s.rules.size(); ++r) { o.push_back({ADD, long(r), mc::cat("rules ", r)}); o.push_back({MERGE, long(r), mc::cat("merge ", r)}); }
        for (size_t r = 0; r < s.raws.size(); ++r) { o.push_back({RAW, long(r), mc::cat("raw ", r)}); }
        o.push_back({FILL, 3, "words up to 3"}); o.push_back({PUSH, 0, "push a copy of 0"}); return o; }
}

namespace mc {
    void register_cases(Registry &reg) {
        std::vector<Setup> all;
        auto with = [](const World &w, size_t words) { return [w, words]() -> Sys { std::shared_ptr<MatrixSystem> s = w.make(); s->generate_dictionary(words); return s; }; };
        const cd I{0, 1}; const World one = locality({{2, 2}}, 1, 2), two = locality({{2}, {2}}, 1, 2);
        all.push_back({"moments", one, with(one, 2), {moment(0), moment(1), moment(2), subst(0, 0), subst(1, 0), subst(0, 1), subst(2, 0)}, {{{{0}, 1.0}, {{}, -0.5}}, {{{0}, 1.0}, {{1}, -1.0}}}, {}});
        all.push_back({"localizing", one, with(one, 2), {moment(1), local(one, 1, Raw{0}), local(one, 1, Raw{1}), local(one, 1, Raw{0, 1}), local(one, 1, Raw{1, 0}), local(one, 0, Raw{0}), local(one, 1, Raw{0}, 1), local(one, 1, Raw{0}, 2), local(one, 1, Raw{})}, {}, {{{{0}, 2.0}, {{1}, 1.0}}}});
        all.push_back({"polynomial localizing", one, with(one, 2), {local(one, 1, Raw{0}), local(one, 1, Terms{{{0}, 1.0}, {{1}, 1.0}}), local(one, 1, Terms{{{0}, 1.0}, {{1}, 2.0}}), local(one, 0, Terms{{{0}, 1.0}, {{1}, 1.0}}), local(one, 1, Terms{{{0}, 2.0}}), local(one, 1, Terms{{{0, 1}, I}, {{1}, 1.0}}), local(one, 1, Terms{{{1, 0}, I}, {{1}, 1.0}}), local(one, 1, Terms{{{}, 1.0}, {{0}, -1.0}})}, {}, {{{{0}, 1.0}, {{1}, 1.0}}}});
        all.push_back({"bipartite", two, with(two, 2), {moment(1), moment(2), local(two, 1, Raw{0, 1}), local(two, 1, Raw{1, 0}), local(two, 1, Terms{{{0}, 1.0}, {{1}, -1.0}}), subst(0, 0), subst(1, 0)}, {{{{0, 1}, 1.0}, {{}, -0.25}}, {{{0}, 1.0}, {{1}, -1.0}}}, {{{{0}, 2.0}, {{0, 1}, I}}}});
        { auto algs = aref::signed_algebras(); size_t k = 0; for (auto &a : algs) { auto w = algebra(a, 1, 2); if (w.ops > 2 || k == 2) { continue; } ++k; all.push_back({"algebra " + w.name, w, with(w, 2), {moment(1), local(w, 1, Raw{0}), local(w, 1, Raw{0, 1 % w.ops}), local(w, 1, Raw{1 % w.ops, 0}), local(w, 1, Terms{{{0}, 1.0}, {{}, 1.0}}), subst(0, 0)}, {{{{0}, 1.0}, {{}, -0.5}}}, {}}); } }
        { auto algs = aref::algebras(); size_t k = 0; for (auto &a : algs) { auto w = algebra(a, 1, 2); if (w.ops != 2 || k == 2) { continue; } ++k; all.push_back({"algebra " + w.name, w, with(w, 2), {moment(0), moment(1), local(w, 1, Raw{0}), local(w, 1, Raw{0, 1}), local(w, 1, Raw{1, 0}), local(w, 1, Terms{{{0}, 1.0}, {{1}, -1.0}}), subst(0, 0), subst(1, 0)}, {{{{0, 1}, 1.0}, {{}, -0.5}}}, {}}); } }
        for (auto &w : {pauli(2, 1, false, false, false, 1, 2), pauli(3, 1, false, true, false, 1, 2), pauli(3, 1, false, true, true, 1, 2)}) {
            all.push_back({"pauli moments " + w.name, w, with(w, 2), {moment(1), pmoment(1, 0), pmoment(1, 1), pmoment(2, 1), pmoment(2, 0), local(w, 1, Raw{0}), plocal(w, 1, 0, Raw{0}), plocal(w, 1, 1, Raw{0}), plocal(w, 1, 0, Raw{3}), subst(0, 0)}, {{{{0}, 1.0}, {{}, -0.5}}}, {}});
            all.push_back({"pauli commutators " + w.name, w, with(w, 2), {pcomm(w, 1, 0, Raw{0}), pcomm(w, 1, 1, Raw{0}), pcomm(w, 1, 0, Raw{1}), panti(w, 1, 0, Raw{0}), panti(w, 1, 1, Raw{0}), plocal(w, 1, 0, Raw{0}), plocal(w, 1, 0, Terms{{{0}, 1.0}, {{1}, 2.0}}), pcomm(w, 1, 0, Terms{{{0}, 1.0}, {{1}, 2.0}}), panti(w, 1, 0, Terms{{{0}, 1.0}, {{1}, 2.0}}), panti(w, 1, 0, Terms{{{0}, 1.0}, {{1}, -2.0}}), local(w, 1, Terms{{{0}, 1.0}, {{1}, 2.0}})}, {}, {}}); }
        for (auto &w : {inflation(net("one-source"), 2, 1, 2), inflation(net("bell"), 1, 1, 2)}) {
            auto make = [w]() -> Sys { std::shared_ptr<MatrixSystem> s = w.make(); s->generate_dictionary(2); (void)s->MomentMatrix.create(1, Policy::Never); return s; };
            const int last = w.ops - 1; all.push_back({"inflation " + w.name, w, make, {moment(0), moment(1), local(w, 1, Raw{0}), extended(w, 1, {}), extended(w, 1, {{0}}), extended(w, 1, {{0}, {0, last}}), extended(w, 1, {{0, last}}), extended(w, 0, {{0}}), subst(0, 0)}, {{{{0}, 1.0}, {{}, -0.5}}}, {}}); }
        { auto w = one; all.push_back({"symmetrized", w, [w]() -> Sys { std::shared_ptr<MatrixSystem> base = w.make(); base->generate_dictionary(4); (void)base->MomentMatrix.create(1, Policy::Never); (void)base->LocalizingMatrix.create(LocalizingMatrixIndex{1, w.seq(base->Context(), Raw{0})}, Policy::Never);
                const Context &ctx = base->Context(); gref::Subst swap{w.word(Raw{1}), w.word(Raw{0})}; std::vector<gref::repmat_t> g{gref::sparse(*gref::matrix(w, swap, gref::basis(ctx, 1)))};
                auto grp = std::make_unique<gref::Group>(ctx, std::make_unique<gref::Representation>(1, gref::Group::dimino_generation(g, 9)));
                return std::make_shared<Symmetrized::SymmetrizedMatrixSystem>(std::move(base), std::move(grp), 4, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, Policy::Never); },
            {moment(0), moment(1), moment(2), moment(3), derived(0), derived(1), derived(2), local(w, 1, Raw{0}), local(w, 1, Raw{1}), local(w, 2, Raw{0}), subst(0, 0)}, {}, {}}); }
        { World w; w.name = "imported"; all.push_back({"imported", w, []() -> Sys { auto s = std::make_shared<Imported::ImportedMatrixSystem>(false); auto m = std::make_unique<SquareMatrix<Monomial>>(2, std::vector<Monomial>{Monomial{1}, Monomial{2}, Monomial{2, true}, Monomial{1}}); (void)s->import_matrix(std::move(m), true, true); return s; }, {moment(0), moment(1), subst(0, 0), subst(1, 0)}, {}, {}}); }
        for (auto &s : all) { auto ops = ops_for(s, true); auto plain = ops_for(s, false);
            for (size_t i = 0; i < plain.size(); ++i) { reg.add(mc::cat(s.name, ", 3, from ", plain[i].name), [=](Ctx &c) { explore(c, s, plain, 3, {i}); }, 600); }
            for (size_t i = 0; i < ops.size(); ++i) { reg.add(mc::cat(s.name, ", both ways, 2, from ", ops[i].name), [=](Ctx &c) { explore(c, s, ops, 2, {i}); }, 600); }
            for (size_t i = 0; i < plain.size(); ++i) for (size_t j = 0; j < plain.size(); ++j) { reg.deep(mc::cat(s.name, ", 4, from ", plain[i].name, " ", plain[j].name), [=](Ctx &c) { explore(c, s, plain, 4, {i, j}); }, 1800); } }
    }
}
