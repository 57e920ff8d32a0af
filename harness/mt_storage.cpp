// P24: the store of objects behind handles: every sequence of operations by one thread against a plain map, and every schedule of small
// programs of several threads, whose answers must be those of the same operations done one after another in some order that respects time.
#include "mt.h"
#include "utilities/persistent_storage.h"
#include <optional>

using mc::Ctx;
namespace {
    /** An object that knows how many of its kind live. */
    struct Thing { static inline int alive = 0; int value; int magic = 0x600d; std::unique_ptr<int> heap; explicit Thing(int v) : value{v}, heap{std::make_unique<int>(v)} { mt::Unmanaged u; ++alive; } Thing(const Thing &) = delete; virtual ~Thing() { { mt::Unmanaged u; --alive; } magic = 0; } bool good() const { return magic == 0x600d && heap && *heap == value; } };
    using Bank = Moment::PersistentStorage<Thing>; using Mono = Moment::PersistentStorageMonoid<Thing>;
    constexpr uint32_t SIG = Moment::make_signature({'t', 'h', 'n', 'g'}), OTHER = Moment::make_signature({'o', 't', 'h', 'r'});
    const std::vector<uint32_t> signatures{SIG, 0, 1, 0xFFFFFFFF, Moment::make_signature({'\xff', 'a', '\x80', 'z'})};

    /** What asking for a key gives: 0 found, 1 foreign signature, 2 not found (with the number reported), 3 something else. */
    struct Answer { int kind = 3; std::shared_ptr<Thing> object; };
    template<class F> Answer ask(uint64_t key, F f) {
        Answer a; try { a.object = f(key); a.kind = 0; } catch (const Moment::errors::bad_signature_error &e) { a.kind = e.key == key ? 1 : 3; } catch (const Moment::errors::not_found_error &e) { a.kind = e.key == key ? 2 : 3; } catch (const std::exception &) {} return a; }

    void sequential(Ctx &c, uint32_t sig, size_t depth) {
        std::vector<int> seq; std::string text;
        auto run = [&] {
            ++c.traces; const int before = Thing::alive; {
            Bank bank{sig}, twin{sig ^ 1}; std::map<uint64_t, int> model; std::vector<uint64_t> issued; std::map<uint64_t, std::weak_ptr<Thing>> watch; std::vector<std::shared_ptr<Thing>> held; int next = 0;
            auto say = [&] { return mc::cat("signature ", sig, ", after ", text); };
            const uint64_t foreign = twin.store(std::make_unique<Thing>(-1));
            auto fresh_handle = [&](uint64_t h, int v) { c.require(Bank::check_signature(sig, h) && bank.check_signature(h) && !twin.check_signature(h) && bank.sign_index(Bank::get_index(h)) == h, "handle does not carry its signature", say);
                for (auto i : issued) { c.require(i != h, "a handle is issued a second time", [&] { return mc::cat(say(), ": ", h); }); } issued.push_back(h); model[h] = v; };
            for (int op : seq) { ++c.transitions;
                if (op == 0) { fresh_handle(bank.store(std::make_unique<Thing>(next)), next); ++next; }
                else if (op == 1) { auto s = std::make_shared<Thing>(next); if (next % 2) { held.push_back(s); } auto h = bank.store(s); watch[h] = s; fresh_handle(h, next); ++next; }
                else if (op == 2) { bank.clear(); model.clear(); }
                else { const uint64_t h = issued[size_t(op - 3)]; auto a = ask(h, [&](uint64_t k) { bank.release(k); return std::shared_ptr<Thing>{}; }); c.require(a.kind == (model.count(h) ? 0 : 2), "release", [&] { return mc::cat(say(), ": handle ", op - 3, " answer ", a.kind); }); model.erase(h); }
            }
            // everything that can be seen now
            ++c.states; c.require(bank.size() == model.size() && bank.empty() == model.empty(), "size", [&] { return mc::cat(say(), ": ", bank.size(), " not ", model.size()); });
            for (auto h : issued) { auto a = ask(h, [&](uint64_t k) { return bank.get(k); }); auto it = model.find(h);
                c.require(a.kind == (it == model.end() ? 2 : 0), "look-up", [&] { return mc::cat(say(), ": handle ", h, " answer ", a.kind); });
                if (a.kind == 0 && it != model.end()) { c.require(a.object && a.object->good() && a.object->value == it->second, "another object for a handle", [&] { return mc::cat(say(), ": handle ", h); }); }
                for (uint32_t s : {sig ^ 1u, sig ^ 0x80000000u, sig + 1, 0u, OTHER, ~sig, uint32_t(h)}) { if (s == sig) { continue; } const uint64_t k = (uint64_t(s) << 32) | uint32_t(h);
                    c.require(ask(k, [&](uint64_t q) { return bank.get(q); }).kind == 1 && ask(k, [&](uint64_t q) { bank.release(q); return std::shared_ptr<Thing>{}; }).kind == 1, "foreign handle accepted", [&] { return mc::cat(say(), ": ", k); }); } }
            for (uint64_t i : {uint64_t(issued.size()), uint64_t(issued.size() + 1), uint64_t(0x7FFFFFFF), uint64_t(0xFFFFFFFF)}) { const uint64_t k = (uint64_t(sig) << 32) | i; if (std::count(issued.begin(), issued.end(), k)) { continue; }
                c.require(ask(k, [&](uint64_t q) { return bank.get(q); }).kind == 2 && ask(k, [&](uint64_t q) { bank.release(q); return std::shared_ptr<Thing>{}; }).kind == 2, "a handle never issued is accepted", [&] { return mc::cat(say(), ": ", k); }); }
            c.require(ask(foreign, [&](uint64_t q) { return bank.get(q); }).kind == 1 && twin.get(foreign)->value == -1 && twin.size() == 1, "stores share objects", say);
            // walking over the store
            std::vector<uint32_t> from{0, 1, 2, 0xFFFFFFFE, 0xFFFFFFFF}; for (auto h : issued) { from.push_back(Bank::get_index(h)); from.push_back(Bank::get_index(h) + 1); }
            for (auto f : from) { auto it = model.upper_bound(bank.sign_index(f)); auto [id, obj] = bank.next(f); c.require(it == model.end() ? id == 0xFFFFFFFF && !obj : bank.sign_index(id) == it->first && obj && obj->good() && obj->value == it->second, "next", [&] { return mc::cat(say(), ": after ", f, " comes ", id); }); }
            auto [id, obj] = bank.first(); c.require(model.empty() ? id == 0xFFFFFFFF && !obj : bank.sign_index(id) == model.begin()->first && obj && obj->value == model.begin()->second, "first", [&] { return mc::cat(say(), ": ", id); }); obj.reset();
            // life: what is stored or held elsewhere lives, and nothing else
            std::set<int> want{-1}; for (auto &[h, v] : model) { want.insert(v); } for (auto &h : held) { want.insert(h->value); c.require(h->good(), "an object in use is destroyed", say); }
            c.require(Thing::alive - before == int(want.size()), "objects alive", [&] { return mc::cat(say(), ": ", Thing::alive - before, ", expected ", want.size()); });
            for (auto &[h, w] : watch) { c.require(bool(w.lock()) == (model.count(h) || std::any_of(held.begin(), held.end(), [&](auto &x) { return x == w.lock(); })), "life of a shared object", say); }
            } c.require(Thing::alive == before, "objects outlive the store", [&] { return text; });
        };
        std::function<void(int)> rec = [&](int stores) { c.step("%s", text.c_str()); run(); if (seq.size() == depth) { return; }
            for (int op = 0; op < 3 + stores; ++op) { seq.push_back(op); auto old = text; text += op == 0 ? "store(own) " : op == 1 ? "store(shared) " : op == 2 ? "clear " : mc::cat("release#", op - 3, " "); rec(stores + (op < 2)); text = old; seq.pop_back(); } };
        rec(0);
    }

    // ---------------------------------------------------------------- several threads
    enum class Do { StoreOwn, StoreShared, Get0, Get1, Release0, Release1, GetMine, ReleaseMine, GetUnissued, GetForeign, First, Next0, Size, Empty, Clear, COUNT };
    const char *const names[] = {"store(own)", "store(shared)", "get#0", "get#1", "release#0", "release#1", "get(mine)", "release(mine)", "get(next)", "get(foreign)", "first", "next(0)", "size", "empty", "clear"};
    /** One operation that was done: when it began and ended, and what it gave. */
    struct Event { size_t thread; Do what; uint64_t key = 0; uint64_t begin = 0, end = 0; uint64_t result = 0; int value = 0; /* of the object put in or got */ };

    using State = std::map<uint64_t, int>;
    /** Does the event follow from the state, and what state comes then? */
    bool apply(State &s, const Event &e, std::set<uint64_t> &ever) {
        switch (e.what) {
            case Do::StoreOwn: case Do::StoreShared: if (ever.count(e.result) || s.count(e.result) || (e.result >> 32) != SIG) { return false; } ever.insert(e.result); s[e.result] = e.value; return true;
            case Do::Release0: case Do::Release1: case Do::ReleaseMine: if (e.result == 0) { return s.erase(e.key) == 1; } return e.result == 2 && !s.count(e.key);
            case Do::First: return s.empty() ? e.result == 0xFFFFFFFF && e.value == -7 : (e.result == uint32_t(s.begin()->first) && e.value == s.begin()->second);
            case Do::Next0: { auto it = s.upper_bound((uint64_t(SIG) << 32) + e.key); return it == s.end() ? e.result == 0xFFFFFFFF && e.value == -7 : (e.result == uint32_t(it->first) && e.value == it->second); }
            case Do::Size: return e.result == s.size();
            case Do::Empty: return (e.result != 0) == s.empty();
            case Do::Clear: s.clear(); return true;
            case Do::GetForeign: return e.result == 1;
            default: { auto it = s.find(e.key); return it == s.end() ? e.result == 2 : e.result == 0 && e.value == it->second; }
        } }
    bool linear(const std::vector<Event> &ev, std::vector<bool> &done, const State &s, const std::set<uint64_t> &ever, size_t left, const State &last) {
        if (!left) { return s == last; }
        for (size_t i = 0; i < ev.size(); ++i) { if (done[i]) { continue; } bool first = true; for (size_t j = 0; j < ev.size(); ++j) { first &= done[j] || j == i || ev[j].end > ev[i].begin; } if (!first) { continue; }
            State t = s; auto e2 = ever; if (!apply(t, ev[i], e2)) { continue; } done[i] = true; if (linear(ev, done, t, e2, left - 1, last)) { return true; } done[i] = false; }
        return false; }
    std::string show(const std::vector<Event> &ev) { std::string s; for (auto &e : ev) { s += mc::cat("[", e.begin, "-", e.end, " thread ", e.thread, ": ", names[int(e.what)], " -> ", e.result, "/", e.value, "] "); } return s; }

    struct Plan { size_t stored; /* beforehand */ std::vector<std::vector<Do>> prog; };
    std::string name(const Plan &p) { std::string s = mc::cat(p.stored, " stored"); for (auto &t : p.prog) { s += "; thread:"; for (auto d : t) { s += mc::cat(" ", names[int(d)]); } } return s; }
    void body(const Plan &p) {
        const int before = Thing::alive; {
        auto bank = std::make_unique<Bank>(SIG); std::vector<uint64_t> h; State start; std::set<uint64_t> ever; std::vector<Event> events; uint64_t clock = 0; const auto &prog = p.prog;
        std::vector<std::vector<std::shared_ptr<Thing>>> held(prog.size());
        for (size_t i = 0; i < p.stored; ++i) { h.push_back(bank->store(std::make_unique<Thing>(int(i)))); start[h.back()] = int(i); ever.insert(h.back()); }
        while (h.size() < 2) { h.push_back((uint64_t(SIG) << 32) + h.size()); }
        std::vector<std::thread> threads;
        auto log = [&](Event e) { mt::Unmanaged u; events.push_back(e); }; auto tick = [&] { mt::Unmanaged u; return ++clock; };
        for (size_t t = 0; t < prog.size(); ++t) { threads.emplace_back([&, t] { uint64_t mine = h[0]; int next = 100 * (int(t) + 1);
            for (Do d : prog[t]) { Event e; e.thread = t; e.what = d; std::shared_ptr<Thing> obj; std::unique_ptr<Thing> own;
                if (d == Do::StoreOwn || d == Do::StoreShared) { e.value = next++; if (d == Do::StoreOwn) { own = std::make_unique<Thing>(e.value); } else { obj = std::make_shared<Thing>(e.value); held[t].push_back(obj); } }
                e.key = d == Do::Get0 || d == Do::Release0 ? h[0] : d == Do::Get1 || d == Do::Release1 ? h[1] : d == Do::GetMine || d == Do::ReleaseMine ? mine : d == Do::GetUnissued ? (uint64_t(SIG) << 32) + p.stored : d == Do::GetForeign ? (uint64_t(OTHER) << 32) : 0;
                e.begin = tick();
                switch (d) {
                    case Do::StoreOwn: mine = e.result = bank->store(std::move(own)); break;
                    case Do::StoreShared: mine = e.result = bank->store(obj); break;
                    case Do::Release0: case Do::Release1: case Do::ReleaseMine: e.result = uint64_t(ask(e.key, [&](uint64_t k) { bank->release(k); return std::shared_ptr<Thing>{}; }).kind); break;
                    case Do::First: case Do::Next0: { auto [id, o] = d == Do::First ? bank->first() : bank->next(0); e.result = id; obj = o; break; }
                    case Do::Size: e.result = bank->size(); break;
                    case Do::Empty: e.result = bank->empty(); break;
                    case Do::Clear: bank->clear(); break;
                    default: { auto a = ask(e.key, [&](uint64_t k) { return bank->get(k); }); e.result = uint64_t(a.kind); obj = a.object; }
                }
                e.end = tick(); if (d != Do::StoreOwn && d != Do::StoreShared && d != Do::Size && d != Do::Empty && d != Do::Clear) { e.value = -7; }
                if (obj) { mt::require(obj->good(), "an object in use is destroyed"); e.value = obj->value; } log(e); } }); }
        for (auto &t : threads) { t.join(); }
        mt::Unmanaged u; State last; auto f = bank->first(); while (f.second) { last[bank->sign_index(f.first)] = f.second->value; mt::require(f.second->good() && bank->get(bank->sign_index(f.first)) == f.second, "walking and looking up differ"); f = bank->next(f.first); }
        mt::require(bank->size() == last.size(), "size at rest");
        std::vector<bool> done(events.size(), false); mt::require(linear(events, done, start, ever, events.size(), last), "answers of no order", [&] { return show(events) + mc::cat("finally ", last.size(), " stored"); });
        f.second.reset(); std::set<int> want; for (auto &[k, v] : last) { want.insert(v); } for (auto &v : held) { for (auto &x : v) { want.insert(x->value); mt::require(x->good(), "an object in use is destroyed"); } }
        mt::require(Thing::alive - before == int(want.size()), "objects alive", [&] { return mc::cat(show(events), Thing::alive - before, " not ", want.size()); });
        } mt::require(Thing::alive == before, "objects outlive the store");
    }

    // ---------------------------------------------------------------- the single-object store
    struct Child : Thing { using Thing::Thing; };
    enum { Get, Set, Reset, Empty, Create, N }; const char *const mono_names[] = {"get", "set", "reset", "empty", "create"};
    void mono_body(const std::vector<std::vector<int>> &prog, bool filled) {
        const int before = Thing::alive; {
        auto store = filled ? std::make_unique<Mono>(SIG, std::make_unique<Thing>(0)) : std::make_unique<Mono>(SIG); std::vector<std::thread> threads; uint64_t clock = 0;
        struct Ev { size_t thread; int what; uint64_t begin, end; int in, out; }; std::vector<Ev> events;
        for (size_t t = 0; t < prog.size(); ++t) { threads.emplace_back([&, t] { int next = 100 * (int(t) + 1); for (int d : prog[t]) { Ev e{t, d, 0, 0, 0, -7}; std::shared_ptr<Thing> o, in;
            if (d == Set) { e.in = next++; in = std::make_shared<Thing>(e.in); } else if (d == Create) { e.in = next++; } { mt::Unmanaged u; e.begin = ++clock; }
            switch (d) { case Get: o = store->get(); break; case Set: store->set(in); break; case Reset: store->reset(); break; case Empty: e.out = store->empty(); break; case Create: o = store->create_if_empty<Child>(e.in); mt::require(bool(o), "nothing created"); break; }
            if (o) { mt::require(o->good(), "an object in use is destroyed"); e.out = o->value; } mt::Unmanaged u; e.end = ++clock; events.push_back(e); } }); }
        for (auto &t : threads) { t.join(); }
        mt::Unmanaged u; auto o = store->get(); mt::require(store->empty() == !o, "empty"); const int last = o ? o->value : -7;
        std::vector<bool> done(events.size()); std::function<bool(int, size_t)> rec = [&](int s, size_t left) { if (!left) { return s == last; }
            for (size_t i = 0; i < events.size(); ++i) { auto &e = events[i]; if (done[i]) { continue; } bool first = true; for (size_t j = 0; j < events.size(); ++j) { first &= done[j] || j == i || events[j].end > e.begin; } if (!first) { continue; }
                int n = s; bool ok = true; switch (e.what) { case Get: ok = e.out == s; break; case Set: n = e.in; break; case Reset: n = -7; break; case Empty: ok = (e.out != 0) == (s == -7); break; case Create: if (s == -7) { n = e.in; } ok = e.out == n; break; }
                if (!ok) { continue; } done[i] = true; if (rec(n, left - 1)) { return true; } done[i] = false; } return false; };
        mt::require(rec(filled ? 0 : -7, events.size()), "answers of no order", [&] { std::string s; for (auto &e : events) { s += mc::cat("[", e.begin, "-", e.end, " thread ", e.thread, ": ", mono_names[e.what], " ", e.in, " -> ", e.out, "] "); } return s; });
        o.reset(); mt::require(Thing::alive - before == (last != -7), "objects alive");
        } mt::require(Thing::alive == before, "objects outlive the store");
    }
}
namespace {
    /** Things the library does only once in a process. */
    void warm_up() { Bank b{SIG}; ask(0, [&](uint64_t k) { return b.get(k); }); ask(uint64_t(SIG) << 32, [&](uint64_t k) { return b.get(k); }); }
    /** All ways to give each thread its number of operations. */
    template<class D, class F> void programs(const std::vector<size_t> &ops, int n, std::optional<D> first, F f) {
        std::vector<std::vector<D>> prog(ops.size()); std::function<void(size_t)> rec = [&](size_t t) { while (t < ops.size() && prog[t].size() == ops[t]) { ++t; } if (t == ops.size()) {
                for (size_t i = 0; i + 1 < ops.size(); ++i) { if (ops[i] == ops[i + 1] && prog[i + 1] < prog[i]) { return; } } // threads of the same length are interchangeable
                f(prog); return; }
            for (int d = 0; d < n; ++d) { if (first && t == 0 && prog[0].empty() && D(d) != *first) { continue; } prog[t].push_back(D(d)); rec(t); prog[t].pop_back(); } };
        rec(0); }
}
namespace mc {
    void register_cases(Registry &reg) {
        for (auto s : signatures) { reg.add(mc::cat("sequences, signature ", s), [=](Ctx &c) { sequential(c, s, c.quick() ? (s == SIG ? 6 : 4) : 7); }, 1500); }
        auto add = [&](const std::string &nm, size_t stored, std::vector<size_t> ops, std::optional<Do> first, int quick, int thorough, bool deep = false) { auto f = [=](Ctx &c) { warm_up(); programs<Do>(ops, int(Do::COUNT), first, [&](auto &prog) {
                Plan p{stored, prog}; mt::Options o; o.preemptions = c.quick() ? quick : thorough; o.max_seconds = c.quick() ? 20 : 200; o.max_executions = 200000000; c.sample(name(p)); c.count("programs"); mt::explore(c, name(p), o, [&] { body(p); }); }); };
            if (deep) { reg.deep(nm, f, 3600); } else { reg.add(nm, f, 2400); } };
        for (size_t stored : {0, 1, 2}) {
            add(mc::cat("two threads, one operation each, ", stored, " stored"), stored, {1, 1}, {}, -1, -1);
            for (int d = 0; d < int(Do::COUNT); ++d) {
                add(mc::cat("two threads, two operations and one, ", stored, " stored, first ", names[d]), stored, {2, 1}, Do(d), -1, -1);
                add(mc::cat("three threads, one operation each, ", stored, " stored, first ", names[d]), stored, {1, 1, 1}, Do(d), -1, -1, stored == 0);
                add(mc::cat("two threads, two operations each, ", stored, " stored, first ", names[d]), stored, {2, 2}, Do(d), 1, -1, true); }
        }
        for (bool filled : {false, true}) { for (auto &ops : std::vector<std::vector<size_t>>{{1, 1}, {2, 1}, {2, 2}, {1, 1, 1}, {2, 1, 1}, {3, 2}}) {
            auto nm = mc::cat("single object", filled ? " present" : "", ", operations", mc::show(ops)); auto f = [=](Ctx &c) { warm_up(); programs<int>(ops, N, {}, [&](auto &prog) { mt::Options o; o.preemptions = -1; o.max_seconds = c.quick() ? 20 : 200; o.max_executions = 200000000;
                std::string s = nm; for (auto &t : prog) { s += "; thread:"; for (int d : t) { s += mc::cat(" ", mono_names[d]); } } c.count("programs"); mt::explore(c, s, o, [&] { mono_body(prog, filled); }); }); };
            if (ops.size() > 2 ? ops[0] > 1 : ops[0] + ops[1] > 4) { reg.deep(nm, f, 2400); } else { reg.add(nm, f, 2400); } } }
    }
}
