// P08: the multi-producer multi-consumer queue, in every schedule, against a list of what was put in.
#include "mt.h"
#include "multithreading/queue.h"
#include <deque>
#include <string>

using mc::Ctx;
namespace {
    struct Item { int producer, number; };
    /** cannot be copied, owns memory, and knows whether it has been moved from */
    struct Token { std::unique_ptr<Item> item; Token(int p, int n) : item{std::make_unique<Item>(Item{p, n})} {} Token(Token &&) noexcept = default; Token &operator=(Token &&) noexcept = default; };
    using Queue = Moment::Multithreading::Queue<Token>;

    struct Plan { std::vector<int> producers; /* items each */ std::vector<int> consumers; /* waits each; -1: until aborted */ std::vector<int> tries; /* attempts each */ bool abort = false; bool abort_last = false; bool emplace = false; };
    std::string name(const Plan &p) {
        std::string s = "put"; for (int n : p.producers) { s += mc::cat(" ", n); } s += p.emplace ? " (emplaced)" : ""; s += "; wait"; for (int n : p.consumers) { s += n < 0 ? std::string(" on") : mc::cat(" ", n); }
        if (!p.tries.empty()) { s += "; try"; for (int n : p.tries) { s += mc::cat(" ", n); } } if (p.abort) { s += p.abort_last ? "; close after producers" : "; close"; } return s;
    }
    void body(const Plan &p) {
        struct Got { int producer, number; bool before_abort; };
        auto q = std::make_unique<Queue>();
        const size_t takers = p.consumers.size() + p.tries.size();
        std::vector<std::vector<Item>> got(takers); std::vector<int> empty(takers, 0), dead(takers, 0);
        std::atomic<int> closing{0};
        std::vector<std::thread> producers, others;
        for (size_t i = 0; i < p.producers.size(); ++i) { producers.emplace_back([&, i] { for (int n = 0; n < p.producers[i]; ++n) { if (p.emplace) { q->emplace_back(int(i), n); } else { q->push_back(Token{int(i), n}); } } }); }
        for (size_t i = 0; i < takers; ++i) { others.emplace_back([&, i] {
            const bool waits = i < p.consumers.size(); const int n = waits ? p.consumers[i] : p.tries[i - p.consumers.size()];
            for (int k = 0; n < 0 || k < n; ++k) {
                auto node = waits ? q->wait_pop_front() : q->try_pop_front();
                if (node) { mt::require(bool((**node).item), "item without content"); got[i].push_back(*(*node)->item); }
                else { ++empty[i]; if (waits) { mt::require(q->aborting(), "a waiting consumer is sent away although the queue is open"); ++dead[i]; break; } }
            } }); }
        if (p.abort && !p.abort_last) { others.emplace_back([&] { q->abort(); }); }
        for (auto &t : producers) { t.join(); }
        if (p.abort && p.abort_last) { q->abort(); }
        for (auto &t : others) { t.join(); }
        auto list = [&] { std::string s; for (size_t i = 0; i < takers; ++i) { s += mc::cat("consumer ", i, ":"); for (auto &x : got[i]) { s += mc::cat(" ", x.producer, ".", x.number); } s += "; "; } return s; };
        // what is left
        std::vector<Item> left; if (!p.abort) { while (auto n = q->try_pop_front()) { left.push_back(*(*n)->item); } }
        else { mt::require(!q->try_pop_front() && !q->wait_pop_front() && q->aborting(), "a closed queue hands out items"); }
        std::map<std::pair<int, int>, int> count; for (auto &g : got) { for (auto &x : g) { ++count[{x.producer, x.number}]; } } for (auto &x : left) { ++count[{x.producer, x.number}]; }
        for (size_t i = 0; i < p.producers.size(); ++i) { bool gap = false; for (int n = 0; n < p.producers[i]; ++n) { int k = count[{int(i), n}];
            mt::require(k <= 1, "item delivered twice", list); if (!p.abort) { mt::require(k == 1, "item lost", list); } 
            mt::require(!(k && gap), "an item overtook an earlier one of its producer", list); gap |= k == 0; } }
        for (auto *g : [&] { std::vector<const std::vector<Item> *> v; for (auto &x : got) { v.push_back(&x); } v.push_back(&left); return v; }()) {
            std::map<int, int> last; for (auto &x : *g) { auto [it, fresh] = last.try_emplace(x.producer, -1); mt::require(x.number > it->second, "items of one producer out of order", list); it->second = x.number; } }
    }
    /** every sequence of operations by one thread, with a failing allocation at any place */
    void sequential(Ctx &c, size_t depth) {
        std::vector<int> seq; std::function<void()> rec = [&] {
            for (uint64_t fail = 0; fail <= (seq.empty() ? 0 : 2 * seq.size()); ++fail) {
                c.step("sequence of %zu, fault %lu", seq.size(), (unsigned long)fail); ++c.traces;
                Queue q; std::deque<int> model; bool closed = false; int next = 0; bool hit = false; size_t at = 0;
                for (int op : seq) { ++c.transitions; ++at;
                    switch (op) {
                        case 0: case 1: { bool boom = fail && (fail + 1) / 2 == at; const int v = next++;
                            struct Bad { operator int() const { throw std::runtime_error("bad item"); } };
                            try { if (boom) { if (fail % 2) { hit = true; q.emplace_back(Bad{}, v); } else { if (op == 0) { q.push_back(Token{0, v}); } else { q.emplace_back(0, v); } model.push_back(v); } }
                                  else { if (op == 0) { q.push_back(Token{0, v}); } else { q.emplace_back(0, v); } model.push_back(v); } }
                            catch (const std::runtime_error &) {} break; }
                        case 2: { auto n = q.try_pop_front(); const bool any = !closed && !model.empty();
                            c.require(bool(n) == any, "sequential: emptiness", [&] { return mc::cat("after ", mc::show(seq), ": item ", bool(n), ", expected ", any); });
                            if (n && any) { c.require((*n)->item && (*n)->item->number == model.front(), "sequential: order", [&] { return mc::cat("after ", mc::show(seq)); }); model.pop_front(); } break; }
                        case 3: if (closed || !model.empty()) { auto n = q.wait_pop_front(); c.require(bool(n) == !closed, "sequential: wait", [&] { return mc::cat("after ", mc::show(seq)); });
                            if (n && !closed) { c.require((*n)->item && (*n)->item->number == model.front(), "sequential: order", [&] { return mc::cat("after ", mc::show(seq)); }); model.pop_front(); } } break;
                        case 4: q.abort(); closed = true; break;
                    }
                    c.require(q.aborting() == closed, "sequential: closed", [&] { return mc::cat("after ", mc::show(seq)); });
                }
                ++c.states;
            }
            if (seq.size() < depth) { for (int op = 0; op < 5; ++op) { seq.push_back(op); rec(); seq.pop_back(); } }
        }; rec();
    }
}
namespace mc {
    void register_cases(Registry &reg) {
        reg.add("sequential", [](Ctx &c) { sequential(c, c.quick() ? 5 : 7); }, 1500);
        auto add = [&](Plan p, int quick, int thorough, bool deep = false) { auto f = [=](Ctx &c) {
            mt::Options o; o.preemptions = c.quick() ? quick : thorough; o.max_seconds = c.quick() ? 40 : 1500; c.sample(name(p));
            if (o.preemptions < 0) { mt::explore(c, name(p), o, [&] { body(p); }); } else { mt::explore_iteratively(c, name(p), o, [&] { body(p); }); } };
            if (deep) { reg.deep(name(p), f, 2400); } else { reg.add(name(p), f, 2400); } };
        for (bool e : {false, true}) {
            add({{1}, {1}, {}, false, false, e}, -1, -1); add({{2}, {2}, {}, false, false, e}, -1, -1); add({{1, 1}, {2}, {}, false, false, e}, -1, -1); add({{2}, {1, 1}, {}, false, false, e}, -1, -1);
            add({{1, 1}, {1, 1}, {}, false, false, e}, 3, -1); add({{2, 2}, {2, 2}, {}, false, false, e}, 2, 4); add({{3}, {3}, {}, false, false, e}, -1, -1);
            add({{1}, {-1}, {}, true, false, e}, -1, -1); add({{1}, {-1}, {}, true, true, e}, -1, -1); add({{2}, {-1, -1}, {}, true, false, e}, 3, -1); add({{2}, {-1, -1}, {}, true, true, e}, 3, -1); add({{1, 1}, {-1, -1}, {}, true, true, e}, 2, 5);
        }
        add({{}, {-1}, {}, true, false}, -1, -1); add({{}, {-1, -1}, {}, true, false}, -1, -1); add({{}, {-1, -1, -1}, {}, true, false}, 3, -1); add({{1, 1, 1}, {1, 1, 1}, {}, false}, 2, 4);
        add({{2}, {}, {2}, false}, -1, -1); add({{1}, {}, {1, 1}, false}, -1, -1); add({{2}, {1}, {1}, false}, 3, -1); add({{1, 1}, {1}, {1}, false}, 3, -1); add({{2}, {}, {2}, true}, -1, -1); add({{2}, {-1}, {1}, true}, 3, -1); add({{3, 2}, {2}, {2, 1}, false}, 2, 4);
    }
}
