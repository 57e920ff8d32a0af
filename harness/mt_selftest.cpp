#include "mt.h"
#include <atomic>
#include <future>
#include <mutex>
#include <condition_variable>
#include <memory>
namespace mc { void register_cases(Registry &reg) {
    reg.add("two counters", [](Ctx &c) { mt::explore(c, "mutex", {}, [] {
        std::mutex m; int n = 0; std::thread a([&] { std::lock_guard l{m}; ++n; }), b([&] { std::lock_guard l{m}; ++n; }); a.join(); b.join(); mt::require(n == 2, "two"); }); });
    reg.add("race", [](Ctx &c) { mt::explore(c, "race", {}, [] { int n = 0; std::thread a([&] { ++n; }), b([&] { ++n; }); a.join(); b.join(); }); });
    reg.add("future", [](Ctx &c) { mt::explore(c, "future", {}, [] { std::promise<int> p; auto f = p.get_future(); std::thread a([&] { p.set_value(3); }); int n = f.get(); a.join(); mt::require(n == 3, "n"); }); });
    reg.add("flag wait", [](Ctx &c) { mt::explore(c, "flag", {}, [] { std::atomic_flag f; f.clear(); int d = 0; std::thread a([&] { f.wait(false); mt::require(d == 3, "d"); }); d = 3; f.test_and_set(); f.notify_all(); a.join(); }); });
    reg.add("flag wait relaxed", [](Ctx &c) { mt::explore(c, "flag", {}, [] { std::atomic_flag f; f.clear(); int d = 0; std::thread a([&] { f.wait(false); mt::require(d == 3, "d"); }); d = 3; f.test_and_set(std::memory_order_relaxed); f.notify_all(); a.join(); }); });
    reg.add("no notify", [](Ctx &c) { mt::explore(c, "flag", {}, [] { std::atomic_flag f; f.clear(); std::thread a([&] { f.wait(false); }); f.test_and_set(); a.join(); }); });
    reg.add("cv lost wakeup", [](Ctx &c) { mt::explore(c, "cv", {}, [] { std::mutex m, m2; std::condition_variable v; std::atomic<bool> go{false}; std::thread a([&] { std::unique_lock l{m}; v.wait(l, [&] { return go.load(); }); }); go = true; v.notify_one(); a.join(); }); });
    reg.add("spin", [](Ctx &c) { mt::explore(c, "spin", {}, [] { std::atomic<int> x{0}; std::thread a([&] { while (x.load() == 0) { std::this_thread::yield(); } }); x = 1; a.join(); }); });
    reg.add("throw", [](Ctx &c) { mt::explore(c, "throw", {}, [] { std::thread a([&] { throw std::runtime_error("boo"); }); a.join(); }); });
    reg.add("ab ba", [](Ctx &c) { mt::explore(c, "abba", {}, [] { std::mutex m, n; std::thread a([&] { std::lock_guard x{m}; std::lock_guard y{n}; }), b([&] { std::lock_guard x{n}; std::lock_guard y{m}; }); a.join(); b.join(); }); });
    reg.add("sb", [](Ctx &c) { auto seen = std::make_shared<std::set<std::pair<int,int>>>(); static int r1, r2; 
        mt::explore(c, "sb", {}, [] { std::atomic<int> x{0}, y{0}; std::thread a([&] { x = 1; r1 = y; }), b([&] { y = 1; r2 = x; }); a.join(); b.join(); mt::require(r1 || r2, "sc"); }); });
    reg.add("shared ptr", [](Ctx &c) { mt::explore(c, "sp", {}, [] { auto p = std::make_shared<std::vector<int>>(3, 1); std::thread a([p] { auto q = p; }), b([p] { auto q = p; }); p.reset(); a.join(); b.join(); }); });
} }
