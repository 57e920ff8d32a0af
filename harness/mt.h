// Controlled-scheduler exploration of the library's own threaded code.
// The library is compiled with -fsanitize=thread instrumentation, but linked with the runtime in common/mt_runtime.cpp, which owns every
// scheduling decision: exactly one thread runs at a time, and the order of visible operations is enumerated by depth-first search.
#pragma once
#include "mc.h"
#include <functional>
#include <string>
#include <thread>
#include <vector>

namespace mt {
    struct Options {
        int preemptions = -1;            // -1: unbounded
        uint64_t max_executions = 2000000;
        double max_seconds = 60;         // stop exploring further schedules after this long (counted as "capped")
        size_t workers = 2;              // what the library is told about the machine
    };
    struct Result { uint64_t executions = 0, states = 0, decisions = 0, visible_ops = 0, max_threads = 0; bool capped = false; bool violated = false; };

    /** Number of worker threads that the library may use. */
    void set_workers(size_t n);

    /** Explore all schedules of `body` (run afresh for every schedule, as thread 0). */
    Result explore(mc::Ctx &c, const std::string &name, const Options &opt, const std::function<void()> &body);

    /** Same, with preemption bounds 0, 1, .. up to opt.preemptions, until one is capped or a violation is found. */
    Result explore_iteratively(mc::Ctx &c, const std::string &name, Options opt, const std::function<void()> &body);

    /** Assertion on the result of a schedule: may be called from any controlled thread; does not return when it fails. */
    void require(bool ok, const std::string &key, const std::function<std::string()> &detail = {});

    /** While one of these lives, the calling thread's allocations and operations are not part of the exploration. */
    struct Unmanaged { Unmanaged(); ~Unmanaged(); };

    /** One fault: the n-th allocation of some thread throws std::bad_alloc, or the n-th attempt to start a thread fails (counted from arm(); 0: none). */
    struct Fault { uint64_t thread = 0, allocation = 0, creation = 0; };
    void arm(const Fault &f);
    /** Stop counting; did the fault happen? */
    bool disarm();
    /** Number of allocations of that thread since arm(). */
    uint64_t allocations(size_t thread);

    /** Branch over 0..n-1 (a data choice, explored exhaustively). */
    size_t choose(size_t n);
}
