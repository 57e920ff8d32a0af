// Runtime of the schedule explorer: see ../mt.h.  Not instrumented itself.
#include "../mt.h"

#include <atomic>
#include <chrono>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" {
    void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
    int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
    void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
}

namespace mt {
namespace {
    constexpr size_t MAXT = 32;
    using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t; using u16 = uint16_t;

    // ---- the real functions -------------------------------------------------------------------------------------------------------------
    template<class F> F real(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
    struct Real {
        int (*create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = real<decltype(create)>("pthread_create");
        int (*join)(pthread_t, void **) = real<decltype(join)>("pthread_join");
        int (*m_lock)(pthread_mutex_t *) = real<decltype(m_lock)>("pthread_mutex_lock");
        int (*m_trylock)(pthread_mutex_t *) = real<decltype(m_trylock)>("pthread_mutex_trylock");
        int (*m_unlock)(pthread_mutex_t *) = real<decltype(m_unlock)>("pthread_mutex_unlock");
        int (*rd)(pthread_rwlock_t *) = real<decltype(rd)>("pthread_rwlock_rdlock");
        int (*wr)(pthread_rwlock_t *) = real<decltype(wr)>("pthread_rwlock_wrlock");
        int (*tryrd)(pthread_rwlock_t *) = real<decltype(tryrd)>("pthread_rwlock_tryrdlock");
        int (*trywr)(pthread_rwlock_t *) = real<decltype(trywr)>("pthread_rwlock_trywrlock");
        int (*rwun)(pthread_rwlock_t *) = real<decltype(rwun)>("pthread_rwlock_unlock");
        int (*c_wait)(pthread_cond_t *, pthread_mutex_t *) = real<decltype(c_wait)>("pthread_cond_wait");
        int (*c_sig)(pthread_cond_t *) = real<decltype(c_sig)>("pthread_cond_signal");
        int (*c_bc)(pthread_cond_t *) = real<decltype(c_bc)>("pthread_cond_broadcast");
        int (*once)(pthread_once_t *, void (*)()) = real<decltype(once)>("pthread_once");
        int (*yield)() = real<decltype(yield)>("sched_yield");
    };
    Real &R() { static Real *r = new (__real_malloc(sizeof(Real))) Real; return *r; }

    long raw_futex(void *addr, int op, int val) {
        long ret; register long r10 __asm__("r10") = 0; register long r8 __asm__("r8") = 0; register long r9 __asm__("r9") = 0;
        __asm__ volatile("syscall" : "=a"(ret) : "0"(SYS_futex), "D"(addr), "S"(op), "d"(val), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return ret;
    }
    struct Sem {
        std::atomic<int> v{0};
        void post() { v.store(1, std::memory_order_release); raw_futex(&v, FUTEX_WAKE_PRIVATE, 1); }
        void wait() {
            for (int spin = 0; spin < 200; ++spin) { if (v.load(std::memory_order_acquire)) { v.store(0, std::memory_order_relaxed); return; } __builtin_ia32_pause(); }
            while (!v.load(std::memory_order_acquire)) { raw_futex(&v, FUTEX_WAIT_PRIVATE, 0); }
            v.store(0, std::memory_order_relaxed);
        }
    };

    // ---- vector clocks ------------------------------------------------------------------------------------------------------------------
    struct VC {
        u32 c[MAXT] = {};
        void join(const VC &o) { for (size_t i = 0; i < MAXT; ++i) { if (o.c[i] > c[i]) { c[i] = o.c[i]; } } }
    };
    u64 mix(u64 a, u64 b) { u64 x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2)); x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32; return x; }

    enum Op : u8 { START, LOCK, RDLOCK, WRLOCK, LOAD, STORE, RMW, CWAIT_ENTER, CWAIT_WAKE, CNOTIFY, CNOTIFYALL, FX_WAIT, FX_WOKEN, FX_WAKE, JOIN, CREATE, ONCE, GUARD, SPIN, TRY };
    const char *op_name(Op o) {
        static const char *n[] = {"start", "lock", "lock shared", "lock exclusively", "atomic load", "atomic store", "atomic rmw", "cv wait", "cv wake-up", "cv notify one", "cv notify all", "futex wait", "futex woken", "futex wake", "join", "create thread", "call once", "static guard", "spin", "try lock"};
        return n[o];
    }

    struct Loc { // an atomic location, also used as queue of futex waiters
        u64 version = 1; u64 w_hash = 0; u64 r_sum = 0; VC rel; bool has_rel = false; u64 f_hash = 0, f_sum = 0;
    };
    struct Mutex { int owner = -1; u64 hash = 0; VC vc; int depth = 0; /* of a recursive mutex */ };
    struct Rw { int writer = -1; u32 readers[MAXT] = {}; u32 n_readers = 0; u64 w_hash = 0; u64 r_sum = 0; VC w_vc, r_vc; };
    struct Cond { u64 hash = 0; std::vector<int> waiters; };
    struct Once { int state = 0; int runner = -1; u64 hash = 0; VC vc; };

    struct Thread {
        int tid = 0; bool live = false, finished = false, joined = false; pthread_t handle{}; Sem sem;
        VC clock, facq, frel; bool has_frel = false; u64 h = 0;
        Op pend = START; void *obj = nullptr; void *obj2 = nullptr; int target = -1; bool signalled = false; void *pc = nullptr;
        // stutter detection
        u32 stutters = 0; std::vector<std::pair<void *, u64>> seen;
        void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    };

    struct Cell { u32 clk; u8 tid, mask, write, atomic; void *pc; };
    struct Granule { u64 key = 0; u32 epoch = 0; u8 n = 0, freed = 0; std::vector<Cell> *more = nullptr; Cell c[6]; };

    struct Node { std::vector<int> cand; std::vector<u8> cost; size_t at = 0; bool data = false; };
    struct Touch { int tid; bool many, write; };
    struct TraceItem { int tid; Op op; void *pc; };

    struct Engine {
        Thread th[MAXT]; int n_threads = 0; int current = -1, last = 0; bool running = false;
        // objects that several threads were seen to use, at least one of them to change: only operations on these are scheduling points
        std::unordered_set<void *> shared; std::unordered_map<void *, Touch> touched; bool warm = false, restart = false;
        int unjoined = 0;           // live threads other than the root
        bool recording = false;     // more than one thread is around
        std::unordered_map<void *, Loc> locs; std::unordered_map<void *, Mutex> mutexes; std::unordered_map<void *, Rw> rws;
        std::unordered_map<void *, Cond> conds; std::unordered_map<void *, Once> onces;
        std::vector<Node> stack; size_t depth = 0; int preempted = 0; int bound = -1; bool pruned = false; u64 ops = 0;
        std::unordered_map<u64, int> cache;
        std::vector<TraceItem> trace;
        Sem done; bool violation = false; std::string vkey, vdetail; std::function<void()> body; bool hidden_end = false;
        Result res; size_t workers = 2;
        // shadow
        std::vector<Granule> shadow; u32 epoch = 1; size_t used = 0;
        bool diverged = false;
        // faults
        bool armed = false, hit = false; Fault fault; u64 allocs[MAXT] = {}, creates = 0;
    };
    Engine *E = nullptr;
    thread_local Thread *self __attribute__((tls_model("initial-exec"))) = nullptr;
    thread_local int inside __attribute__((tls_model("initial-exec"))) = 0;
    struct In { In() { ++inside; } ~In() { --inside; } };
    inline bool managed() { return self != nullptr && inside == 0; }

    // ---- allocation arenas (deterministic addresses, never reused within one schedule) ---------------------------------------------------
    constexpr size_t ARENA = size_t(256) << 20;
    struct Arena { char *base = nullptr; size_t at = 0, floor = 0; } arenas[MAXT];
    char *arena_lo = nullptr, *arena_hi = nullptr;
    bool in_arena(const void *p) { return p >= arena_lo && p < arena_hi; }
    void arena_init() {
        arena_lo = static_cast<char *>(mmap(nullptr, ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        arena_hi = arena_lo + ARENA * MAXT;
        for (size_t i = 0; i < MAXT; ++i) { arenas[i].base = arena_lo + i * ARENA; }
    }
    void *arena_alloc(size_t n, size_t align) {
        Arena &a = arenas[self->tid]; if (align < 16) { align = 16; }
        size_t at = (a.at + align - 1 + 16) & ~(align - 1);
        if (at + n + 16 > ARENA) { return __real_malloc(n); }
        char *p = a.base + at; reinterpret_cast<size_t *>(p)[-1] = n; a.at = at + n; return p;
    }

    // ---- reporting -----------------------------------------------------------------------------------------------------------------------
    std::string sym(void *pc) {
        if (!pc) { return "?"; }
        Dl_info di; if (!dladdr(pc, &di) || !di.dli_fname) { return "?"; }
        char cmd[600]; snprintf(cmd, sizeof cmd, "addr2line -e %s -f -C -i -s 0x%lx 2>/dev/null", di.dli_fname, (unsigned long)((char *)pc - (char *)di.dli_fbase - 1));
        std::string out; FILE *f = popen(cmd, "r"); if (!f) { return "?"; }
        char b[2000]; std::string fn, line; int n = 0;
        while (n < 6 && fgets(b, sizeof b, f)) { fn = b; if (!fgets(b, sizeof b, f)) { break; } line = b;
            while (!fn.empty() && fn.back() == '\n') fn.pop_back(); while (!line.empty() && line.back() == '\n') line.pop_back();
            auto d = line.find(" (disc"); if (d != std::string::npos) { line = line.substr(0, d); }
            if (fn.size() > 110) { fn = fn.substr(0, 107) + "..."; }
            out += (n ? " < " : "") + fn + "@" + line; ++n; }
        pclose(f); return out;
    }
    std::string outer_fn(void *pc) { // for keys: file of the innermost frame that isn't the standard library
        auto s = sym(pc); std::string best = "?"; size_t p = 0;
        while (p < s.size()) { auto q = s.find(" < ", p); auto fr = s.substr(p, q == std::string::npos ? q : q - p); auto at = fr.rfind('@'); 
            auto file = at == std::string::npos ? fr : fr.substr(at + 1); auto colon = file.find(':'); file = file.substr(0, colon);
            if (file.size() > 2 && (file.find(".h") != std::string::npos || file.find(".cpp") != std::string::npos) && file.rfind("stl_", 0) != 0 && file.find("bits") == std::string::npos
                && file != "atomic_base.h" && file != "unique_ptr.h" && file != "shared_ptr_base.h" && file != "new_allocator.h" && file != "basic_string.h") { return file; }
            best = file; if (q == std::string::npos) { break; } p = q + 3; }
        return best;
    }
    [[noreturn]] void park() { while (true) { pause(); } }
    [[noreturn]] void violate(const std::string &key, const std::string &detail) {
        ++inside;
        if (!E->violation) {
            E->violation = true; E->vkey = key;
            std::string d = detail + "\nlast visible steps:"; size_t from = E->trace.size() > 14 ? E->trace.size() - 14 : 0;
            std::string prev_line; for (size_t i = from; i < E->trace.size(); ++i) { auto &t = E->trace[i];
                auto s = sym(t.pc); if (s.size() > 130) { s = s.substr(0, 130); } d += "\n  T" + std::to_string(t.tid) + " " + op_name(t.op) + " " + s; }
            E->vdetail = d;
        }
        E->done.post(); park();
    }

    // ---- scheduling ----------------------------------------------------------------------------------------------------------------------
    bool enabled(Thread &t) {
        if (!t.live || t.finished) { return false; }
        switch (t.pend) {
            case LOCK: { auto it = E->mutexes.find(t.obj); return it == E->mutexes.end() || it->second.owner < 0; }
            case CWAIT_WAKE: { if (!t.signalled) { return false; } auto it = E->mutexes.find(t.obj2); return it == E->mutexes.end() || it->second.owner < 0; }
            case RDLOCK: { auto it = E->rws.find(t.obj); return it == E->rws.end() || it->second.writer < 0; }
            case WRLOCK: { auto it = E->rws.find(t.obj); return it == E->rws.end() || (it->second.writer < 0 && it->second.n_readers == 0); }
            case JOIN: return E->th[t.target].finished;
            case FX_WOKEN: return t.signalled;
            case ONCE: case GUARD: { auto it = E->onces.find(t.obj); return it == E->onces.end() || it->second.state != 1; }
            case SPIN: for (auto &[a, v] : t.seen) { auto it = E->locs.find(a); if (it != E->locs.end() && it->second.version != v) { return true; } } return false;
            default: return true;
        }
    }
    std::string describe_blocked() {
        std::string s;
        for (int i = 0; i < E->n_threads; ++i) { auto &t = E->th[i]; if (t.live && !t.finished) { s += "\n  T" + std::to_string(i) + " waits at " + op_name(t.pend) + " " + sym(t.pc); } }
        return s;
    }
    size_t choose_index(const std::vector<int> &cand, const std::vector<u8> &cost, bool data) {
        if (cand.size() == 1) { return 0; }
        if (E->pruned) { return 0; }
        if (E->depth < E->stack.size()) {
            Node &n = E->stack[E->depth++];
            if (n.cand != cand || n.data != data) { E->diverged = true; violate("diverged", "HARNESS: the schedule did not replay deterministically"); }
            return n.at;
        }
        if (!data) {
            u64 h = 0x1234567; for (int i = 0; i < E->n_threads; ++i) { h = mix(h, E->th[i].h); } h = mix(h, u64(E->last) + 77);
            auto [it, fresh] = E->cache.try_emplace(h, E->preempted);
            if (!fresh) { if (it->second <= E->preempted) { E->pruned = true; return 0; } it->second = E->preempted; }
        }
        Node n; n.cand = cand; n.cost = cost; n.data = data; E->stack.push_back(std::move(n)); ++E->depth; ++E->res.decisions;
        return 0;
    }
    /** Operations that commute with everything other threads can do: performed at once, without branching. */
    bool eager(Thread &t) { return t.live && !t.finished && (t.pend == START || ((t.pend == FX_WOKEN || t.pend == JOIN) && enabled(t))); }
    /** Decide who performs the next visible operation. `me` may be finished. Returns when `me` is to go on. */
    void reschedule(Thread *me) {
        int next = -1;
        for (int i = 0; i < E->n_threads && next < 0; ++i) { if (eager(E->th[i])) { next = i; } }
        if (next < 0) {
            std::vector<int> cand; std::vector<u8> cost; // a switch away from the thread that made the last decision-worthy step is a preemption, if that thread could go on
            bool last_on = enabled(E->th[E->last]);
            if (last_on) { cand.push_back(E->last); cost.push_back(0); }
            if (!last_on || E->bound < 0 || E->preempted < E->bound) {
                for (int i = 0; i < E->n_threads; ++i) { if (last_on && i == E->last) { continue; } if (enabled(E->th[i])) { cand.push_back(i); cost.push_back(last_on ? 1 : 0); } }
            }
            if (cand.empty()) {
                bool all = true; for (int i = 0; i < E->n_threads; ++i) { all = all && (!E->th[i].live || E->th[i].finished); }
                if (all) { E->current = -1; E->done.post(); if (!me || me->finished) { return; } park(); }
                violate("deadlock", "no thread can go on:" + describe_blocked());
            }
            size_t ix = choose_index(cand, cost, false);
            E->preempted += cost[ix]; next = cand[ix]; E->last = next;
        }
        E->th[next].pend = E->th[next].pend == START ? CREATE : E->th[next].pend;
        if (me && next == me->tid) { return; }
        E->current = next; E->th[next].sem.post();
        if (me && !me->finished) { me->sem.wait(); }
    }
    bool changes(Op op) { return op != LOAD && op != RDLOCK; }
    /** Did only this thread use the object so far (or was it only read)? If it turns out not to be so, the exploration starts again. */
    bool is_local(Thread &t, Op op, void *obj) {
        if (op == CREATE || op == SPIN) { return op == CREATE; }
        if (op == JOIN) { return enabled(t); }
        if (!obj || E->shared.contains(obj)) { return false; }
        auto [it, fresh] = E->touched.try_emplace(obj, Touch{t.tid, false, changes(op)}); auto &x = it->second;
        if (!fresh) { x.many |= x.tid != t.tid; x.write |= changes(op); }
        if (x.many && x.write && !E->warm) { E->shared.insert(obj); E->restart = true; E->pruned = true; return false; }
        return enabled(t);
    }
    /** Before performing a visible operation. */
    void visible(Op op, void *obj, void *pc, void *obj2 = nullptr, int target = -1) {
        Thread &t = *self; t.pend = op; t.obj = obj; t.obj2 = obj2; t.target = target; t.pc = pc;
        if (op != SPIN && op != LOAD) { t.stutters = 0; t.seen.clear(); }
        if (E->recording) {
            if (is_local(t, op, obj)) { return; }
            reschedule(&t); ++E->ops; if (!E->pruned || E->trace.size() < 5000) { E->trace.push_back({t.tid, op, pc}); }
            if (E->ops > 400000) { violate("endless", "one schedule performed more than 400000 visible operations"); }
        } else if (!enabled(t)) { violate("deadlock", "the only thread waits for itself:" + describe_blocked()); }
    }
    void event(Thread &t, Op op, u64 pred) { t.h = mix(mix(t.h, op), pred); ++t.clock.c[t.tid]; }

    // ---- shadow memory -------------------------------------------------------------------------------------------------------------------
    void shadow_clear() { ++E->epoch; E->used = 0; if (E->epoch == 0) { for (auto &g : E->shadow) { g.epoch = 0; } E->epoch = 1; } }
    Granule &granule(u64 key) {
        size_t m = E->shadow.size() - 1; size_t i = (key * 0x9E3779B97F4A7C15ull >> 20) & m;
        while (true) {
            Granule &g = E->shadow[i];
            if (g.epoch != E->epoch) {
                if (++E->used * 2 > m) { violate("HARNESS", "shadow memory exhausted"); }
                g.epoch = E->epoch; g.key = key; g.n = 0; g.freed = 0; if (g.more) { g.more->clear(); } return g; }
            if (g.key == key) { return g; }
            i = (i + 1) & m;
        }
    }
    void race(const Cell &o, bool write, bool atomic, bool freeing, void *pc, void *addr) {
        auto kind = [](bool w, bool a) { return std::string(a ? "atomic " : "") + (w ? "write" : "read"); };
        auto f1 = outer_fn(o.pc), f2 = outer_fn(pc); if (f2 < f1) { std::swap(f1, f2); }
        violate("race " + f1 + " / " + f2, "data race: " + (freeing ? std::string("release") : kind(write, atomic)) + " by T" + std::to_string(self->tid) + " at " + sym(pc) + "\n  against " + kind(o.write, o.atomic) + " by T" + std::to_string(o.tid) + " at " + sym(o.pc));
    }
    void touch_granule(u64 key, u8 mask, bool write, bool atomic, bool freeing, void *pc, void *addr) {
        Granule &g = granule(key); Thread &t = *self;
        if (g.freed & mask) { violate("use after free", "memory used after it was released, by T" + std::to_string(t.tid) + " at " + sym(pc)); }
        auto look = [&](Cell &o) -> bool { // true: this cell can be dropped
            if (!(o.mask & mask)) { return false; }
            if (o.tid == t.tid) { return (o.mask & ~mask) == 0 && (write || !o.write) && (!atomic || o.atomic); }
            bool ordered = o.clk <= t.clock.c[o.tid];
            if (!ordered && (write || o.write) && !(atomic && o.atomic)) { race(o, write, atomic, freeing, pc, addr); }
            return ordered && (o.mask & ~mask) == 0 && (write || !o.write) && (!atomic || o.atomic);
        };
        size_t k = 0; for (size_t i = 0; i < g.n; ++i) { if (!look(g.c[i])) { g.c[k++] = g.c[i]; } } g.n = k;
        if (g.more && !g.more->empty()) { size_t j = 0; auto &m = *g.more; for (size_t i = 0; i < m.size(); ++i) { if (!look(m[i])) { m[j++] = m[i]; } } m.resize(j); }
        Cell c{t.clock.c[t.tid], u8(t.tid), mask, write, atomic, pc};
        if (g.n < 6) { g.c[g.n++] = c; } else { if (!g.more) { g.more = new std::vector<Cell>; } g.more->push_back(c); }
        if (freeing) { g.freed |= mask; }
    }
    void access(const void *p, size_t n, bool write, void *pc, bool atomic = false, bool freeing = false) {
        if (!self || inside || !E->recording || n == 0) { return; }
        In in; u64 a = reinterpret_cast<u64>(p), e = a + n;
        while (a < e) { u64 key = a >> 3, lo = a & 7, hi = std::min<u64>(8, e - (key << 3)); u8 mask = u8(((1u << hi) - 1) & ~((1u << lo) - 1)); touch_granule(key, mask, write, atomic, freeing, pc, const_cast<void *>(p)); a = (key + 1) << 3; }
    }
    void forget(const void *p, size_t n) { // fresh memory from the real allocator
        if (!self || inside || !E->recording || n == 0) { return; }
        In in; u64 a = reinterpret_cast<u64>(p) >> 3, e = (reinterpret_cast<u64>(p) + n + 7) >> 3;
        for (; a < e; ++a) { Granule &g = granule(a); g.n = 0; g.freed = 0; if (g.more) { g.more->clear(); } }
    }

    // ---- threads -------------------------------------------------------------------------------------------------------------------------
    constexpr size_t STACK = size_t(16) << 20; char *stacks = nullptr;
    void *trampoline(void *p) {
        Thread *t = static_cast<Thread *>(p); self = t; t->sem.wait();
        event(*t, START, 0);
        t->ret = t->fn(t->arg);
        ++inside; t->finished = true; t->h = mix(t->h, 0xF1F1); ++t->clock.c[t->tid];
        void *r = t->ret; reschedule(t); return r;
    }
    Thread *new_thread() {
        if (E->n_threads >= int(MAXT)) { violate("HARNESS", "too many threads"); }
        Thread &t = E->th[E->n_threads]; t.tid = E->n_threads++; return &t;
    }
    void real_launch(Thread *t) {
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + size_t(t->tid) * STACK, STACK);
        if (R().create(&t->handle, &a, trampoline, t)) { fprintf(stderr, "pthread_create failed\n"); abort(); }
        pthread_attr_destroy(&a);
    }
    void on_terminate() {
        if (self && E && E->running) {
            ++inside; std::string what = "no exception";
            if (auto ep = std::current_exception()) { try { std::rethrow_exception(ep); } catch (const std::exception &e) { what = e.what(); } catch (...) { what = "unknown exception"; } }
            violate("terminate", "std::terminate was called by T" + std::to_string(self->tid) + ": " + what);
        }
        abort();
    }
}

    Unmanaged::Unmanaged() { ++inside; }
    Unmanaged::~Unmanaged() { --inside; }
    void set_workers(size_t n) { if (!E) { return; } E->workers = n; }
    size_t workers_now() { return E ? E->workers : 2; }

    void init() {
        if (E) { return; }
        E = new Engine; arena_init(); E->shadow.resize(1 << 20);
        stacks = static_cast<char *>(mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        std::set_terminate(on_terminate);
    }

    void require(bool ok, const std::string &key, const std::function<std::string()> &detail) {
        if (!self) { fprintf(stderr, "mt::require outside of exploration\n"); if (!ok) { abort(); } return; }
        if (!ok) { std::string k = key, d = detail ? detail() : key; In in; violate(k, d); }
    }
    void arm(const Fault &f) { if (!self) { return; } E->fault = f; E->armed = true; E->hit = false; memset(E->allocs, 0, sizeof E->allocs); E->creates = 0; }
    bool disarm() { if (!self) { return false; } E->armed = false; return E->hit; }
    uint64_t allocations(size_t thread) { return E && thread < MAXT ? E->allocs[thread] : 0; }
    size_t choose(size_t n) {
        if (!self || n <= 1) { return 0; }
        In in; std::vector<int> c; std::vector<u8> z; for (size_t i = 0; i < n; ++i) { c.push_back(int(i)); z.push_back(0); }
        size_t r = choose_index(c, z, true); self->h = mix(self->h, 1000 + r); return r;
    }

    namespace {
        /** first: the first exploration of this body, which makes long-lived statics on a run of its own and finds out what is shared */
        Result explore_impl(mc::Ctx &c, const std::string &name, const Options &opt, const std::function<void()> &body, bool first) {
        init(); E->workers = opt.workers;
        E->stack.clear(); E->cache.clear(); E->res = {}; E->bound = opt.preemptions; E->body = body;
        auto t0 = std::chrono::steady_clock::now(); Result &res = E->res;
        bool warm = first; uint64_t restarts = 0; if (first) { E->shared.clear(); }
        while (true) {
            c.step("%s: schedule %lu, decisions %lu", name.c_str(), (unsigned long)res.executions, (unsigned long)E->stack.size());
            for (auto &a : arenas) { a.at = a.floor; }
            for (auto &t : E->th) { t.~Thread(); new (&t) Thread; }
            E->n_threads = 0; E->locs.clear(); E->mutexes.clear(); E->rws.clear(); E->conds.clear(); E->onces.clear(); E->touched.clear(); shadow_clear();
            E->depth = 0; E->preempted = 0; E->pruned = E->warm = warm; E->restart = false; E->ops = 0; E->trace.clear(); E->violation = false; E->unjoined = 0; E->recording = false; E->armed = false;
            Thread *root = new_thread(); root->live = true; root->pend = CREATE; root->clock.c[0] = 1; root->fn = [](void *) -> void * { E->body(); return nullptr; };
            E->running = true; E->current = E->last = 0; real_launch(root); root->sem.post(); E->done.wait(); E->running = false;
            ++res.executions; res.visible_ops += E->ops; res.max_threads = std::max<uint64_t>(res.max_threads, E->n_threads);
            if (E->violation) { res.violated = true; break; }
            for (int i = 0; i < E->n_threads; ++i) { if (!E->th[i].joined) { R().join(E->th[i].handle, nullptr); if (i > 0) { E->violation = true; E->vkey = "leaked thread"; E->vdetail = "a thread was never joined"; } } }
            if (E->violation) { res.violated = true; break; }
            if (warm) { warm = false; res = {}; for (auto &a : arenas) { a.floor = a.at; } continue; }
            if (E->restart) { ++restarts; E->stack.clear(); E->cache.clear(); res.decisions = 0; }
            else {
                while (!E->stack.empty() && E->stack.back().at + 1 >= E->stack.back().cand.size()) { E->stack.pop_back(); }
                if (E->stack.empty()) { break; }
                ++E->stack.back().at;
            }
            if (res.executions >= opt.max_executions || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.max_seconds) { res.capped = true; break; }
        }
        res.states = E->cache.size();
        c.states += res.states; c.transitions += res.visible_ops; c.traces += res.executions;
        c.count("schedules", res.executions); c.count("happens-before states", res.states); c.count("scheduling decisions", res.decisions); c.count("visible operations", res.visible_ops);
        if (res.capped) { c.count("capped explorations"); }
        if (getenv("MT_VERBOSE")) { fprintf(stderr, "%s: bound %d schedules %lu states %lu ops/schedule %lu shared %zu threads %lu restarts %lu%s %.1fs\n", name.c_str(), opt.preemptions, (unsigned long)res.executions, (unsigned long)res.states, (unsigned long)(res.visible_ops / std::max<u64>(1, res.executions)), E->shared.size(), (unsigned long)res.max_threads, (unsigned long)restarts, res.capped ? " CAPPED" : "", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
            if (!strcmp(getenv("MT_VERBOSE"), "2")) { for (auto &t : E->trace) { fprintf(stderr, "   T%d %s %s\n", t.tid, op_name(t.op), sym(t.pc).substr(0, 200).c_str()); } } }
        Result out = res;
        if (out.violated) { c.fail(name + ": " + E->vkey, E->vdetail); throw mc::Abandon{}; }
        return out;
        }
    }
    Result explore(mc::Ctx &c, const std::string &name, const Options &opt, const std::function<void()> &body) { return explore_impl(c, name, opt, body, true); }
    Result explore_iteratively(mc::Ctx &c, const std::string &name, Options opt, const std::function<void()> &body) {
        Result last; int top = opt.preemptions; auto t0 = std::chrono::steady_clock::now(); double total = opt.max_seconds;
        for (int b = 0; b <= top; ++b) {
            opt.preemptions = b; opt.max_seconds = total - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (opt.max_seconds <= 0) { c.count("capped explorations"); break; }
            last = explore_impl(c, name, opt, body, b == 0);
            if (last.capped) { break; }
            c.count("completed with at most " + std::to_string(b) + " preemptions");
        }
        return last;
    }

    // ---- what the hooks call --------------------------------------------------------------------------------------------------------------
    namespace hook {
        // a recursive mutex taken again by its owner is no scheduling point: nobody else can tell
        bool again(pthread_mutex_t *m) { if ((m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) { return false; } auto it = E->mutexes.find(m); if (it == E->mutexes.end() || it->second.owner != self->tid) { return false; } ++it->second.depth; return true; }
        bool inner(void *m) { auto it = E->mutexes.find(m); if (it == E->mutexes.end() || it->second.owner != self->tid || !it->second.depth) { return false; } --it->second.depth; return true; }
        void mutex_lock(void *m, void *pc) { In in; if (again(static_cast<pthread_mutex_t *>(m))) { return; } visible(LOCK, m, pc); auto &x = E->mutexes[m]; x.owner = self->tid; self->clock.join(x.vc); event(*self, LOCK, x.hash); x.hash = self->h; }
        bool mutex_try(void *m, void *pc) { In in; if (again(static_cast<pthread_mutex_t *>(m))) { return true; } visible(TRY, m, pc); auto &x = E->mutexes[m]; event(*self, TRY, x.hash); x.hash = self->h; if (x.owner >= 0) { return false; } x.owner = self->tid; self->clock.join(x.vc); return true; }
        void mutex_unlock(void *m, void *pc) { In in; if (inner(m)) { return; } auto &x = E->mutexes[m]; if (x.owner != self->tid) { violate("unlock", std::string("mutex unlocked by a thread that does not hold it, at ") + sym(pc)); } x.owner = -1; event(*self, LOCK, 1); x.hash = self->h; x.vc = self->clock; ++self->clock.c[self->tid]; }
        void rdlock(void *m, void *pc) {
            In in; auto &y = E->rws[m]; if (y.writer == self->tid || y.readers[self->tid]) { violate("shared_mutex locked twice", std::string("thread T") + std::to_string(self->tid) + " takes a shared lock on a std::shared_mutex it already holds (undefined behaviour; deadlocks against a waiting writer), at " + sym(pc)); }
            visible(RDLOCK, m, pc); auto &x = E->rws[m]; ++x.readers[self->tid]; ++x.n_readers; self->clock.join(x.w_vc); event(*self, RDLOCK, x.w_hash); }
        void wrlock(void *m, void *pc) {
            In in; auto &y = E->rws[m]; if (y.writer == self->tid || y.readers[self->tid]) { violate("shared_mutex locked twice", std::string("thread T") + std::to_string(self->tid) + " takes an exclusive lock on a std::shared_mutex it already holds (undefined behaviour), at " + sym(pc)); }
            visible(WRLOCK, m, pc); auto &x = E->rws[m]; x.writer = self->tid; self->clock.join(x.w_vc); self->clock.join(x.r_vc); event(*self, WRLOCK, mix(x.w_hash, x.r_sum)); x.w_hash = self->h; x.r_sum = 0; }
        bool tryrd(void *m, void *pc) { In in; visible(TRY, m, pc); auto &x = E->rws[m]; event(*self, TRY, mix(x.w_hash, x.r_sum)); x.w_hash = self->h; x.r_sum = 0; if (x.writer >= 0) { return false; } ++x.readers[self->tid]; ++x.n_readers; self->clock.join(x.w_vc); return true; }
        bool trywr(void *m, void *pc) { In in; visible(TRY, m, pc); auto &x = E->rws[m]; event(*self, TRY, mix(x.w_hash, x.r_sum)); x.w_hash = self->h; x.r_sum = 0; if (x.writer >= 0 || x.n_readers) { return false; } x.writer = self->tid; self->clock.join(x.w_vc); self->clock.join(x.r_vc); return true; }
        void rwunlock(void *m, void *pc) {
            In in; auto &x = E->rws[m];
            if (x.writer == self->tid) { x.writer = -1; event(*self, WRLOCK, 1); x.w_hash = self->h; x.w_vc = self->clock; }
            else if (x.readers[self->tid]) { --x.readers[self->tid]; --x.n_readers; event(*self, RDLOCK, 1); x.r_sum += mix(self->h, 5); x.r_vc.join(self->clock); }
            else { violate("unlock", "shared_mutex unlocked by a thread that does not hold it, at " + sym(pc)); }
            ++self->clock.c[self->tid];
        }
        void cond_wait(void *cv, void *m, void *pc) {
            In in; visible(CWAIT_ENTER, cv, pc); auto &c = E->conds[cv]; event(*self, CWAIT_ENTER, c.hash); c.hash = self->h; c.waiters.push_back(self->tid); self->signalled = false;
            auto &x = E->mutexes[m]; if (x.owner != self->tid) { violate("unlock", "condition variable waited upon without its mutex, at " + sym(pc)); }
            x.owner = -1; event(*self, LOCK, 1); x.hash = self->h; x.vc = self->clock; ++self->clock.c[self->tid];
            visible(CWAIT_WAKE, cv, pc, m);
            auto &y = E->mutexes[m]; y.owner = self->tid; self->clock.join(y.vc); event(*self, CWAIT_WAKE, mix(y.hash, E->conds[cv].hash)); y.hash = self->h;
        }
        void cond_notify(void *cv, bool all, void *pc) {
            In in; visible(all ? CNOTIFYALL : CNOTIFY, cv, pc); auto &c = E->conds[cv]; event(*self, all ? CNOTIFYALL : CNOTIFY, c.hash);
            if (all) { for (int w : c.waiters) { E->th[w].signalled = true; } c.waiters.clear(); }
            else if (!c.waiters.empty()) {
                size_t ix = 0; if (c.waiters.size() > 1) { std::vector<int> cand; std::vector<u8> z(c.waiters.size(), 0); for (int w : c.waiters) { cand.push_back(w); } ix = choose_index(cand, z, true); }
                int w = c.waiters[ix]; self->h = mix(self->h, 50 + w); E->th[w].signalled = true; E->th[w].h = mix(E->th[w].h, self->h); c.waiters.erase(c.waiters.begin() + ix);
            }
            c.hash = self->h;
        }
        int once(void *o, void (*f)(), void *pc) {
            { In in; if (*static_cast<int *>(o) == 2) { auto it = E->onces.find(o); if (it == E->onces.end() || it->second.state == 0) { return 0; } } // done before this execution began: it stays so
              visible(ONCE, o, pc); auto &x = E->onces[o]; if (*static_cast<int *>(o) == 2 && x.state == 0) { x.state = 2; }
              event(*self, ONCE, x.hash); if (x.state == 2) { self->clock.join(x.vc); return 0; } x.state = 1; x.runner = self->tid; x.hash = self->h; }
            try { f(); } catch (...) { In in; auto &x = E->onces[o]; x.state = 0; event(*self, ONCE, 3); x.hash = self->h; throw; }
            { In in; auto &x = E->onces[o]; x.state = 2; *static_cast<int *>(o) = 2; x.vc = self->clock; event(*self, ONCE, 2); x.hash = self->h; }
            return 0;
        }
        int guard_acquire(u64 *g, void *pc) {
            In in; visible(GUARD, g, pc); auto &x = E->onces[g]; event(*self, GUARD, x.hash);
            if (*reinterpret_cast<char *>(g) == 1) { self->clock.join(x.vc); return 0; }
            x.state = 1; x.hash = self->h; return 1;
        }
        void guard_release(u64 *g) { In in; auto &x = E->onces[g]; *reinterpret_cast<char *>(g) = 1; x.state = 2; event(*self, GUARD, 2); x.hash = self->h; x.vc = self->clock; auto &l = E->locs[g]; ++l.version; l.w_hash = self->h; l.rel = self->clock; l.has_rel = true; ++self->clock.c[self->tid]; }
        void guard_abort(u64 *g) { In in; auto &x = E->onces[g]; x.state = 0; event(*self, GUARD, 3); x.hash = self->h; }

        bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
        bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
        void acquire_from(Loc &l, int mo) { if (!l.has_rel) { return; } if (acq(mo)) { self->clock.join(l.rel); } else { self->facq.join(l.rel); } }
        void before_load(void *a, size_t n, void *pc) {
            Thread &t = *self; In in;
            if (E->recording) {
                Loc &l = E->locs[a]; bool stutter = false;
                for (auto &[sa, sv] : t.seen) { if (sa == a) { stutter = sv == l.version; if (!stutter) { sv = l.version; t.stutters = 0; } } }
                if (stutter) {
                    if (++t.stutters > 64) { visible(SPIN, a, pc); t.stutters = 0; t.seen.clear(); }
                } else { visible(LOAD, a, pc); t.seen.emplace_back(a, E->locs[a].version); t.pc = pc; Loc &l2 = E->locs[a]; event(t, LOAD, l2.w_hash); l2.r_sum += mix(t.h, 9); }
            }
        }
        void after_load(void *a, size_t n, int mo, void *pc) { { In in; acquire_from(E->locs[a], mo); } access(a, n, false, pc, true); }
        void before_store(void *a, size_t n, Op op, void *pc) { In in; visible(op, a, pc); }
        void after_store(void *a, size_t n, int mo, void *pc) {
            { In in; Loc &l = E->locs[a]; event(*self, STORE, mix(l.w_hash, l.r_sum)); l.w_hash = self->h; l.r_sum = 0; ++l.version;
              if (rel(mo)) { l.rel = self->clock; l.has_rel = true; } else if (self->has_frel) { l.rel = self->frel; l.has_rel = true; } else { l.has_rel = false; } }
            access(a, n, true, pc, true); In in; ++self->clock.c[self->tid];
        }
        void after_rmw(void *a, size_t n, int mo, bool wrote, void *pc) {
            { In in; Loc &l = E->locs[a]; acquire_from(l, mo); event(*self, RMW, mix(l.w_hash, l.r_sum));
              if (wrote) { l.w_hash = self->h; l.r_sum = 0; ++l.version;
                  if (rel(mo)) { if (l.has_rel) { l.rel.join(self->clock); } else { l.rel = self->clock; } l.has_rel = true; } else if (self->has_frel) { if (l.has_rel) { l.rel.join(self->frel); } else { l.rel = self->frel; } l.has_rel = true; } }
              else { l.r_sum += mix(self->h, 9); } }
            access(a, n, wrote, pc, true); In in; ++self->clock.c[self->tid];
        }
        void fence(int mo) { In in; if (acq(mo)) { self->clock.join(self->facq); } if (rel(mo)) { self->frel = self->clock; self->has_frel = true; ++self->clock.c[self->tid]; } }

        long futex(int *addr, int op, int val, void *pc) {
            In in; int cmd = op & FUTEX_CMD_MASK;
            if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
                visible(FX_WAIT, addr, pc); Loc &l = E->locs[addr]; event(*self, FX_WAIT, mix(l.w_hash, l.f_hash)); l.r_sum += mix(self->h, 9); l.f_hash = self->h;
                if (*reinterpret_cast<volatile int *>(addr) != val) { errno = EAGAIN; return -1; }
                E->conds[addr].waiters.push_back(self->tid); self->signalled = false;
                if (!E->recording) { violate("deadlock", "the only thread waits for itself:" + describe_blocked()); }
                visible(FX_WOKEN, addr, pc); event(*self, FX_WOKEN, E->locs[addr].f_hash); return 0;
            }
            if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
                visible(FX_WAKE, addr, pc); Loc &l = E->locs[addr]; event(*self, FX_WAKE, l.f_hash); auto &w = E->conds[addr].waiters; int n = 0;
                while (!w.empty() && n < val) {
                    size_t ix = 0; if (w.size() > size_t(val - n)) { std::vector<u8> z(w.size(), 0); ix = choose_index(std::vector<int>(w.begin(), w.end()), z, true); }
                    self->h = mix(self->h, 50 + w[ix]); E->th[w[ix]].signalled = true; E->th[w[ix]].h = mix(E->th[w[ix]].h, self->h); w.erase(w.begin() + ix); ++n;
                }
                l.f_hash = self->h; return n;
            }
            violate("HARNESS", "unmodelled futex operation " + std::to_string(op));
        }
        /** The calling thread has just found, by a load, that it must wait for a notification at this address. */
        void block(void *addr, void *pc) {
            In in; Loc &l = E->locs[addr]; event(*self, FX_WAIT, l.f_hash); l.f_sum += mix(self->h, 9); E->conds[addr].waiters.push_back(self->tid); self->signalled = false;
            if (!E->recording) { violate("deadlock", "the only thread waits for itself:" + describe_blocked()); }
            self->pend = FX_WOKEN; self->obj = addr; self->pc = pc; self->stutters = 0; self->seen.clear(); reschedule(self); event(*self, FX_WOKEN, 1);
        }
        void notify(void *addr, bool all, bool schedule, void *pc) {
            In in; if (schedule) { visible(FX_WAKE, addr, pc); }
            Loc &l = E->locs[addr]; event(*self, FX_WAKE, mix(l.f_hash, l.f_sum)); auto &w = E->conds[addr].waiters;
            while (!w.empty()) {
                size_t ix = 0; if (!all && w.size() > 1) { std::vector<u8> z(w.size(), 0); ix = choose_index(std::vector<int>(w.begin(), w.end()), z, true); }
                if (!all) { self->h = mix(self->h, 50 + w[ix]); }
                E->th[w[ix]].signalled = true; E->th[w[ix]].h = mix(E->th[w[ix]].h, self->h); w.erase(w.begin() + ix); if (!all) { break; }
            }
            l.f_hash = self->h; l.f_sum = 0;
        }
        int create(pthread_t *h, void *(*fn)(void *), void *arg, void *pc) {
            In in;
            if (E->armed && ++E->creates == E->fault.creation) { E->hit = true; return EAGAIN; }
            if (E->n_threads >= int(MAXT)) { return EAGAIN; }
            Thread *t = new_thread(); t->fn = fn; t->arg = arg; t->pc = pc; t->h = mix(self->h, 4242); event(*self, CREATE, 0); t->clock = self->clock; t->clock.c[t->tid] = 1; ++self->clock.c[self->tid];
            t->live = true; t->pend = START; ++E->unjoined;
            if (!E->recording) { E->recording = true; shadow_clear(); E->touched.clear(); E->last = self->tid; }
            real_launch(t); *h = t->handle;
            event(*self, CREATE, 1);
            return 0;
        }
        int join(pthread_t h, void **r, void *pc) {
            In in; Thread *t = nullptr; for (int i = 1; i < E->n_threads; ++i) { if (!E->th[i].joined && pthread_equal(E->th[i].handle, h)) { t = &E->th[i]; } }
            if (!t) { violate("join", "join of a thread that does not exist"); }
            visible(JOIN, nullptr, pc, nullptr, t->tid); event(*self, JOIN, t->h); self->clock.join(t->clock);
            R().join(h, r); t->joined = true; if (--E->unjoined == 0) { E->recording = false; shadow_clear(); }
            return 0;
        }
    }
}

using namespace mt;
#define PC __builtin_return_address(0)

extern "C" {
    // ---- pthreads --------------------------------------------------------------------------------------------------------------------------
    int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { if (managed()) { return hook::create(h, fn, arg, PC); } return R().create(h, a, fn, arg); }
    int pthread_join(pthread_t h, void **r) { if (managed()) { return hook::join(h, r, PC); } return R().join(h, r); }
    int pthread_mutex_lock(pthread_mutex_t *m) { if (managed()) { hook::mutex_lock(m, PC); return 0; } return R().m_lock(m); }
    int pthread_mutex_trylock(pthread_mutex_t *m) { if (managed()) { return hook::mutex_try(m, PC) ? 0 : EBUSY; } return R().m_trylock(m); }
    int pthread_mutex_unlock(pthread_mutex_t *m) { if (managed()) { hook::mutex_unlock(m, PC); return 0; } return R().m_unlock(m); }
    int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (managed()) { hook::rdlock(m, PC); return 0; } return R().rd(m); }
    int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (managed()) { hook::wrlock(m, PC); return 0; } return R().wr(m); }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (managed()) { return hook::tryrd(m, PC) ? 0 : EBUSY; } return R().tryrd(m); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (managed()) { return hook::trywr(m, PC) ? 0 : EBUSY; } return R().trywr(m); }
    int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (managed()) { hook::rwunlock(m, PC); return 0; } return R().rwun(m); }
    int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (managed()) { hook::cond_wait(c, m, PC); return 0; } return R().c_wait(c, m); }
    int pthread_cond_signal(pthread_cond_t *c) { if (managed()) { hook::cond_notify(c, false, PC); return 0; } return R().c_sig(c); }
    int pthread_cond_broadcast(pthread_cond_t *c) { if (managed()) { hook::cond_notify(c, true, PC); return 0; } return R().c_bc(c); }
    int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const timespec *) { if (managed()) { violate("HARNESS", "timed wait is not modelled"); } return EINVAL; }
    int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *) { if (managed()) { violate("HARNESS", "timed wait is not modelled"); } return EINVAL; }
    int pthread_once(pthread_once_t *o, void (*f)()) { if (managed()) { return hook::once(o, f, PC); } return R().once(o, f); }
    int sched_yield() { if (managed()) { return 0; } return R().yield(); }
    void __mt_block(const volatile void *a) noexcept { if (managed()) { hook::block(const_cast<void *>(a), PC); } else { R().yield(); } }
    void __mt_notify(const volatile void *a, bool all) noexcept { if (managed()) { hook::notify(const_cast<void *>(a), all, true, PC); } }
    void __mt_notify_now(const volatile void *a) noexcept { if (managed()) { hook::notify(const_cast<void *>(a), true, false, PC); } }
    long syscall(long n, ...) {
        va_list ap; va_start(ap, n); long a[6]; for (auto &x : a) { x = va_arg(ap, long); } va_end(ap);
        if (n == SYS_futex && managed()) { return hook::futex(reinterpret_cast<int *>(a[0]), int(a[1]), int(a[2]), PC); }
        long ret; register long r10 __asm__("r10") = a[3]; register long r8 __asm__("r8") = a[4]; register long r9 __asm__("r9") = a[5];
        __asm__ volatile("syscall" : "=a"(ret) : "0"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (ret < 0 && ret > -4096) { errno = int(-ret); return -1; }
        return ret;
    }

    // ---- memory ----------------------------------------------------------------------------------------------------------------------------
    void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (managed()) { forget(p, n); } return p; }
    void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (managed()) { forget(p, a * b); } return p; }
    void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (managed()) { forget(p, n); } return p; }
    int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (managed() && !r) { forget(*p, n); } return r; }
    void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (managed()) { forget(p, n); } return p; }
    void *__real___cxa_allocate_exception(size_t); void *__wrap___cxa_allocate_exception(size_t n) { void *p = __real___cxa_allocate_exception(n); if (managed()) { forget(p, n); } return p; }
    void __wrap_free(void *p) { if (p && in_arena(p)) { return; } if (p && managed()) { access(p, 8, true, PC); } __real_free(p); }
    void *__wrap_memcpy(void *d, const void *s, size_t n) { if (managed()) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
    void *__wrap_memmove(void *d, const void *s, size_t n) { if (managed()) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
    void *__wrap_memset(void *d, int v, size_t n) { if (managed()) { access(d, n, true, PC); } return __real_memset(d, v, n); }

    // ---- instrumentation -------------------------------------------------------------------------------------------------------------------
    void __tsan_init() {}
    void __tsan_func_entry(void *) {}
    void __tsan_func_exit() {}
    #define RW(n) void __tsan_read##n(void *p) { access(p, n, false, PC); } void __tsan_write##n(void *p) { access(p, n, true, PC); } \
                  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); } \
                  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
    void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
    void __tsan_vptr_update(void **p, void *v) { if (*p != v) { access(p, 8, true, PC); } }
    void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
    #define AT(B, T) \
        T __tsan_atomic##B##_load(const volatile T *a, int mo) { if (!managed()) { return *a; } void *p = (void *)a; hook::before_load(p, sizeof(T), PC); T v = *a; hook::after_load(p, sizeof(T), mo, PC); return v; } \
        void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { if (!managed()) { *a = v; return; } void *p = (void *)a; hook::before_store(p, sizeof(T), STORE, PC); *a = v; hook::after_store(p, sizeof(T), mo, PC); } \
        T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = v; return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = v; hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = T(o + v); return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = T(o + v); hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = T(o - v); return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = T(o - v); hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = T(o & v); return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = T(o & v); hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = T(o | v); return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = T(o | v); hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { if (!managed()) { T o = *a; *a = T(o ^ v); return o; } void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); T o = *a; *a = T(o ^ v); hook::after_rmw(p, sizeof(T), mo, true, PC); return o; } \
        int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { if (!managed()) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
            void *p = (void *)a; hook::before_store(p, sizeof(T), RMW, PC); bool ok = *a == *c; if (ok) { *a = v; } else { *c = *a; } hook::after_rmw(p, sizeof(T), ok ? mo : fmo, ok, PC); return ok; } \
        int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); }
    AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
    void __tsan_atomic_thread_fence(int mo) { if (managed()) { hook::fence(mo); } }
    void __tsan_atomic_signal_fence(int) {}
    // the library asks how many threads it may use
    size_t __real__ZN6Moment14Multithreading22get_max_worker_threadsEv();
    size_t __wrap__ZN6Moment14Multithreading22get_max_worker_threadsEv() { return std::min(__real__ZN6Moment14Multithreading22get_max_worker_threadsEv(), mt::workers_now()); }
}
unsigned int std::thread::hardware_concurrency() noexcept { return 64; }

static void *mt_new(size_t n, size_t align, void *pc) {
    if (managed()) {
        if (E->armed && ++E->allocs[self->tid] == E->fault.allocation && u64(self->tid) == E->fault.thread) { E->hit = true; throw std::bad_alloc{}; }
        return arena_alloc(n ? n : 1, align);
    }
    void *p = nullptr; if (align > 16) { if (__real_posix_memalign(&p, align, n)) { p = nullptr; } } else { p = __real_malloc(n ? n : 1); }
    if (!p) { throw std::bad_alloc{}; }
    return p;
}
static void mt_delete(void *p, void *pc) {
    if (!p) { return; }
    if (in_arena(p)) { if (managed()) { access(p, std::min<size_t>(reinterpret_cast<size_t *>(p)[-1], 1 << 16), true, pc, false, true); } return; }
    __real_free(p);
}
void *operator new(size_t n) { return mt_new(n, 16, PC); }
void *operator new[](size_t n) { return mt_new(n, 16, PC); }
void *operator new(size_t n, std::align_val_t a) { return mt_new(n, size_t(a), PC); }
void *operator new[](size_t n, std::align_val_t a) { return mt_new(n, size_t(a), PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return mt_new(n, 16, PC); } catch (const std::bad_alloc &) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return mt_new(n, 16, PC); } catch (const std::bad_alloc &) { return nullptr; } }
void operator delete(void *p) noexcept { mt_delete(p, PC); }
void operator delete[](void *p) noexcept { mt_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { mt_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { mt_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { mt_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { mt_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { mt_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { mt_delete(p, PC); }
namespace __cxxabiv1 { extern "C" {
    int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
        if (managed()) { return hook::guard_acquire(reinterpret_cast<uint64_t *>(g), PC); }
        return *reinterpret_cast<char *>(g) ? 0 : 1; // outside of exploration there is one thread only
    }
    void __cxa_guard_release(__cxxabiv1::__guard *g) noexcept { if (managed()) { hook::guard_release(reinterpret_cast<uint64_t *>(g)); return; } *reinterpret_cast<char *>(g) = 1; }
    void __cxa_guard_abort(__cxxabiv1::__guard *g) noexcept { if (managed()) { hook::guard_abort(reinterpret_cast<uint64_t *>(g)); } }
} }
