// Minimal exhaustive-exploration harness: every check is a list of "cases"; each case enumerates one bounded space
// completely on the real code, inside a forked worker, so that crashes, hangs and memory blow-ups are findings too.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

    enum Tier { QUICK = 0, THOROUGH = 1 };

    struct Abandon {};       // thrown to leave a case after too many violations

    struct Shared;           // per-worker shared-memory slot

    /** Handle given to a case body. */
    class Ctx {
    public:
        Shared *slot = nullptr;
        Tier tier = QUICK;
        std::string case_name;
        uint64_t states = 0;        // distinct configurations / states / inputs looked at
        uint64_t transitions = 0;   // oracle evaluations on steps (operations applied, pairs compared, ...)
        uint64_t traces = 0;        // operation sequences or model traces replayed on the real code
        size_t violations = 0;
        std::map<std::string, uint64_t> counters;
        std::vector<std::string> samples;
        std::set<std::string> reported;
        std::function<void(const std::string &, const std::string &)> sink;

        [[nodiscard]] bool quick() const { return tier == QUICK; }
        /** Pick a bound according to tier. */
        template<class T> T bound(T q, T t) const { return tier == QUICK ? q : t; }

        /** Say what is being tried (cheap; shown when the process dies). */
        void step(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
        void step(const std::string &s);

        /** Record a violation. `key` identifies the defect class + input; detail is for the reader. */
        void fail(const std::string &key, const std::string &detail);

        template<class F>
        bool require(bool ok, const std::string &key, F detail) {
            ++transitions;
            if (!ok) { fail(key, detail()); }
            return ok;
        }
        bool require(bool ok, const char *key) {
            ++transitions;
            if (!ok) { fail(key, key); }
            return ok;
        }
        void count(const std::string &name, uint64_t n = 1) { counters[name] += n; }
        void sample(const std::string &s) { if (samples.size() < 3) { samples.push_back(s); } }
    };

    using Body = std::function<void(Ctx &)>;

    struct Case { std::string name; Tier min_tier; Body body; double limit_s; };

    class Registry {
    public:
        Tier tier = QUICK;
        std::vector<Case> cases;
        [[nodiscard]] bool quick() const { return tier == QUICK; }
        /** Case that runs in both tiers. */
        void add(std::string name, Body b, double limit_s = 120) { cases.push_back({std::move(name), QUICK, std::move(b), limit_s}); }
        /** Case that runs in the thorough tier only. */
        void deep(std::string name, Body b, double limit_s = 3600) { if (tier == THOROUGH) { cases.push_back({std::move(name), THOROUGH, std::move(b), limit_s}); } }
    };

    /** Entry point: defined by each harness. */
    void register_cases(Registry &reg);

    // ---- little helpers shared by the harnesses ----
    template<class C> std::string show(const C &c) {
        std::stringstream ss; ss << "["; bool first = true;
        for (const auto &x : c) { if (!first) { ss << ","; } first = false; ss << +x; }
        ss << "]"; return ss.str();
    }
    inline std::string cat_impl(std::stringstream &ss) { return ss.str(); }
    template<class T, class... R> std::string cat_impl(std::stringstream &ss, const T &t, const R &... r) { ss << t; return cat_impl(ss, r...); }
    template<class... R> std::string cat(const R &... r) { std::stringstream ss; ss.precision(12); return cat_impl(ss, r...); }

    /** Call f on every word of exactly `len` letters over {0..base-1}. */
    template<class F> void each_word(size_t base, size_t len, F f) {
        std::vector<int> w(len, 0);
        if (len > 0 && base == 0) { return; }
        while (true) {
            f(const_cast<const std::vector<int> &>(w));
            size_t i = len;
            while (i > 0) { --i; if (static_cast<size_t>(++w[i]) < base) { break; } w[i] = 0; if (i == 0) { return; } }
            if (len == 0) { return; }
        }
    }
    /** Call f on every word u^k cut to `len` letters with a one-letter prefix or none, for every u of up to `period` letters and every len in [from, to]. */
    template<class F> void each_periodic(size_t base, size_t period, size_t from, size_t to, F f) {
        for (size_t l = 1; l <= period; ++l) { each_word(base, l, [&](const std::vector<int> &u) {
            for (int first = -1; first < int(base); ++first) for (size_t len = from; len <= to; ++len) {
                std::vector<int> w; if (first >= 0) { w.push_back(first); } for (size_t k = 0; w.size() < len; ++k) { w.push_back(u[k % l]); }
                f(const_cast<const std::vector<int> &>(w));
            }
        }); }
    }
    template<class F> void each_word_upto(size_t base, size_t len, F f) { for (size_t l = 0; l <= len; ++l) { each_word(base, l, f); } }
}
