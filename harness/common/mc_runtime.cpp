#include "mc.h"

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <exception>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <cxxabi.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
    return "malloc_context_size=3:quarantine_size_mb=32:detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:handle_abort=0:detect_stack_use_after_return=0:"
           "max_allocation_size_mb=6000:print_legend=0:symbolize=1";
}

namespace mc {

    struct Shared {
        std::atomic<uint64_t> steps;
        char step[2048];
        int case_index;
    };

    void Ctx::step(const char *fmt, ...) {
        if (!slot) { return; }
        va_list ap; va_start(ap, fmt);
        vsnprintf(slot->step, sizeof(slot->step), fmt, ap);
        va_end(ap);
        slot->steps.fetch_add(1, std::memory_order_relaxed);
    }
    void Ctx::step(const std::string &s) {
        if (!slot) { return; }
        size_t n = std::min(s.size(), sizeof(slot->step) - 1);
        memcpy(slot->step, s.data(), n); slot->step[n] = 0;
        slot->steps.fetch_add(1, std::memory_order_relaxed);
    }
    void Ctx::fail(const std::string &key, const std::string &detail) {
        if (!reported.insert(key).second) { return; }
        ++violations;
        if (sink) { sink(key, detail); }
        if (violations >= 12) { throw Abandon{}; }
    }

    namespace {
        std::string esc(const std::string &s) {
            std::string o;
            for (unsigned char c : s) {
                switch (c) {
                    case '"': o += "\\\""; break;
                    case '\\': o += "\\\\"; break;
                    case '\n': o += "\\n"; break;
                    case '\t': o += "\\t"; break;
                    default:
                        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else { o += char(c); }
                }
            }
            return o;
        }
        double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
        double cpu_of(pid_t pid) {
            clockid_t c; timespec ts;
            if (clock_getcpuclockid(pid, &c) != 0 || clock_gettime(c, &ts) != 0) { return -1; }
            return ts.tv_sec + 1e-9 * ts.tv_nsec;
        }
        size_t rss_mb(pid_t pid) {
            char p[64]; snprintf(p, sizeof p, "/proc/%d/statm", int(pid));
            FILE *f = fopen(p, "r"); if (!f) { return 0; }
            unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) != 2) { b = 0; } fclose(f);
            return b * 4096 / (1024 * 1024);
        }
        std::string tail(const std::string &path, size_t n) {
            std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); auto s = ss.str();
            // for sanitizer reports the head is what matters
            auto pos = s.find("ERROR: AddressSanitizer");
            if (pos != std::string::npos) { return s.substr(pos, n); }
            return s.size() > n ? s.substr(s.size() - n) : s;
        }
        std::string current_exception_text() {
            try { throw; }
            catch (const std::exception &e) {
                int st = 0; char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
                std::string r = std::string(d ? d : typeid(e).name()) + ": " + e.what(); free(d); return r;
            } catch (...) { return "unknown exception"; }
        }

        // One line of JSON per finished case is written by the child to its own file.
        void write_result(const std::string &path, const Ctx &c, const std::vector<std::pair<std::string, std::string>> &viol, double t) {
            std::ofstream f(path, std::ios::trunc);
            f << "{\"case\":\"" << esc(c.case_name) << "\",\"wall\":" << t << ",\"states\":" << c.states << ",\"transitions\":" << c.transitions
              << ",\"traces\":" << c.traces << ",\"counters\":{";
            bool first = true;
            for (auto &[k, v] : c.counters) { f << (first ? "" : ",") << "\"" << esc(k) << "\":" << v; first = false; }
            f << "},\"samples\":[";
            first = true;
            for (auto &s : c.samples) { f << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
            f << "],\"violations\":[";
            first = true;
            for (auto &[k, d] : viol) { f << (first ? "" : ",") << "{\"key\":\"" << esc(k) << "\",\"detail\":\"" << esc(d.substr(0, 6000)) << "\"}"; first = false; }
            f << "]}\n";
        }

        [[noreturn]] void child_main(const Case &cs, Tier tier, Shared *slot, const std::string &out) {
            int fd = open((out + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
            rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
            Ctx c; c.slot = slot; c.tier = tier; c.case_name = cs.name;
            std::vector<std::pair<std::string, std::string>> viol;
            c.sink = [&](const std::string &k, const std::string &d) { viol.emplace_back(k, d + "  [step: " + slot->step + "]"); };
            double t0 = now();
            try { cs.body(c); }
            catch (const Abandon &) {}
            catch (...) {
                auto txt = current_exception_text();
                viol.emplace_back("exception", "unexpected exception: " + txt + "  [step: " + std::string(slot->step) + "]");
            }
            write_result(out, c, viol, now() - t0);
            _exit(0);
        }

        struct Running { pid_t pid; size_t index; double start; double last_cpu; double last_progress; };

        struct Outcome { bool ok = false; std::string kind, detail; };
    }

    int main_impl(int argc, char **argv) {
        Tier tier = QUICK; std::string outdir = "."; std::string only; size_t jobs = 8; bool list = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier" && i + 1 < argc) { tier = std::string(argv[++i]) == "thorough" ? THOROUGH : QUICK; }
            else if (a == "--out" && i + 1 < argc) { outdir = argv[++i]; }
            else if (a == "--case" && i + 1 < argc) { only = argv[++i]; }
            else if (a == "--jobs" && i + 1 < argc) { jobs = std::stoul(argv[++i]); }
            else if (a == "--list") { list = true; }
        }
        Registry reg; reg.tier = tier;
        register_cases(reg);
        if (list) { for (auto &c : reg.cases) { std::cout << c.name << "\n"; } return 0; }
        const size_t N = reg.cases.size();
        auto *slots = static_cast<Shared *>(mmap(nullptr, sizeof(Shared) * (N + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (slots == MAP_FAILED) { perror("mmap"); return 2; }

        std::vector<size_t> todo;
        for (size_t i = 0; i < N; ++i) { if (only.empty() || reg.cases[i].name == only) { todo.push_back(i); } }
        if (todo.empty()) { std::cerr << "no such case\n"; return 2; }
        std::reverse(todo.begin(), todo.end());

        auto outfile = [&](size_t i) { return outdir + "/case_" + std::to_string(i) + ".json"; };
        auto launch = [&](size_t i) -> Running {
            unlink(outfile(i).c_str());
            slots[i].step[0] = 0; slots[i].steps = 0;
            std::cout.flush(); std::cerr.flush();
            pid_t p = fork();
            if (p == 0) { setpgid(0, 0); child_main(reg.cases[i], tier, &slots[i], outfile(i)); }
            if (p < 0) { perror("fork"); exit(2); }
            return {p, i, now(), 0, now()};
        };
        auto write_synth = [&](size_t i, const std::string &kind, const std::string &detail) {
            Ctx c; c.case_name = reg.cases[i].name;
            write_result(outfile(i), c, {{kind, detail + "  [step: " + slots[i].step + "]"}}, 0);
        };
        // watches a set of running children; returns finished one
        std::map<size_t, int> attempts;
        std::vector<Running> running;
        std::vector<size_t> retry;   // to be run alone afterwards
        auto finish = [&](Running &r, int status, const std::string &killed_for, bool final_try) {
            const bool have = access(outfile(r.index).c_str(), R_OK) == 0;
            if (killed_for.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 0 && have) { return; }
            std::string kind, detail;
            auto err = tail(outfile(r.index) + ".err", 2500);
            if (!killed_for.empty()) { kind = killed_for; detail = killed_for + " in case " + reg.cases[r.index].name; }
            else if (WIFSIGNALED(status)) { kind = "crash"; detail = "killed by signal " + std::to_string(WTERMSIG(status)) + "\n" + err; }
            else { kind = "crash"; detail = "worker exited with status " + std::to_string(WEXITSTATUS(status)) + "\n" + err; }
            const bool was_kill = killed_for.empty() && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
            if (!final_try && (!killed_for.empty() || was_kill)) { retry.push_back(r.index); return; }
            write_synth(r.index, kind, detail);
        };
        auto poll = [&](double factor, bool final_try) {
            for (size_t k = 0; k < running.size();) {
                auto &r = running[k];
                int st = 0; pid_t w = waitpid(r.pid, &st, WNOHANG);
                if (w == r.pid) { finish(r, st, "", final_try); running.erase(running.begin() + k); continue; }
                const double lim = reg.cases[r.index].limit_s * factor;
                const double cpu = cpu_of(r.pid), wall = now() - r.start;
                std::string why;
                if (cpu > lim || wall > 3 * lim) { why = "hang"; }
                if (rss_mb(r.pid) > (final_try ? 12000u : 3500u)) { why = "memory-blowup"; }
                if (!why.empty()) {
                    kill(-r.pid, SIGKILL); kill(r.pid, SIGKILL);
                    waitpid(r.pid, &st, 0);
                    finish(r, st, why, final_try); running.erase(running.begin() + k); continue;
                }
                ++k;
            }
        };
        while (!todo.empty() || !running.empty()) {
            while (!todo.empty() && running.size() < jobs) { running.push_back(launch(todo.back())); todo.pop_back(); }
            poll(1.0, false);
            usleep(2000);
        }
        // anything killed for time or memory: once more, alone, with more room, before it is believed
        for (size_t n = 0; n < retry.size() && n < 2; ++n) {
            running.push_back(launch(retry[n]));
            while (!running.empty()) { poll(1.6, true); usleep(5000); }
        }
        for (size_t n = 2; n < retry.size(); ++n) { write_synth(retry[n], "hang", "also exceeded its limits (not retried)"); }
        return 0;
    }
}

int main(int argc, char **argv) { return mc::main_impl(argc, argv); }
