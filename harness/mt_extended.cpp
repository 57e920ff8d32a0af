// P16: extended matrices made by several worker threads, in every schedule, against the ones made by a single thread.
#include "mt.h"
#include "extended.h"
#include "multithreading/multithreading.h"
#include <iostream>

using namespace Moment; using mc::Ctx; using Policy = Moment::Multithreading::MultiThreadPolicy;
namespace {
    using namespace ext; using List = std::vector<symbol_name_t>;
    struct Plan { iref::Net net; size_t infl, level; std::vector<size_t> prior; List e; };
    std::unique_ptr<System> prepare(const Plan &p) { auto s = std::make_unique<System>(std::make_unique<Inflation::InflationContext>(iref::network(p.net), p.infl)); for (auto l : p.prior) { (void)s->MomentMatrix.create(l, Policy::Never); } (void)s->MomentMatrix.create(p.level, Policy::Never); return s; }
    std::string name(const Plan &p) { return mc::cat(p.net.name, "-x", p.infl, " level ", p.level, " by ", mc::show(std::vector<int>(p.e.begin(), p.e.end())), p.prior.empty() ? "" : " after larger"); }
    const SymbolicMatrix &extend(System &s, const Plan &p, Policy policy) { return s.ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{p.level, std::span<const symbol_name_t>{p.e}}, policy).second; }

    void run(Ctx &c, const Plan &p, size_t workers, int preemptions, double seconds) {
        const iref::Model m{p.net, int(p.infl)}; std::string want, want_symbols; bool valid = true;
        { auto s = prepare(p); const auto size = s->Symbols().size(); for (auto x : p.e) { valid &= x >= 0 && size_t(x) < size; } if (valid) { want = picture(m, *s, extend(*s, p, Policy::Never)); want_symbols = symbols(m, *s); } }
        mt::Options o; o.workers = workers; o.preemptions = preemptions; o.max_seconds = seconds; c.sample(mc::cat(name(p), ": ", want.substr(0, 100)));
        auto r = mt::explore_iteratively(c, name(p), o, [&] {
            auto s = prepare(p); std::string got, got_symbols, msg; bool ok = true;
            try { const auto &x = extend(*s, p, Policy::Always); mt::Unmanaged u; got = picture(m, *s, x); got_symbols = symbols(m, *s); } catch (const std::exception &e) { ok = false; msg = e.what(); }
            mt::require(ok == valid, valid ? "refused" : "unknown extension accepted", [&] { return name(p) + ": " + msg; }); if (!valid || !ok) { return; }
            mt::require(got == want, "matrix differs", [&] { return "one thread:\n" + want + "several threads:\n" + got; }); mt::require(got_symbols == want_symbols, "symbols differ", [&] { return "one thread: " + want_symbols + "\nseveral threads: " + got_symbols; });
        });
        c.require(!valid || r.max_threads > 1, "no threads", [&] { return name(p); });
    }
}
void mc::register_cases(mc::Registry &reg) {
    const bool q = reg.quick();
    auto each = [&](const std::string &n, size_t infl, size_t level, std::vector<size_t> prior, size_t length, size_t most, bool invalid) {
        iref::Net net; for (auto &x : iref::nets()) { if (x.name == n) { net = x; } }
        const size_t size = prepare({net, infl, level, prior, {}})->Symbols().size(); List alpha; for (size_t i = 0; i < size && alpha.size() < most; ++i) { alpha.push_back(symbol_name_t(i)); } if (size > most) { alpha.back() = symbol_name_t(size - 1); } if (invalid) { alpha.push_back(symbol_name_t(size)); alpha.push_back(-1); }
        for (size_t l = 1; l <= length; ++l) { mc::each_word(alpha.size(), l, [&](const std::vector<int> &w) { Plan p{net, infl, level, prior, {}}; for (auto x : w) { p.e.push_back(alpha[size_t(x)]); } 
            for (size_t k : {2, 3}) { if (q && k == 3 && l != 2) { continue; } reg.add(mc::cat(name(p), " ", k), [=](Ctx &c) { run(c, p, k, c.quick() ? (k == 2 ? 3 : 2) : (k == 2 ? 5 : 3), c.quick() ? 8 : 120); }, 900); } }); }
    };
    each("one-source", 2, 1, {}, q ? 2 : 3, 5, true); each("one-source", 2, 1, {2}, 2, q ? 5 : 8, false); each("one-source", 1, 1, {}, 2, 4, true); each("single", 1, 1, {}, 2, 3, true);
    each("bell", 1, 1, {}, 2, 5, false); each("pair-free", 1, 1, {}, q ? 2 : 3, 5, false); each("one-source", 3, 1, {}, q ? 1 : 2, 6, false);
}
