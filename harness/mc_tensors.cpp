// P17: Collins-Gisin, full-correlator and probability tensors, against statistics worked out in a reference algebra.
#include "worlds.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/probability_tensor.h"
#include "probability/maintains_tensors.h"
#include "probability/virtual_polynomial_view.h"
#include "multithreading/multithreading.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_probability_tensor.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/tensor_conversion.h"

using namespace Moment;
using world::World; using world::Elem; using world::Expr; using world::Raw; using world::cd;
using Policy = Moment::Multithreading::MultiThreadPolicy;

namespace {
    struct Mmt { size_t global; std::vector<int> ops; size_t outcomes; bool implicit; int a, b; };   // a, b: how the scenario names the measurement
    using Axis = std::vector<Mmt>;
    using Index = std::vector<size_t>;
    struct Value;
    struct Stats {
        std::shared_ptr<std::map<char, std::unordered_map<size_t, std::shared_ptr<Value>>>> cache = std::make_shared<std::map<char, std::unordered_map<size_t, std::shared_ptr<Value>>>>();
        World w; std::vector<Axis> axes; size_t mmts = 0; bool binary = true, locality = false;
        void finish() { for (auto &a : axes) { mmts += a.size(); } }
        /** what one position of one axis of each array stands for */
        [[nodiscard]] Elem cg(size_t d, size_t i) const { if (i == 0) { return w.word({}); } --i; for (auto &m : axes[d]) { if (i < m.ops.size()) { return w.word({m.ops[i]}); } i -= m.ops.size(); } throw std::runtime_error("index"); }
        [[nodiscard]] Elem outcome(const Mmt &m, size_t o) const { if (o < m.ops.size()) { return w.word({m.ops[o]}); } Elem e = w.word({}); for (int x : m.ops) { e = World::add(e, w.word({x}), -1.0); } return e; }
        [[nodiscard]] Elem pt(size_t d, size_t i) const { if (i == 0) { return w.word({}); } --i; for (auto &m : axes[d]) { if (i < m.outcomes) { return outcome(m, i); } i -= m.outcomes; } throw std::runtime_error("index"); }
        [[nodiscard]] Elem fc(size_t d, size_t i) const { if (i == 0) { return w.word({}); } return World::add(World::scale(w.word({axes[d][i - 1].ops[0]}), 2.0), w.word({}), -1.0); }
        [[nodiscard]] size_t cg_dim(size_t d) const { size_t n = 1; for (auto &m : axes[d]) { n += m.ops.size(); } return n; }
        [[nodiscard]] size_t pt_dim(size_t d) const { size_t n = 1; for (auto &m : axes[d]) { n += m.outcomes; } return n; }
        [[nodiscard]] size_t fc_dim(size_t d) const { return 1 + axes[d].size(); }
        template<class F> Elem product(const Index &ix, F &&f) const { Elem e = w.word({}); for (size_t d = 0; d < ix.size(); ++d) { if (ix[d]) { e = w.mul(e, f(d, ix[d])); } } return e; }
    };
    struct Value { Elem elem; Expr expr; };
    /** what each entry of the arrays stands for, worked out once */
    const Value &entry(const Stats &s, char kind, size_t off, const Index &ix) {
        auto &m = s.cache->operator[](kind); auto it = m.find(off);
        if (it == m.end()) { Value v; v.elem = s.product(ix, [&](size_t d, size_t i) { return kind == 'c' ? s.cg(d, i) : kind == 'p' ? s.pt(d, i) : s.fc(d, i); }); v.expr = s.w.expect(v.elem); it = m.emplace(off, std::make_shared<Value>(std::move(v))).first; }
        return *it->second;
    }
    Stats from_layout(const lref::Layout &l) {
        Stats s; s.w = world::locality(l, 1, 2); s.locality = true; lref::Model m(l); size_t g = 0; int op = 0;
        for (size_t p = 0; p < l.size(); ++p) { Axis a; for (size_t k = 0; k < l[p].size(); ++k) { Mmt x{g++, {}, size_t(l[p][k]), true, int(p), int(k)}; for (int o = 0; o + 1 < l[p][k]; ++o) { x.ops.push_back(op++); } if (l[p][k] != 2) { s.binary = false; } a.push_back(x); } s.axes.push_back(a); }
        s.finish(); return s;
    }
    Stats from_net(const iref::Net &n, int lv) {
        Stats s; s.w = world::inflation(n, lv, 1, 2); iref::Model m(n, lv); size_t g = 0; s.binary = false;
        for (int o = 0; o < int(n.obs.size()); ++o) {
            int variants = 1; for (size_t k = 0; k < m.sources_of[o].size(); ++k) { variants *= lv; }
            for (int v = 0; v < variants; ++v) { Mmt x{g++, {}, n.obs[o] ? n.obs[o] : 1, n.obs[o] != 0, o, v}; for (size_t i = 0; i < m.ops.size(); ++i) { if (m.ops[i].obs == o && m.ops[i].variant == v) { x.ops.push_back(int(i)); } } s.axes.push_back({x}); }
        }
        s.finish(); return s;
    }
    /** every index of an array, first index fastest */
    void each_index(const Index &dims, const std::function<void(size_t, const Index &)> &f) {
        if (dims.empty()) { return; } for (auto d : dims) { if (d == 0) { return; } }
        Index ix(dims.size(), 0); size_t off = 0; for (;;) { f(off++, ix); size_t d = 0; while (d < dims.size() && ++ix[d] == dims[d]) { ix[d++] = 0; } if (d == dims.size()) { return; } }
    }
    template<class V> Index as_index(const V &v) { return Index(v.begin(), v.end()); }

    /** which moments the symbol table knows */
    struct Known {
        const World &w; const SymbolTable &st; std::map<Raw, std::set<symbol_name_t>> id;  // (some systems have more than one symbol for a moment: not judged here)
        Known(const World &w, const SymbolTable &st) : w{w}, st{st} { for (size_t i = 1; i < st.size(); ++i) { id[w.key(World::raw(st[symbol_name_t(i)].sequence())).first.first].insert(symbol_name_t(i)); } }
        [[nodiscard]] std::set<symbol_name_t> find(const Raw &x) const { auto it = id.find(w.key(x).first.first); return it == id.end() ? std::set<symbol_name_t>{} : it->second; }
        [[nodiscard]] bool all(const Elem &e) const { for (auto &[k, v] : e) { if (find(k).empty()) { return false; } } return true; }
    };

    /** fresh: everything known must be filled in (otherwise what is filled in must be right) */
    void check_cg(mc::Ctx &c, const Stats &s, const Known &k, const CollinsGisin &cg, bool fresh, const std::string &name) {
        const std::string key = mc::cat("cg ", s.locality ? "locality" : "inflation"); Index dims; for (size_t d = 0; d < s.axes.size(); ++d) { dims.push_back(s.cg_dim(d)); }
        if (!c.require(as_index(cg.Dimensions) == dims, key + " dimensions", [&] { return name; })) { return; }
        auto full = cg.begin(); std::set<size_t> missing; bool all = true;
        const auto check = [&](const CollinsGisinEntry &e, const Index &ix, const char *how) {
            const Elem &want = entry(s, 'c', cg.index_to_offset(ix), ix).elem;
            if (!c.require(world::eq(World::elem(e.sequence), want), key + " sequence", [&] { return mc::cat(name, " ", how, " ", mc::show(ix), ": ", mc::show(World::raw(e.sequence)), " expected ", world::text(want)); })) { return; }
            const Raw &word = want.begin()->first; const auto ids = k.find(word); const auto id = e.symbol_id; ++c.traces;
            if (e.symbol_id < 0 && !fresh && cg.StorageType == TensorStorageType::Explicit) { return; }
            c.require(ids.empty() ? id == -1 : ids.count(id) == 1, key + " symbol", [&] { return mc::cat(name, " ", how, " ", mc::show(ix), " ", mc::show(word), ": symbol ", id, " expected ", mc::show(ids)); });
            if (ids.count(id)) {
                c.require(e.real_index == k.st[id].basis_key().first, key + " real-index", [&] { return mc::cat(name, " ", mc::show(ix), " real index ", e.real_index); });
                c.require(e.is_alias == (World::raw(k.st[id].sequence()) != word), key + " alias", [&] { return mc::cat(name, " ", mc::show(ix), " alias flag ", e.is_alias); });
            }
        };
        each_index(dims, [&](size_t off, const Index &ix) {
            check(cg(ix), ix, "()"); check(cg.at(off), ix, "at");
            if (c.require(bool(full) && full.index() == ix && full.offset() == off, key + " iteration", [&] { return mc::cat(name, " ", mc::show(ix)); })) { check(*full, ix, "iter"); ++full; }
            const auto e = cg(ix); if (e->symbol_id < 0) { missing.insert(off); all = false; }
        });
        c.require(!full && full == cg.end(), key + " iteration-end", [&] { return name; });
        if (cg.StorageType == TensorStorageType::Explicit) {
            c.require(cg.MissingSymbols() == missing, key + " missing-set", [&] { return name; });
            c.require(cg.HasAllSymbols() == all, key + " has-all", [&] { return name; });
        }
    }
    std::string show_cg(const Polynomial &p) { std::stringstream ss; for (auto &m : p) { ss << m.factor << "[" << m.id - 1 << "]"; } return ss.str(); }
    /** value of a polynomial over Collins-Gisin offsets */
    Elem read_cg(const Stats &s, const CollinsGisin &cg, const Polynomial &p) { Elem e; for (auto &m : p) { if (m.id <= 0) { continue; } const size_t off = size_t(m.id - 1); for (auto &[k, v] : entry(s, 'c', off, as_index(cg.offset_to_index(off))).elem) { e[k] += v * m.factor; } } return world::tidy(e); }

    template<class T> void check_poly(mc::Ctx &c, const Stats &s, const Known &k, const T &t, const CollinsGisin &cg, const Index &dims, bool fresh, const std::string &kind, const std::string &name) {
        const std::string key = mc::cat(kind, " ", s.locality ? "locality" : "inflation");
        if (!c.require(as_index(t.Dimensions) == dims, key + " dimensions", [&] { return name; })) { return; }
        auto full = t.begin(); bool all = true;
        each_index(dims, [&](size_t off, const Index &ix) {
            const Value &value = entry(s, kind[0], off, ix); const Elem &want = value.elem; ++c.traces;
            const auto check = [&](const PolynomialElement &e, const char *how) {
                const Elem got = read_cg(s, cg, e.cgPolynomial);
                c.require(world::eq(got, want), key + " cg-polynomial", [&] { return mc::cat(name, " ", how, mc::show(ix), ": ", show_cg(e.cgPolynomial), " = ", world::text(got), " expected ", world::text(want)); });
                if (e.hasSymbolPoly) {
                    const Expr ge = s.w.expr(k.st, e.symbolPolynomial);
                    c.require(world::eq(ge, value.expr), key + " symbol-polynomial", [&] { return mc::cat(name, " ", how, mc::show(ix), ": ", world::text(ge), " expected ", world::text(s.w.expect(want))); });
                } else if (fresh || (t.StorageType == TensorStorageType::Virtual && cg.StorageType == TensorStorageType::Virtual)) {
                    c.require(!k.all(want), key + " not-resolved", [&] { return mc::cat(name, " ", how, mc::show(ix), " all moments known"); });
                }
            };
            check(t(ix), "()"); check(t.at(off), "at");
            if (c.require(bool(full) && full.index() == ix && full.offset() == off, key + " iteration", [&] { return mc::cat(name, " ", mc::show(ix)); })) { check(*full, "iter"); ++full; }
            const auto e = t(ix); if (!e->hasSymbolPoly) { all = false; }
            const Polynomial cgp = t.CGPolynomial(ix);
            c.require(cgp == e->cgPolynomial, key + " CGPolynomial", [&] { return mc::cat(name, " ", mc::show(ix)); });
            Elem view; size_t n = 0; VirtualPolynomialView vpv{cg, cgp}; for (auto it = vpv.begin(); it != vpv.end(); ++it) { auto [seq, f] = *it; view = World::add(view, World::elem(seq), f); ++n; }
            c.require(world::eq(view, want) && n == vpv.size() && vpv.empty() == (n == 0), key + " polynomial-view", [&] { return mc::cat(name, " ", mc::show(ix), ": ", world::text(view), " expected ", world::text(want)); });
        });
        c.require(!full && full == t.end(), key + " iteration-end", [&] { return name; });
        if (t.StorageType == TensorStorageType::Explicit) { c.require(t.HasAllPolynomials() == all, key + " has-all", [&] { return name; }); }
    }
    Index fc_dims(const Stats &s) { Index d; for (size_t i = 0; i < s.axes.size(); ++i) { d.push_back(s.fc_dim(i)); } return d; }
    Index pt_dims(const Stats &s) { Index d; for (size_t i = 0; i < s.axes.size(); ++i) { d.push_back(s.pt_dim(i)); } return d; }
    void check_fc(mc::Ctx &c, const Stats &s, const Known &k, const FullCorrelator &t, const CollinsGisin &cg, bool fresh, const std::string &name) { check_poly(c, s, k, t, cg, fc_dims(s), fresh, "fc", name); }
    void check_pt(mc::Ctx &c, const Stats &s, const Known &k, const ProbabilityTensor &t, const CollinsGisin &cg, bool fresh, const std::string &name) { check_poly(c, s, k, t, cg, pt_dims(s), fresh, "pt", name); }

    // ---- histories ----
    enum Step { RCG, RFC, RPT, MM1, MM2, D1, D2, STEPS };
    const char *const step_name[] = {"CG", "FC", "PT", "MM1", "MM2", "D1", "D2"};
    template<class F> bool throws(F &&f) { try { f(); } catch (const std::exception &) { return true; } return false; }

    void run_history(mc::Ctx &c, const Stats &s, const std::vector<int> &steps, const std::string &name) {
        auto sys = s.w.make(); auto &ms = *sys; auto &mt = dynamic_cast<MaintainsTensors &>(ms); bool cg = false, fc = false, pt = false; ++c.states;
        for (size_t i = 0; i < steps.size(); ++i) {
            ++c.transitions; bool f_cg = false, f_fc = false, f_pt = false, said = true;
            switch (steps[i]) {
                case RCG: said = mt.RefreshCollinsGisin(); cg = f_cg = true; break;
                case RFC:
                    if (!s.binary) { c.require(throws([&] { (void)mt.RefreshFullCorrelator(); }), "fc refused", [&] { return name; }); cg = f_cg = true; break; }
                    said = mt.RefreshFullCorrelator(); cg = fc = f_cg = f_fc = true; break;
                case RPT: said = mt.RefreshProbabilityTensor(); cg = pt = f_cg = f_pt = true; break;
                case MM1: ms.MomentMatrix.create(1, Policy::Never); break;
                case MM2: ms.MomentMatrix.create(2, Policy::Never); break;
                case D1: ms.generate_dictionary(1); break;
                case D2: ms.generate_dictionary(2); break;
                default: break;
            }
            const std::string at = mc::cat(name, " step ", i);
            const Known k(s.w, ms.Symbols());
            c.require(throws([&] { (void)mt.CollinsGisin(); }) == !cg && throws([&] { (void)mt.FullCorrelator(); }) == !fc && throws([&] { (void)mt.ProbabilityTensor(); }) == !pt, "missing component", [&] { return at; });
            if (cg) { check_cg(c, s, k, mt.CollinsGisin(), f_cg, at); }
            if (fc) { check_fc(c, s, k, mt.FullCorrelator(), mt.CollinsGisin(), f_fc, at); }
            if (pt) { check_pt(c, s, k, mt.ProbabilityTensor(), mt.CollinsGisin(), f_pt, at); }
            if (f_pt) { c.require(said == mt.ProbabilityTensor().HasAllPolynomials(), "refresh-result pt", [&] { return at; }); }
            else if (f_fc) { c.require(said == mt.FullCorrelator().HasAllPolynomials(), "refresh-result fc", [&] { return at; }); }
            else if (f_cg && steps[i] == RCG) { c.require(said == mt.CollinsGisin().HasAllSymbols(), "refresh-result cg", [&] { return at; }); }
        }
    }
    void histories(mc::Ctx &c, const Stats &s, size_t length) {
        std::vector<int> steps; const std::function<void()> rec = [&] {
            if (steps.size() == length) { std::string n = s.w.name; for (int x : steps) { n += mc::cat(" ", step_name[x]); } c.step("%s", n.c_str()); run_history(c, s, steps, n); return; }
            for (int x = 0; x < STEPS; ++x) { if (x == MM2 && s.w.ops > 12) { continue; } steps.push_back(x); rec(); steps.pop_back(); }
        }; rec();
    }

    // ---- ranges, single elements and explicit values ----
    struct Choice { const Mmt *m = nullptr; int fixed = -1; size_t axis = 0; };      // one measurement on one axis
    void each_choice(const Stats &s, const std::function<void(const std::vector<Choice> &)> &f) {
        std::vector<Choice> cur; const std::function<void(size_t)> rec = [&](size_t d) {
            if (d == s.axes.size()) { f(cur); return; }
            rec(d + 1);
            for (auto &m : s.axes[d]) { for (int o = -1; o < int(m.outcomes); ++o) { cur.push_back({&m, o, d}); rec(d + 1); cur.pop_back(); } }
        }; rec(0);
    }
    size_t offset_in(const Axis &a, const Mmt *m, bool cg) { size_t o = 1; for (auto &x : a) { if (&x == m) { break; } o += cg ? x.ops.size() : x.outcomes; } return o; }

    template<class R, class T> void check_range(mc::Ctx &c, const R &r, const T &t, const Index &lo, const Index &hi, const std::string &key, const std::string &name) {
        Index dims; for (size_t d = 0; d < lo.size(); ++d) { dims.push_back(hi[d] - lo[d]); }
        size_t total = 1; for (auto d : dims) { total *= d; } ++c.transitions;
        c.require(as_index(r.Dimensions()) == dims && r.size() == total, key + " shape", [&] { return mc::cat(name, " dims ", mc::show(as_index(r.Dimensions())), " expected ", mc::show(dims)); });
        auto it = r.begin(); size_t n = 0; bool ok = true;
        each_index(dims, [&](size_t off, const Index &rel) {
            if (!ok) { return; } Index ix = rel; for (size_t d = 0; d < ix.size(); ++d) { ix[d] += lo[d]; }
            ok = c.require(bool(it) && it != r.end() && as_index(it.index()) == ix && it.block_offset() == off && it.offset() == t.index_to_offset(ix), key + " iteration", [&] { return mc::cat(name, " at ", mc::show(ix)); });
            if (!ok) { return; }
            const auto whole = t(ix);
            if constexpr (std::is_same_v<typename T::Element, CollinsGisinEntry>) { ok = c.require(it->sequence == whole->sequence && it->symbol_id == whole->symbol_id && it->real_index == whole->real_index, key + " element", [&] { return mc::cat(name, " at ", mc::show(ix)); }); }
            else { ok = c.require((*it).cgPolynomial == whole->cgPolynomial && it->symbolPolynomial == whole->symbolPolynomial && it->hasSymbolPoly == whole->hasSymbolPoly, key + " element", [&] { return mc::cat(name, " at ", mc::show(ix)); }); }
            ++it; ++n;
        });
        if (ok) { c.require(!it && it == r.end() && n == total, key + " iteration-end", [&] { return name; }); }
    }

    struct Adaptor {  // the two scenarios name measurements differently
        std::function<CollinsGisinRange(const std::vector<Choice> &, const std::vector<Choice> &, bool)> cg_range;
        std::function<ProbabilityTensorRange(const std::vector<Choice> &, const std::vector<Choice> &, bool)> pt_range;
        std::function<ProbabilityTensorElement(const std::vector<Choice> &)> pt_elem;
    };
    Adaptor adapt(const Stats &s, const MatrixSystem &sys) {
        Adaptor a;
        if (s.locality) {
            const auto &lms = dynamic_cast<const Locality::LocalityMatrixSystem &>(sys); const auto &ctx = lms.localityContext;
            auto free = [&ctx](const std::vector<Choice> &v) { std::vector<Locality::PMIndex> o; for (auto &x : v) { o.emplace_back(ctx, party_name_t(x.m->a), mmt_name_t(x.m->b)); } return o; };
            auto fix = [&ctx](const std::vector<Choice> &v) { std::vector<Locality::PMOIndex> o; for (auto &x : v) { o.emplace_back(ctx, party_name_t(x.m->a), mmt_name_t(x.m->b), uint32_t(x.fixed)); } return o; };
            a.cg_range = [&lms, free, fix](auto &f, auto &x, bool two) { return two ? lms.LocalityCollinsGisin().measurement_to_range(free(f), fix(x)) : lms.LocalityCollinsGisin().measurement_to_range(free(f)); };
            a.pt_range = [&lms, free, fix](auto &f, auto &x, bool two) { return two ? lms.LocalityProbabilityTensor().measurement_to_range(free(f), fix(x)) : lms.LocalityProbabilityTensor().measurement_to_range(free(f)); };
            a.pt_elem = [&lms, fix](auto &x) -> ProbabilityTensorElement { return lms.LocalityProbabilityTensor().outcome_to_element(fix(x)); };
        } else {
            const auto &ims = dynamic_cast<const Inflation::InflationMatrixSystem &>(sys);
            auto free = [](const std::vector<Choice> &v) { std::vector<Inflation::OVIndex> o; for (auto &x : v) { o.emplace_back(oper_name_t(x.m->a), oper_name_t(x.m->b)); } return o; };
            auto fix = [](const std::vector<Choice> &v) { std::vector<Inflation::OVOIndex> o; for (auto &x : v) { o.emplace_back(oper_name_t(x.m->a), oper_name_t(x.m->b), oper_name_t(x.fixed)); } return o; };
            a.cg_range = [&ims, free, fix](auto &f, auto &x, bool two) { return two ? ims.InflationCollinsGisin().measurement_to_range(free(f), fix(x)) : ims.InflationCollinsGisin().measurement_to_range(free(f)); };
            a.pt_range = [&ims, free, fix](auto &f, auto &x, bool two) { return two ? ims.InflationProbabilityTensor().measurement_to_range(free(f), fix(x)) : ims.InflationProbabilityTensor().measurement_to_range(free(f)); };
            a.pt_elem = [&ims, fix](auto &x) -> ProbabilityTensorElement { return ims.InflationProbabilityTensor().outcome_to_element(fix(x)); };
        }
        return a;
    }
    template<class T> void slices(mc::Ctx &c, T &t, const Stats &s) {
        const Index dims = as_index(t.Dimensions); Index top = dims; for (auto &d : top) { ++d; }
        // every window, including empty ones and ones that do not fit
        each_index(top, [&](size_t, const Index &lo) { each_index(top, [&](size_t, const Index &hi) {
            bool ok = true; for (size_t d = 0; d < dims.size(); ++d) { if (lo[d] >= dims[d] || lo[d] > hi[d]) { ok = false; } }
            const std::string name = mc::cat(s.w.name, " slice ", mc::show(lo), mc::show(hi)); bool threw = false; ++c.states;
            try { auto r = t.Splice(AutoStorageIndexView(lo), AutoStorageIndexView(hi)); if (ok) { check_range(c, r, t, lo, hi, "slice", name); } } catch (const Moment::errors::bad_tensor_index &) { threw = true; }
            c.require(threw == !ok, "slice refused", [&] { return name; });
        }); });
    }

    void ranges(mc::Ctx &c, const Stats &s, int level) {
        const std::string sc = s.locality ? "locality" : "inflation"; auto sys = s.w.make(); c.step("%s level %d", s.w.name.c_str(), level);
        if (level) { sys->MomentMatrix.create(size_t(level), Policy::Never); }
        auto &mt = dynamic_cast<MaintainsTensors &>(*sys); (void)mt.RefreshProbabilityTensor(); if (s.binary) { (void)mt.RefreshFullCorrelator(); }
        const auto &cg = mt.CollinsGisin(); const auto &pt = mt.ProbabilityTensor(); const Known k(s.w, sys->Symbols()); const Adaptor a = adapt(s, *sys);
        each_choice(s, [&](const std::vector<Choice> &chosen) {
            ++c.states; std::string name = mc::cat(s.w.name, " level ", level, ":"); for (auto &x : chosen) { name += mc::cat(" ", x.m->a, ".", x.m->b, x.fixed < 0 ? "" : mc::cat("=", x.fixed)); }
            std::vector<Choice> free, fixed; for (auto &x : chosen) { (x.fixed < 0 ? free : fixed).push_back(x); }
            auto rev = [](std::vector<Choice> v) { std::reverse(v.begin(), v.end()); return v; };
            Index lo(s.axes.size(), 0), hi(s.axes.size(), 1), plo = lo, phi = hi; bool cg_ok = true; Elem cond = s.w.word({});
            for (auto &x : chosen) {
                const size_t o = offset_in(s.axes[x.axis], x.m, true), p = offset_in(s.axes[x.axis], x.m, false);
                if (x.fixed < 0) { lo[x.axis] = o; hi[x.axis] = o + x.m->ops.size(); plo[x.axis] = p; phi[x.axis] = p + x.m->outcomes; }
                else { lo[x.axis] = o + x.fixed; hi[x.axis] = lo[x.axis] + 1; plo[x.axis] = p + x.fixed; phi[x.axis] = plo[x.axis] + 1; if (x.fixed >= int(x.m->ops.size())) { cg_ok = false; } cond = s.w.mul(cond, s.outcome(*x.m, size_t(x.fixed))); }
            }
            // Collins-Gisin: implicit outcomes have no entry
            std::vector<size_t> gm; std::vector<oper_name_t> go; for (auto &x : chosen) { gm.push_back(x.m->global); go.push_back(oper_name_t(x.fixed)); }
            if (cg_ok) {
                check_range(c, a.cg_range(free, fixed, true), cg, lo, hi, "cg range " + sc, name); check_range(c, a.cg_range(rev(free), rev(fixed), true), cg, lo, hi, "cg range " + sc, name);
                check_range(c, cg.measurement_to_range(gm, go), cg, lo, hi, "cg base range " + sc, name);
                if (fixed.empty()) { check_range(c, a.cg_range(free, {}, false), cg, lo, hi, "cg range " + sc, name); check_range(c, cg.measurement_to_range(gm), cg, lo, hi, "cg base range " + sc, name); }
            } else {
                c.require(throws([&] { (void)a.cg_range(free, fixed, true); }), "cg range implicit " + sc, [&] { return name + ": the implicit outcome is given another entry"; });
                c.require(throws([&] { (void)cg.measurement_to_range(gm, go); }), "cg base range implicit " + sc, [&] { return name + ": the implicit outcome is given another entry"; });
            }
            // probabilities
            const auto pr = a.pt_range(free, fixed, true); check_range(c, pr, pt, plo, phi, "pt range " + sc, name); check_range(c, a.pt_range(rev(free), rev(fixed), true), pt, plo, phi, "pt range " + sc, name);
            if (fixed.empty()) { check_range(c, a.pt_range(free, {}, false), pt, plo, phi, "pt range " + sc, name); }
            const ProbabilityTensorElement ce = a.pt_elem(fixed);
            c.require(world::eq(read_cg(s, cg, ce.cgPolynomial), cond), "pt outcome " + sc, [&] { return mc::cat(name, ": ", world::text(read_cg(s, cg, ce.cgPolynomial)), " expected ", world::text(cond)); });
            c.require(ce.hasSymbolPoly == k.all(cond), "pt outcome resolved " + sc, [&] { return name; });
            if (ce.hasSymbolPoly) { c.require(world::eq(s.w.expr(k.st, ce.symbolPolynomial), s.w.expect(cond)), "pt outcome symbols " + sc, [&] { return name; }); }
            // explicit values
            std::vector<Elem> want; bool known = true; Index dims; for (size_t d = 0; d < plo.size(); ++d) { dims.push_back(phi[d] - plo[d]); }
            each_index(dims, [&](size_t, const Index &rel) { Index ix = rel; for (size_t d = 0; d < ix.size(); ++d) { ix[d] += plo[d]; } want.push_back(s.product(ix, [&](size_t d, size_t i) { return s.pt(d, i); })); known = known && k.all(want.back()); });
            std::vector<std::vector<double>> value_sets; { std::vector<double> v, z(want.size(), 0.0), o(want.size(), 1.0); for (size_t i = 0; i < want.size(); ++i) { v.push_back((i + 1) * 0.0625); } value_sets = {v, z, o}; }
            for (auto &values : value_sets) for (bool conditional : {false, true}) {
                const bool can = known && (!conditional || k.all(cond)); std::vector<Polynomial> rules; bool threw = false;
                try { rules = conditional ? pt.explicit_value_rules(pr, ce, values) : pt.explicit_value_rules(pr, values); } catch (const Moment::errors::BadPTError &) { threw = true; }
                if (!c.require(threw == !can, "explicit refused " + sc, [&] { return mc::cat(name, " conditional ", conditional, " threw ", threw); }) || threw) { continue; }
                if (!c.require(rules.size() == want.size(), "explicit count " + sc, [&] { return name; })) { continue; }
                for (size_t i = 0; i < want.size(); ++i) {
                    const Expr e = s.w.expect(World::add(want[i], conditional ? cond : s.w.word({}), -values[i])); const Expr got = s.w.expr(k.st, rules[i]); ++c.traces;
                    c.require(world::eq(got, e), "explicit rule " + sc, [&] { return mc::cat(name, " conditional ", conditional, " rule ", i, ": ", world::text(got), " expected ", world::text(e)); });
                }
            }
            // correlators
            if (s.binary && fixed.empty()) {
                const auto &fc = dynamic_cast<const Locality::LocalityMatrixSystem &>(*sys).LocalityFullCorrelator(); std::vector<Locality::PMIndex> pm; for (auto &x : chosen) { pm.emplace_back(party_name_t(x.m->a), mmt_name_t(x.m->b)); }
                Elem e = s.w.word({}); for (auto &x : chosen) { e = s.w.mul(e, World::add(World::scale(s.w.word({x.m->ops[0]}), 2.0), s.w.word({}), -1.0)); }
                for (int r = 0; r < 2; ++r) { const FullCorrelatorElement el = fc.mmt_to_element(pm); c.require(world::eq(read_cg(s, cg, el.cgPolynomial), e), "fc element", [&] { return name; }); std::reverse(pm.begin(), pm.end()); }
            }
        });
        // ---- requests that make no sense are refused ----
        for (auto &ax : s.axes) for (auto &m : ax) for (auto &m2 : ax) {
            const Choice x{&m, -1, 0}, y{&m2, -1, 0}; Choice f{&m2, 0, 0}, g{&m, 0, 0}; const std::string n = mc::cat(s.w.name, " measurements ", m.global, ",", m2.global);
            c.require(throws([&] { (void)a.cg_range({x, y}, {}, false); }) && throws([&] { (void)a.cg_range({x, y}, {}, true); }) && throws([&] { (void)a.cg_range({x}, {f}, true); }) && throws([&] { (void)a.cg_range({}, {g, f}, true); }), "refuse two cg " + sc, [&] { return n; });
            c.require(throws([&] { (void)a.pt_range({x, y}, {}, false); }) && throws([&] { (void)a.pt_range({x, y}, {}, true); }) && throws([&] { (void)a.pt_range({x}, {f}, true); }) && throws([&] { (void)a.pt_range({}, {g, f}, true); }) && throws([&] { (void)a.pt_elem({g, f}); }), "refuse two pt " + sc, [&] { return n; });
            c.require(throws([&] { (void)cg.measurement_to_range(std::vector<size_t>{m.global, m2.global}); }) && throws([&] { (void)cg.measurement_to_range(std::vector<size_t>{m.global, m2.global}, std::vector<oper_name_t>{-1, -1}); }), "refuse two cg base " + sc, [&] { return n; });
            if (&m == &m2) for (int over = 0; over < 3; ++over) {
                g.fixed = int(m.outcomes) + over;
                c.require(throws([&] { (void)a.pt_range({}, {g}, true); }), "refuse outcome pt " + sc, [&] { return mc::cat(n, " outcome ", g.fixed); });
                c.require(throws([&] { (void)a.pt_elem({g}); }), "refuse outcome pt element " + sc, [&] { return mc::cat(n, " outcome ", g.fixed); });
                c.require(throws([&] { (void)a.cg_range({}, {g}, true); }), "refuse outcome cg " + sc, [&] { return mc::cat(n, " outcome ", g.fixed); });
                c.require(throws([&] { (void)cg.measurement_to_range(std::vector<size_t>{m.global}, std::vector<oper_name_t>{oper_name_t(g.fixed)}); }), "refuse outcome cg base " + sc, [&] { return mc::cat(n, " outcome ", g.fixed); });
            }
        }
        for (size_t over = 0; over < 3; ++over) {
            c.require(throws([&] { (void)cg.measurement_to_range(std::vector<size_t>{s.mmts + over}); }) && throws([&] { (void)cg.measurement_to_range(std::vector<size_t>{s.mmts + over}, std::vector<oper_name_t>{0}); }), "refuse measurement cg base " + sc, [&] { return mc::cat(s.w.name, " measurement ", s.mmts + over); });
            if (s.locality) {
                const auto &lms = dynamic_cast<const Locality::LocalityMatrixSystem &>(*sys); const std::vector<Locality::PMIndex> bad{{0, 0, s.mmts + over}}; std::vector<Locality::PMOIndex> bado{{bad[0], 0}}; const std::string n = mc::cat(s.w.name, " measurement ", s.mmts + over);
                c.require(throws([&] { (void)lms.LocalityCollinsGisin().measurement_to_range(bad); }) && throws([&] { (void)lms.LocalityCollinsGisin().measurement_to_range(bad, std::span<const Locality::PMOIndex>{}); }) && throws([&] { (void)lms.LocalityCollinsGisin().measurement_to_range(std::span<const Locality::PMIndex>{}, bado); }), "refuse measurement cg locality", [&] { return n; });
                c.require(throws([&] { (void)lms.LocalityProbabilityTensor().measurement_to_range(bad); }) && throws([&] { (void)lms.LocalityProbabilityTensor().measurement_to_range(bad, std::span<const Locality::PMOIndex>{}); }) && throws([&] { (void)lms.LocalityProbabilityTensor().measurement_to_range(std::span<const Locality::PMIndex>{}, bado); }) && throws([&] { (void)lms.LocalityProbabilityTensor().outcome_to_element(bado); }), "refuse measurement pt locality", [&] { return n; });
                if (s.binary) {
                    const auto &fc = lms.LocalityFullCorrelator(); const std::vector<Locality::PMIndex> party{{party_name_t(s.axes.size() + over), 0}}; c.require(throws([&] { (void)fc.mmt_to_element(party); }), "refuse party fc", [&] { return n; });
                    for (size_t d = 0; d < s.axes.size(); ++d) { const std::vector<Locality::PMIndex> b{{party_name_t(d), mmt_name_t(s.axes[d].size() + over)}}; c.require(throws([&] { (void)fc.mmt_to_element(b); }), "refuse measurement fc", [&] { return n; });
                        for (size_t i = 0; i < s.axes[d].size(); ++i) for (size_t j = 0; j < s.axes[d].size(); ++j) { const std::vector<Locality::PMIndex> t{{party_name_t(d), mmt_name_t(i)}, {party_name_t(d), mmt_name_t(j)}}; c.require(throws([&] { (void)fc.mmt_to_element(t); }), "refuse two fc", [&] { return n; }); } }
                }
            }
        }
        // ---- both kinds of storage say the same, and slices are windows ----
        if (s.locality) {
            const auto &lms = dynamic_cast<const Locality::LocalityMatrixSystem &>(*sys);
            for (auto st : {TensorStorageType::Explicit, TensorStorageType::Virtual}) {
                Locality::LocalityProbabilityTensor t{lms, st}; c.require(t.StorageType == st, "storage", [&] { return s.w.name; }); check_pt(c, s, k, t, cg, true, mc::cat(s.w.name, st == TensorStorageType::Virtual ? " virtual" : " explicit"));
                c.require(throws([&] { (void)t.Data(); }) == (st == TensorStorageType::Virtual), "storage data", [&] { return s.w.name; });
                if (t.ElementCount <= 64) { slices(c, t, s); }
                if (s.binary) { Locality::LocalityFullCorrelator f{lms, st}; check_fc(c, s, k, f, cg, true, mc::cat(s.w.name, st == TensorStorageType::Virtual ? " virtual" : " explicit")); if (f.ElementCount <= 64) { slices(c, f, s); } }
            }
        }
    }
    // ---- numbers ----
    void conversion(mc::Ctx &c, const lref::Layout &l) {
        const Stats s = from_layout(l); Locality::LocalityContext ctx(lref::parties(l)); const std::string name = s.w.name; c.step("%s", name.c_str());
        if (!s.binary || l.size() != 2) { c.require(throws([&] { Locality::TensorConvertor t{ctx}; }), "convert refused", [&] { return name; }); ++c.states; return; }
        const Locality::TensorConvertor conv{ctx}; Index dims{s.cg_dim(0), s.cg_dim(1)}; const size_t n = dims[0] * dims[1];
        std::vector<std::vector<double>> inputs; for (size_t i = 0; i < n; ++i) { std::vector<double> v(n, 0.0); v[i] = 1.0; inputs.push_back(v); for (size_t j = 0; j < i; ++j) { v[j] = -3.0; inputs.push_back(v); v[j] = 0.0; } } { std::vector<double> v; for (size_t i = 0; i < n; ++i) { v.push_back(double(i * i) - 2.5); } inputs.push_back(v); inputs.push_back(std::vector<double>(n, 0.0)); }
        // every deterministic behaviour: +1/-1 (outcome 0 / outcome 1) for every measurement
        const size_t m = l[0].size() + l[1].size();
        for (auto &in : inputs) {
            ++c.states; const auto fc = conv.collins_gisin_to_full_correlator(in), cg = conv.full_correlator_to_collins_gisin(in);
            if (!c.require(fc.size() == n && cg.size() == n, "convert size", [&] { return name; })) { return; }
            auto same = [&](const std::vector<double> &a, const std::vector<double> &b) { for (size_t i = 0; i < n; ++i) { if (std::abs(a[i] - b[i]) > 1e-9) { return false; } } return true; };
            c.require(same(conv.full_correlator_to_collins_gisin(fc), in) && same(conv.collins_gisin_to_full_correlator(cg), in), "convert inverse", [&] { return name + mc::show(in); });
            for (size_t b = 0; b < (size_t(1) << m); ++b) {
                double vin_cg = 0, vout_fc = 0, vin_fc = 0, vout_cg = 0; ++c.traces;
                each_index(dims, [&](size_t off, const Index &ix) {
                    auto bit = [&](size_t d, size_t i) { return (b >> (d * l[0].size() + i - 1)) & 1; };
                    double p = 1, q = 1; for (size_t d = 0; d < 2; ++d) { if (ix[d]) { p *= bit(d, ix[d]) ? 0 : 1; q *= bit(d, ix[d]) ? -1 : 1; } }
                    vin_cg += in[off] * p; vout_fc += fc[off] * q; vin_fc += in[off] * q; vout_cg += cg[off] * p;
                });
                c.require(std::abs(vin_cg - vout_fc) < 1e-9 && std::abs(vin_fc - vout_cg) < 1e-9, "convert value", [&] { return mc::cat(name, " ", mc::show(in), " behaviour ", b); });
            }
        }
        for (size_t bad : {size_t(0), n - 1, n + 1}) { std::vector<double> v(bad, 1.0); c.require(throws([&] { (void)conv.collins_gisin_to_full_correlator(v); }) && throws([&] { (void)conv.full_correlator_to_collins_gisin(v); }), "convert wrong size", [&] { return name; }); }
    }
}

void mc::register_cases(Registry &reg) {
    const bool x = !reg.quick();
    const auto hist = [&](const Stats &s, size_t n, double limit = 300) { reg.add("history/" + s.w.name, [s, n](mc::Ctx &c) { histories(c, s, n); }, limit); };
    std::vector<lref::Layout> small; lref::each_layout(2, 2, 3, 1, 4, [&](const lref::Layout &l) { small.push_back(l); });
    for (auto l : {lref::Layout{{2, 2}, {2, 2}, {2}}, lref::Layout{{2}, {2}, {2}}, lref::Layout{{2}, {}, {2, 2}}, lref::Layout{{2}, {2}, {2}, {2}}, lref::Layout{{4, 2}, {3}}, lref::Layout{{1}, {2}, {1, 3}}, lref::Layout{{3, 3}, {3, 3}}, lref::Layout{{2, 2}, {2, 2}, {2, 2}}}) { small.push_back(l); }
    std::vector<std::pair<std::string, int>> nets{{"single", 1}, {"pair-free", 1}, {"one-source", 2}, {"one-source", 3}, {"bell", 1}, {"bell", 2}, {"bell3", 2}, {"triangle", 1}, {"triangle-mixed", 1}, {"generic", 1}, {"generic", 2}, {"generic-free", 2}, {"two-source", 2}, {"one-outcome", 2}, {"free-and-linked", 2}, {"chain3", 1}, {"tripartite", 2}, {"empty-source", 1}};
    for (auto &l : small) {
        const Stats s = from_layout(l); const size_t ops = s.w.ops; hist(s, x ? (ops <= 4 ? 5 : 4) : (ops <= 4 ? 3 : 3));
        for (int lv : {0, 1, 2}) { reg.add(mc::cat("ranges/", s.w.name, "/", lv), [s, lv](mc::Ctx &c) { ranges(c, s, lv); }, 300); }
    }
    for (auto &[n, lv] : nets) {
        const Stats s = from_net(world::net(n), lv); hist(s, (n == "tripartite" || s.w.ops > 8 ? 2 : 3) + x);
        for (int level : {0, 1, 2}) { reg.add(mc::cat("ranges/", s.w.name, "/", level), [s, level](mc::Ctx &c) { ranges(c, s, level); }, 300); }
    }
    // arrays too large to be stored
    for (auto l : {lref::Layout{{9, 9, 9, 9}, {9, 9, 9, 9}}, lref::Layout{{11}, {6, 6}, {3, 3, 3, 3, 3}}, lref::Layout{{2, 2, 2}, {2, 2, 2}, {2, 2, 2}, {2, 2, 2}, {2, 2, 2}}, lref::Layout{{5, 5}, {5, 5}, {5, 5}}}) {
        const Stats s = from_layout(l); reg.add("large/" + s.w.name, [s, x](mc::Ctx &c) {
            std::vector<std::vector<int>> hs{{RPT, D1, RPT}, {D1, RPT, MM1, RPT}}; if (s.binary) { hs.push_back({RFC, MM1, RFC, RPT}); }
            if (x) { hs.push_back({RCG, RPT, D1, RCG, MM1, RPT}); }
            for (auto &h : hs) { std::string n = s.w.name; for (int y : h) { n += mc::cat(" ", step_name[y]); } c.step("%s", n.c_str()); run_history(c, s, h, n); }
        }, 800);
    }
    for (auto &[n, lv] : std::vector<std::pair<std::string, int>>{{"triangle", 2}, {"chain3", 3}, {"bell", 6}}) {
        const Stats s = from_net(world::net(n), lv); size_t pt = 1; for (size_t d = 0; d < s.axes.size(); ++d) { pt *= s.pt_dim(d); } if (pt > 600000) { continue; }
        reg.add("large/" + s.w.name, [s, x](mc::Ctx &c) { std::vector<int> h{D1, RCG, MM1, RCG}; run_history(c, s, h, s.w.name); if (x) { run_history(c, s, {RPT, MM1, RPT}, s.w.name); } }, 800);
    }
    std::vector<lref::Layout> conv; lref::each_layout(3, 3, 3, 1, 6, [&](const lref::Layout &l) { conv.push_back(l); });
    reg.add("conversion", [conv](mc::Ctx &c) { for (auto &l : conv) { conversion(c, l); } }, 600);
}
