// P03: rewriting of words by the user's rules, on every small rule set, against an independent completion procedure.
#include "mc.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "dictionary/operator_sequence.h"
#include <algorithm>
#include <deque>

using namespace Moment;
using namespace Moment::Algebraic;

namespace {
    using Word = std::string;                            // letters are small numbers
    struct Elem { bool zero = false; int sign = 0; Word w; bool operator==(const Elem &) const = default; };   // i^sign w, or zero
    struct Eqn { Elem l, r; };
    bool before(const Word &a, const Word &b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
    std::string show(const Elem &e) { if (e.zero) { return "0"; } static const char *s[] = {"", "i", "-", "-i"}; std::string o = s[e.sign]; if (e.w.empty()) { o += "1"; } for (char ch : e.w) { o += char('a' + ch); } return o; }
    std::string show(const std::vector<Eqn> &es) { std::string o = "{"; for (auto &e : es) { o += show(e.l) + "=" + show(e.r) + " "; } return o + "}"; }
    const Elem nil{true, 0, {}};
    Elem times(const Word &a, const Elem &e, const Word &b) { return e.zero ? nil : Elem{false, e.sign, a + e.w + b}; }

    /** Reference: completion with all overlaps (a rule with itself included), all phases, and zero. */
    struct Completion {
        struct Rule { Word l; Elem r; };
        std::vector<Rule> rules; bool collapsed = false, complete = false; size_t work = 0;
        Elem nf(Elem e) const {
            if (collapsed) { return nil; }
            e.sign &= 3;
            for (bool again = true; again && !e.zero;) { again = false; for (auto &r : rules) { if (auto at = e.w.find(r.l); at != Word::npos) { auto s = e.sign; e = times(e.w.substr(0, at), r.r, e.w.substr(at + r.l.size())); if (!e.zero) { e.sign = (e.sign + s) & 3; } again = true; break; } } }
            return e.zero ? nil : e;
        }
        void run(const std::vector<Eqn> &given, size_t max_rules, size_t max_len, size_t max_work) {
            std::deque<std::pair<Elem, Elem>> todo; for (auto &e : given) { todo.emplace_back(e.l, e.r); }
            while (!todo.empty()) {
                // shortest first keeps the set small
                auto best = std::min_element(todo.begin(), todo.end(), [](auto &x, auto &y) { return std::max(x.first.w.size(), x.second.w.size()) < std::max(y.first.w.size(), y.second.w.size()); });
                auto [a, b] = *best; todo.erase(best); if (++work > max_work) { return; }
                a = nf(a); b = nf(b); if (a == b) { continue; }
                if (!a.zero && !b.zero && a.w == b.w) { b = nil; }
                if (a.zero || (!b.zero && before(a.w, b.w))) { std::swap(a, b); }
                if (a.w.empty()) { collapsed = complete = true; rules.clear(); return; }
                Rule n{a.w, b}; if (!n.r.zero) { n.r.sign = (b.sign - a.sign) & 3; }
                if (n.l.size() > max_len || rules.size() >= max_rules) { return; }
                for (size_t i = 0; i < rules.size();) { if (rules[i].l.find(n.l) != Word::npos) { todo.emplace_back(Elem{false, 0, rules[i].l}, rules[i].r); rules.erase(rules.begin() + long(i)); } else { ++i; } }
                rules.push_back(n);
                for (auto &r : rules) { r.r = nf(r.r); }
                auto overlaps = [&](const Rule &p, const Rule &q) { for (size_t k = 1; k < std::min(p.l.size(), q.l.size()) + (p.l == q.l ? 0 : 0); ++k) { if (p.l.compare(p.l.size() - k, k, q.l, 0, k) == 0) { todo.emplace_back(times({}, p.r, q.l.substr(k)), times(p.l.substr(0, p.l.size() - k), q.r, {})); } } };
                const Rule copy = rules.back(); auto others = rules; for (auto &r : others) { overlaps(copy, r); if (r.l != copy.l) { overlaps(r, copy); } }
            }
            complete = true;
        }
    };

    struct World {
        std::string name; AlgebraicPrecontext pc; bool hermitian; size_t letters;
        World(std::string n, size_t ops, AlgebraicPrecontext::ConjugateMode m) : name{std::move(n)}, pc{oper_name_t(ops), m}, hermitian{m == AlgebraicPrecontext::ConjugateMode::SelfAdjoint}, letters{hermitian ? ops : 2 * ops} {}
        Word star(const Word &w) const { Word o(w.rbegin(), w.rend()); for (auto &ch : o) { if (pc.conj_mode == AlgebraicPrecontext::ConjugateMode::Bunched) { ch = char((size_t(ch) + letters / 2) % letters); } else if (!hermitian) { ch = char(ch ^ 1); } } return o; }
        Elem star(const Elem &e) const { return e.zero ? nil : Elem{false, (4 - e.sign) & 3, star(e.w)}; }
        HashedSequence lib(const Elem &e) const { if (e.zero) { return HashedSequence(true); } sequence_storage_t s; for (char ch : e.w) { s.push_back(oper_name_t(ch)); } return HashedSequence{std::move(s), pc.hasher, static_cast<SequenceSignType>(e.sign)}; }
        static Elem from(const HashedSequence &h) { if (h.zero()) { return nil; } Elem e; e.sign = int(h.get_sign()); for (auto o : h) { e.w += char(o); } return e; }
        std::vector<Word> words(size_t longest) const { std::vector<Word> out{Word{}}; for (size_t i = 0, n = 1; n <= longest; ++n) { size_t stop = out.size(); for (; i < stop; ++i) { for (size_t a = 0; a < letters; ++a) { out.push_back(out[i] + char(a)); } } } return out; }
        /** Every equation between words of given length and a phase times an earlier word (or the same, or zero). */
        std::vector<Eqn> equations(size_t longest_l, size_t longest_r, const std::vector<int> &signs) const {
            auto ws = words(longest_l); std::vector<Eqn> out;
            for (auto &l : ws) { if (l.empty()) { continue; } Elem L{false, 0, l}; out.push_back({L, nil}); for (auto &r : ws) { if (r.size() > longest_r || before(l, r)) { continue; } for (int s : signs) { if (l != r || s) { out.push_back({L, Elem{false, s, r}}); } } } }
            return out;
        }
    };

    std::vector<Eqn> closed(const World &w, std::vector<Eqn> es) { const size_t n = es.size(); for (size_t i = 0; i < n; ++i) { es.push_back({w.star(es[i].l), w.star(es[i].r)}); } return es; }

    /** All of the promises about one rule book, given what its stated equations imply. */
    void judge(mc::Ctx &c, const World &w, const OperatorRulebook &rb, const Completion &ref, const std::vector<Word> &ws, bool claims_complete, const std::string &when, const std::vector<Eqn> &given) {
        auto me = [&] { return show(given) + " " + when; };
        auto key = [&](const char *k) { return std::string(k) + " (" + when + ")"; };
        int turn = 0;
        for (auto &word : ws) {
            ++c.states; const Elem e{false, turn++ & 3, word}; const auto in = w.lib(e); const auto out = rb.reduce(in); const Elem got = World::from(out);
            auto tell = [&] { return me() + ": " + show(e) + " -> " + show(got); };
            c.require(out.hash() == (got.zero ? 0 : w.pc.hasher(out.raw())), key("hash"), tell);
            if (!got.zero) { c.require(!before(word, got.w), key("longer"), tell); c.require(!rb.can_reduce(out.raw()), key("reducible"), tell); }
            c.require(World::from(rb.reduce(out)) == got, key("not idempotent"), tell);
            const bool changed = !(got == e); c.require(rb.can_reduce(in.raw()) == (got.zero || got.w != word), key("can_reduce"), tell); (void)changed;
            const Elem iter = World::from(rb.reduce_via_iteration(in)), search = World::from(rb.reduce_via_search(in));
            auto place = in; rb.reduce_in_place(place); Elem inplace = World::from(place);
            sequence_storage_t raw{in.raw()}; auto sign = in.get_sign(); const auto kind = rb.reduce_in_place(raw, sign); Elem inraw; inraw.zero = kind == OperatorRulebook::RawReductionResult::SetToZero; if (!inraw.zero) { inraw.sign = int(sign); for (auto o : raw) { inraw.w += char(o); } }
            c.require(inplace == got && inraw == got, key("in place"), [&] { return tell() + " but " + show(inplace) + " / " + show(inraw); });
            if (ref.collapsed) { continue; }
            const Elem want = ref.nf(e);
            if (claims_complete) {
                c.require(iter == got && search == got, key("ways differ"), [&] { return tell() + " but " + show(iter) + " / " + show(search); });
                if (ref.complete) { c.require(got == want, key("normal form"), [&] { return tell() + " want " + show(want); }); }
            }
            if (ref.complete) { for (auto &o : {got, iter, search}) { c.require(ref.nf(o) == want, key("unsound"), [&] { return me() + ": " + show(e) + " -> " + show(o) + " want " + show(want); }); } }
            else if (!(ref.nf(got) == want)) { c.count("undecided"); }
        }
        if (claims_complete && !ref.collapsed) {
            // what was stated holds, and every critical pair of the book's own rules joins
            for (auto &e : given) { const auto l = World::from(rb.reduce(w.lib(e.l))), r = World::from(rb.reduce(w.lib(e.r))); c.require(l == r, key("stated equality lost"), [&] { return me() + ": " + show(e.l) + "=" + show(e.r) + " gives " + show(l) + ", " + show(r); }); }
            std::vector<std::pair<Word, Elem>> rules; for (auto &[h, r] : rb.rules()) { rules.emplace_back(World::from(r.LHS()).w, World::from(r.RHS())); }
            for (auto &[pl, pr] : rules) { for (auto &[ql, qr] : rules) { for (size_t k = 1; k <= std::min(pl.size(), ql.size()); ++k) {
                if (pl.compare(pl.size() - k, k, ql, 0, k) != 0) { continue; }
                const auto a = times({}, pr, ql.substr(k)), b = times(pl.substr(0, pl.size() - k), qr, {}); const auto x = World::from(rb.reduce(w.lib(a))), y = World::from(rb.reduce(w.lib(b)));
                c.require(x == y, key("not confluent"), [&] { return me() + ": " + show({false, 0, pl + ql.substr(k)}) + " gives " + show(x) + " and " + show(y); });
            } } }
        }
    }

    OperatorRule rule_of(const World &w, const Eqn &e) { return OperatorRule{w.lib(e.l), w.lib(e.r)}; }

    void one(mc::Ctx &c, const World &w, const std::vector<Eqn> &es, const std::vector<Word> &ws, size_t effort) {
        ++c.traces; c.step(w.name + " " + show(es));
        const auto all = closed(w, es); Completion ref; ref.run(all, 24, 10, 150); c.count(ref.collapsed ? "contradictory" : ref.complete ? "decided" : "reference undecided");
        std::vector<OperatorRule> rules; for (auto &e : es) { rules.push_back(rule_of(w, e)); }
        OperatorRulebook rb{w.pc, rules};
        judge(c, w, rb, ref, ws, rb.is_complete(), rb.is_complete() ? "as stated, said to be complete" : "as stated", all);
        if (rb.is_complete(false)) { Completion bare; bare.run(es, 24, 10, 150); if (!bare.collapsed && !ref.collapsed) { judge(c, w, rb, bare, {}, true, "overlaps said to be complete", es); } }
        { OperatorRulebook dry{rb}; const bool yes = dry.complete(0); if (yes) { judge(c, w, dry, ref, {}, true, "dry run says complete", all); } }
        const bool done = rb.complete(effort); c.count(done ? "completed" : "not completed");
        judge(c, w, rb, ref, ws, done, done ? "completed" : "partly completed", all);
        if (done) { c.require(rb.is_complete() || ref.collapsed, "completed, but then not complete", [&] { return show(es); }); }
    }

    void singles(mc::Ctx &c, const World &w, size_t l, size_t r, size_t len, size_t part = 0, size_t parts = 1) { const auto ws = w.words(len); size_t n = 0; for (auto &e : w.equations(l, r, {0, 1, 2, 3})) { if (n++ % parts == part) { one(c, w, {e}, ws, 16); } } }
    void pairs(mc::Ctx &c, const World &w, size_t l, size_t r, const std::vector<int> &signs, size_t len, size_t part = 0, size_t parts = 1) { const auto ws = w.words(len); auto es = w.equations(l, r, signs); size_t n = 0; for (auto &a : es) { for (auto &b : es) { if (n++ % parts == part) { one(c, w, {a, b}, ws, 16); } } } }
    /** a rule that is said to imply another does so: the other is this one between the same words on both sides; and a rule implies itself so extended (if neither side is empty or zero) */
    void implied(mc::Ctx &c, const World &w, size_t l, size_t r, size_t part, size_t parts) {
        auto es = w.equations(l, r, {0, 1, 2, 3}); std::vector<OperatorRule> rules; for (auto &e : es) { rules.push_back(rule_of(w, e)); if (!e.r.zero && e.l.w == e.r.w) { e.r = nil; } } ++c.states; // x = -x says x = 0
        for (size_t i = part; i < es.size(); i += parts) { for (size_t j = 0; j < es.size(); ++j) { auto &a = es[i], &b = es[j]; bool follows = false; ++c.transitions;
            for (size_t at = b.l.w.find(a.l.w); !follows && at != Word::npos; at = b.l.w.find(a.l.w, at + 1)) { follows = times(b.l.w.substr(0, at), a.r, b.l.w.substr(at + a.l.w.size())) == b.r; }
            if (rules[i].implies(rules[j])) { c.require(follows, "implies-" + w.name, [&] { return mc::cat(show({a}), " is said to imply ", show({b})); }); } else if (i == j && !a.r.zero && !a.r.w.empty()) { c.require(false, "implies-itself-" + w.name, [&] { return mc::cat(show({a}), " is said not to imply itself"); }); } } }
    }
    void triples(mc::Ctx &c, const World &w, size_t l, size_t r, const std::vector<int> &signs, size_t len, size_t part = 0, size_t parts = 1) { const auto ws = w.words(len); auto es = w.equations(l, r, signs); size_t n = 0; for (size_t i = 0; i < es.size(); ++i) { for (size_t j = i + 1; j < es.size(); ++j) { for (size_t k = j + 1; k < es.size(); ++k) { if (n++ % parts == part) { one(c, w, {es[i], es[j], es[k]}, ws, 16); } } } } }

    /** Contexts: simplification, products and conjugates of whole words, with commuting or normal operators. */
    void contexts(mc::Ctx &c, const World &w, size_t l, size_t r, const std::vector<int> &signs, size_t len, bool twice) {
        const auto ws = w.words(len); auto es = w.equations(l, r, signs); std::vector<std::vector<Eqn>> sets{{}}; for (auto &e : es) { sets.push_back({e}); } if (twice) { for (size_t i = 0; i < es.size(); ++i) { for (size_t j = i + 1; j < es.size(); ++j) { sets.push_back({es[i], es[j]}); } } }
        for (auto &set : sets) { for (int flags = 0; flags < 4; ++flags) {
            const bool commute = flags & 1, normal = flags & 2; std::vector<OperatorRule> rules; for (auto &e : set) { rules.push_back(rule_of(w, e)); }
            auto stated = set;
            if (commute) { for (size_t b = 1; b < w.letters; ++b) { for (size_t a = 0; a < b; ++a) { stated.push_back({Elem{false, 0, Word{char(b), char(a)}}, Elem{false, 0, Word{char(a), char(b)}}}); } } }
            if (normal && !w.hermitian) { for (size_t a = 0; a < w.letters; ++a) { Word one{char(a)}, two = w.star(one); stated.push_back({Elem{false, 0, two + one}, Elem{false, 0, one + two}}); } }
            const auto all = closed(w, stated); Completion ref; ref.run(all, 24, 10, 150); if (ref.collapsed) { c.count("contradictory"); continue; }
            ++c.traces; const auto me = show(set) + (commute ? " commuting" : "") + (normal ? " normal" : ""); c.step(w.name + " " + me);
            AlgebraicContext ctx{w.pc, commute, normal, rules}; const bool done = ctx.attempt_completion(24); c.count(done ? "completed" : "not completed");
            auto of = [&](const Elem &e) { sequence_storage_t s; for (char ch : e.w) { s.push_back(oper_name_t(ch)); } return OperatorSequence{std::move(s), ctx, static_cast<SequenceSignType>(e.sign)}; };
            auto back = [](const OperatorSequence &s) { return World::from(s); };
            int turn = 0;
            for (auto &word : ws) {
                ++c.states; const Elem e{false, turn++ & 3, word}; const auto seq = of(e); const auto got = back(seq), want = ref.nf(e);
                auto tell = [&] { return me + ": " + show(e) + " -> " + show(got) + " want " + show(want); };
                if (ref.complete) { c.require(ref.nf(got) == want, "context unsound", tell); if (done) { c.require(got == want, "context normal form", tell); } }
                const auto star = seq.conjugate(); const auto conj_want = ref.nf(w.star(e));
                if (ref.complete) { c.require(done ? back(star) == conj_want : ref.nf(back(star)) == conj_want, "context conjugate", [&] { return tell() + ", conjugate " + show(back(star)) + " want " + show(conj_want); }); }
                if (done) { c.require(back(of(got.zero ? Elem{} : got)) == got || got.zero, "context not idempotent", tell); c.require(ctx.get_if_canonical([&] { sequence_storage_t s; for (char ch : word) { s.push_back(oper_name_t(ch)); } return s; }()).has_value() == (!want.zero && want.w == word) || !ref.complete, "canonical", tell); }
                if (word.size() <= len / 2) { for (auto &other : ws) { if (other.size() > len / 2) { continue; } const auto prod = back(seq * of({false, 1, other})); const auto pw = ref.nf({false, (e.sign + 1) & 3, word + other}); if (ref.complete) { c.require(done ? prod == pw : ref.nf(prod) == pw, "context product", [&] { return me + ": " + show(e) + " * i" + show({false, 0, other}) + " -> " + show(prod) + " want " + show(pw); }); } } }
            }
        } }
    }

    /** Textbook presentations with more letters, longer rules and more of them, in every rotation of their order. */
    void familiar(mc::Ctx &c) {
        using M = AlgebraicPrecontext::ConjugateMode; struct Book { const char *name; size_t ops; M mode; std::vector<std::string> rules; };
        const std::vector<Book> books = {
            {"qubit", 3, M::SelfAdjoint, {"aa=", "bb=", "cc=", "ba=-3ab", "ca=-3ac", "cb=-3bc", "ab=1c"}}, {"qubit by cycles", 3, M::SelfAdjoint, {"aa=", "bb=", "cc=", "ba=3c", "ca=1b", "cb=3a"}},
            {"anticommuting", 3, M::SelfAdjoint, {"aa=", "bb=", "cc=", "ba=2ab", "ca=2ac", "cb=2bc"}}, {"projectors", 3, M::SelfAdjoint, {"aa=a", "bb=b", "cc=c", "ab=0"}}, {"orthogonal projectors", 3, M::SelfAdjoint, {"aa=a", "bb=b", "cc=c", "ba=0", "ca=0", "cb=0"}},
            {"symmetric group 3", 2, M::SelfAdjoint, {"aa=", "bb=", "bab=aba"}}, {"symmetric group 4", 3, M::SelfAdjoint, {"aa=", "bb=", "cc=", "bab=aba", "cbc=bcb", "ca=ac"}}, {"dihedral 4", 2, M::SelfAdjoint, {"aa=", "bb=", "baba=abab"}}, {"dihedral 5", 2, M::SelfAdjoint, {"aa=", "bb=", "babab=ababa"}}, {"signed dihedral 4", 2, M::SelfAdjoint, {"aa=", "bb=", "baba=2abab"}},
            {"two parties", 4, M::SelfAdjoint, {"aa=", "bb=", "cc=", "dd=", "ca=ac", "cb=bc", "da=ad", "db=bd"}}, {"two projective parties", 4, M::SelfAdjoint, {"aa=a", "bb=b", "cc=c", "dd=d", "ca=ac", "cb=bc", "da=ad", "db=bd", "ba=0"}},
            {"unitary", 1, M::Bunched, {"ab=", "ba="}}, {"unitary, half stated", 1, M::Bunched, {"ab="}}, {"order three", 1, M::Bunched, {"ab=", "ba=", "aaa="}}, {"order three, minus", 1, M::Bunched, {"ab=", "ba=", "aaa=2"}}, {"order four, i", 1, M::Interleaved, {"ab=", "ba=", "aaaa=1"}}, {"inverse", 1, M::Bunched, {"aa=b"}},
            {"clock and shift 2", 2, M::Interleaved, {"ab=", "ba=", "cd=", "dc=", "ca=2ac"}}, {"clock and shift 4", 2, M::Bunched, {"ac=", "ca=", "bd=", "db=", "ba=1ab"}}, {"nilpotent", 1, M::Bunched, {"aa=0"}}, {"fermion", 1, M::Bunched, {"aa=0", "aba=a"}}, {"fermions", 2, M::Bunched, {"aa=0", "bb=0", "ba=2ab", "cb=2bc", "aca=a", "bdb=b"}}, {"partial isometry", 1, M::Interleaved, {"aba=a"}}, {"normal", 2, M::Bunched, {"ca=ac", "db=bd"}}, {"quaternions", 3, M::Bunched, {"aa=2", "bb=2", "cc=2", "ab=c", "bc=a", "ca=b", "ad=", "be=", "cf="}},
            {"idempotents", 2, M::SelfAdjoint, {"aa=a", "bb=b", "aba=a"}}, {"Baumslag", 2, M::SelfAdjoint, {"bab=aa"}}, {"cubes", 2, M::SelfAdjoint, {"aaa=", "bbb=", "bab=aba"}}, {"long overlaps", 2, M::SelfAdjoint, {"aabaa=b"}}, {"longer overlaps", 2, M::SelfAdjoint, {"abaaba=2", "bb="}}, {"eighths", 1, M::SelfAdjoint, {"aaaaaaaa=", "aaaaaa=2aa"}}, {"coprime", 1, M::SelfAdjoint, {"aaaaaa=", "aaaa="}}, {"coprime, i", 1, M::SelfAdjoint, {"aaaaa=2", "aaa=0"}},
        };
        for (auto &b : books) {
            World w{b.name, b.ops, b.mode}; std::vector<Eqn> es;
            for (auto r : b.rules) { auto eq = r.find('='); Eqn e; for (char ch : r.substr(0, eq)) { e.l.w += char(ch - 'a'); } auto rest = r.substr(eq + 1); if (!rest.empty() && rest[0] == '-') { rest = std::string(1, char('0' + (4 - (rest[1] - '0')) % 4)) + rest.substr(2); } if (rest == "0") { e.r = nil; } else { if (!rest.empty() && isdigit(rest[0])) { e.r.sign = rest[0] - '0'; rest.erase(0, 1); } for (char ch : rest) { e.r.w += char(ch - 'a'); } } if (before(e.l.w, e.r.w)) { std::swap(e.l, e.r); e.r.sign = (4 - e.l.sign) & 3; e.l.sign = 0; } es.push_back(e); }
            const auto ws = w.words(w.letters == 1 ? 12 : w.letters == 2 ? c.bound(7, 9) : w.letters == 3 ? c.bound(5, 6) : w.letters == 4 ? c.bound(4, 5) : 3);
            const auto many = closed(w, es); Completion ref; ref.run(many, 200, 20, 4000); c.count(std::string("reference ") + (ref.collapsed ? "contradictory" : ref.complete ? "decided" : "undecided"));
            if (c.samples.size() < 3) { c.sample(std::string(b.name) + ": " + show(es)); }
            for (size_t turn = 0; turn < es.size(); ++turn) {
                std::rotate(es.begin(), es.begin() + 1, es.end()); c.step("%s turn %zu", b.name, turn); ++c.traces;
                std::vector<OperatorRule> rules; for (auto &e : es) { rules.push_back(rule_of(w, e)); }
                OperatorRulebook rb{w.pc, rules}; judge(c, w, rb, ref, ws, rb.is_complete(), rb.is_complete() ? "as stated, said to be complete" : "as stated", many);
                const bool done = rb.complete(ref.complete ? 200 : 30); c.count(done ? "completed" : "not completed"); judge(c, w, rb, ref, ws, done, done ? "completed" : "partly completed", many);
                if (ref.complete && !ref.collapsed && std::string(b.name) != "long overlaps") { c.require(done, std::string("never completed ") + b.name, [&] { std::ostringstream o; o << show(es) << rb.size() << " rules; reference " << ref.rules.size(); return o.str(); }); }
            }
        }
    }
}

void mc::register_cases(Registry &reg) {
    using M = AlgebraicPrecontext::ConjugateMode;
    auto w = [](const char *n, size_t k, M m) { return std::make_shared<World>(n, k, m); };
    auto h1 = w("one self-adjoint", 1, M::SelfAdjoint), h2 = w("two self-adjoint", 2, M::SelfAdjoint), h3 = w("three self-adjoint", 3, M::SelfAdjoint), b1 = w("one with adjoint, bunched", 1, M::Bunched), i1 = w("one with adjoint, interleaved", 1, M::Interleaved), b2 = w("two with adjoints, bunched", 2, M::Bunched), i2 = w("two with adjoints, interleaved", 2, M::Interleaved);
    const std::vector<int> all{0, 1, 2, 3}, some{0, 1, 2}, real{0, 2};
    reg.add("singles-h1", [=](Ctx &c) { singles(c, *h1, c.bound(8, 10), 8, 12); pairs(c, *h1, c.bound(5, 6), 5, all, 9); }, 300);
    for (size_t p = 0; p < 4; ++p) {
        const auto n = std::to_string(p);
        reg.add("singles-h2-" + n, [=](Ctx &c) { singles(c, *h2, c.bound(4, 6), c.bound(4, 6), c.bound(6, 8), p, 4); }, 1200);
        reg.add("singles-h3-" + n, [=](Ctx &c) { singles(c, *h3, 3, 3, c.bound(5, 6), p, 4); }, 1200);
        reg.add("implies-h2-" + n, [=](Ctx &c) { implied(c, *h2, c.bound(3, 4), c.bound(3, 3), p, 4); implied(c, *h3, 2, 2, p, 4); implied(c, *i1, 3, 2, p, 4); }, 1200);
        reg.add("pairs-h2-" + n, [=](Ctx &c) { pairs(c, *h2, 2, 2, all, c.bound(5, 6), p, 4); }, 1200);
        reg.add("pairs-h2-long-" + n, [=](Ctx &c) { pairs(c, *h2, 3, c.bound(2, 3), c.bound(real, some), c.bound(4, 6), p, 4); }, 2400);
        reg.add("triples-h2-" + n, [=](Ctx &c) { triples(c, *h2, 2, 2, c.bound(real, all), c.bound(4, 5), p, 4); }, 2400);
        reg.add("pairs-h3-" + n, [=](Ctx &c) { pairs(c, *h3, 2, c.bound(1, 2), c.bound(some, all), c.bound(3, 4), p, 4); }, 2400);
        for (auto &x : {b2, i2}) { reg.add("pairs-" + x->name + "-" + n, [=](Ctx &c) { pairs(c, *x, 2, c.bound(0, 1), c.bound(real, all), 3, p, 4); }, 2400); }
    }
    for (auto &x : {b1, i1}) { reg.add("singles-" + x->name, [=](Ctx &c) { singles(c, *x, c.bound(4, 5), 3, c.bound(5, 6)); }, 1200); reg.add("pairs-" + x->name, [=](Ctx &c) { pairs(c, *x, 2, 2, c.bound(some, all), c.bound(4, 6)); }, 1200); reg.deep("triples-" + x->name, [=](Ctx &c) { triples(c, *x, 2, 1, some, 4); }); }
    for (auto &x : {b2, i2}) { reg.add("singles-" + x->name, [=](Ctx &c) { singles(c, *x, 2, 2, c.bound(3, 4)); }, 1200); }
    for (auto &x : {h1, h2, b1, i1}) { reg.add("contexts-" + x->name, [=](Ctx &c) { contexts(c, *x, c.bound(2, 3), 2, all, c.bound(5, 6), c.bound(x->letters < 3, true)); }, 2400); }
    for (auto &x : {h3, b2, i2}) { reg.add("contexts-" + x->name, [=](Ctx &c) { contexts(c, *x, 2, c.bound(1, 2), real, c.bound(3, 4), false); }, 1200); }
    reg.add("beyond-the-hash", [=](Ctx &c) {     // words of 64 letters and more no longer have unique 64-bit ranks
        const std::vector<Eqn> es{{Elem{false, 0, Word{0, 1, 0, 0, 1, 0}}, Elem{false, 2, {}}}, {Elem{false, 0, Word{1, 1}}, Elem{}}}; ++c.states; ++c.traces;
        OperatorRulebook rb{h2->pc, {rule_of(*h2, es[0]), rule_of(*h2, es[1])}}; std::string what; try { rb.complete(200); } catch (const std::exception &e) { what = e.what(); }
        c.require(what.empty(), "long completion " + show(es), [&] { return what; });
    });
    reg.add("familiar", [=](Ctx &c) { familiar(c); }, 600);
}
