// P23: containers against plain reference containers, under exhaustively enumerated operation sequences.
#include "mc.h"
#include <memory>
#include <list>
#include "utilities/small_vector.h"
#include "utilities/dynamic_bitset.h"
#include "utilities/index_tree.h"
#include "utilities/linear_map_merge.h"
#include "utilities/set_to_vector.h"
#include "utilities/variable_chunk_range.h"
#include "tensor/tensor.h"
#include "tensor/square_matrix.h"
#include "tensor/auto_storage_tensor.h"
#include "tensor/index_flattener.h"
#include "symbolic/monomial.h"
#include <unordered_set>

using namespace Moment;

// every block taken from the heap is counted, so that what an operation sequence forgets to release shows at once
static thread_local long live_blocks = 0;
void *operator new(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) { throw std::bad_alloc{}; } ++live_blocks; return p; }
void operator delete(void *p) noexcept { if (p) { --live_blocks; std::free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --live_blocks; std::free(p); } }

namespace {
    // ---------------------------------------------------------------- SmallVector
    template<class T> T make(int v) { if constexpr (std::is_same_v<T, Monomial>) { return Monomial{v, std::complex<double>(v, -v), v % 2 == 1}; } else { return T(v); } }
    template<class T> std::string str(const T &v) { if constexpr (std::is_same_v<T, Monomial>) { return std::to_string(v.id); } else { return std::to_string(v); } }
    template<class V> std::string text(const V &v) { std::string s = "["; for (auto &x : v) { s += str(x) + ","; } return s + "]"; }
    template<class T> bool same(const T &a, const T &b) { return a == b; }

    template<class T, size_t N> struct VecWorld {
        using SV = SmallVector<T, N>; using Ref = std::vector<T>;
        struct Pair { std::unique_ptr<SV> a = std::make_unique<SV>(), b = std::make_unique<SV>(); Ref ra, rb; int next = 1; };
        struct Op { std::string name; std::function<bool(Pair &)> run; };
        std::vector<Op> ops; mc::Ctx &c; std::string what;
        static void copy_from(SV &v, Ref &r, mc::Ctx &c, const std::string &me) {   // a moved-from vector holds something valid, but unspecified
            r.clear(); if (c.require(v.size() <= v.capacity() && v.capacity() < 1000, me + " moved-from size", [&] { return mc::cat(v.size(), " of ", v.capacity()); })) { for (size_t i = 0; i < v.size(); ++i) { r.push_back(v[i]); } } }
        VecWorld(mc::Ctx &ctx, std::string name) : c{ctx}, what{std::move(name)} {
            auto insert_at = [this](int kind, size_t count) { ops.push_back({mc::cat("insert", kind, "x", count), [=](Pair &p) {
                const size_t n = p.ra.size(), at = kind == 0 ? 0 : kind == 1 ? n / 2 : n; std::vector<T> extra; for (size_t i = 0; i < count; ++i) { extra.push_back(make<T>(p.next++)); }
                p.a->insert(p.a->begin() + ptrdiff_t(at), extra.begin(), extra.end()); p.ra.insert(p.ra.begin() + ptrdiff_t(at), extra.begin(), extra.end()); return true; }}); };
            auto erase_at = [this](int kind) { ops.push_back({mc::cat("erase", kind), [=, this](Pair &p) {
                const size_t n = p.ra.size(); if (n == 0 && kind != 4) { return false; } size_t from = 0, to = 0;
                if (kind == 0) { to = 1; } else if (kind == 1) { from = n - 1; to = n; } else if (kind == 2) { if (n < 2) { return false; } from = n / 2; to = std::min(n, from + 2); } else if (kind == 3) { to = n; } else { from = to = n / 2; }
                auto it = p.a->erase(p.a->begin() + ptrdiff_t(from), p.a->begin() + ptrdiff_t(to)); p.ra.erase(p.ra.begin() + ptrdiff_t(from), p.ra.begin() + ptrdiff_t(to));
                c.require(it - p.a->begin() == ptrdiff_t(from), what + " erase returns", [&] { return mc::cat(it - p.a->begin()); }); return true; }}); };
            ops.push_back({"push", [](Pair &p) { const T v = make<T>(p.next++); p.a->push_back(v); p.ra.push_back(v); return true; }});
            ops.push_back({"emplace", [](Pair &p) { const T v = make<T>(p.next++); p.a->emplace_back(v); p.ra.emplace_back(v); return true; }});
            ops.push_back({"push-own", [](Pair &p) { if (p.ra.empty()) { return false; } p.a->push_back(p.a->front()); p.ra.push_back(T(p.ra.front())); return true; }});
            ops.push_back({"emplace-own", [](Pair &p) { if (p.ra.empty()) { return false; } p.a->emplace_back(p.a->back()); p.ra.push_back(T(p.ra.back())); return true; }});
            ops.push_back({"pop", [](Pair &p) { if (p.ra.empty()) { return false; } p.a->pop_back(); p.ra.pop_back(); return true; }});
            ops.push_back({"clear", [](Pair &p) { p.a->clear(); p.ra.clear(); return true; }});
            ops.push_back({"write", [](Pair &p) { if (p.ra.empty()) { return false; } const T v = make<T>(p.next++); p.a->back() = v; p.ra.back() = v; const T u = make<T>(p.next++); p.a->front() = u; p.ra.front() = u; (*p.a)[p.ra.size() / 2] = v; p.ra[p.ra.size() / 2] = v; return true; }});
            for (size_t r : {N, N + 1, 2 * N + 3}) { ops.push_back({mc::cat("reserve", r), [=, this](Pair &p) { p.a->reserve(r); c.require(p.a->capacity() >= r, what + " reserve", [&] { return mc::cat("asked for ", r, ", got ", p.a->capacity()); }); return true; }}); }
            for (int k : {0, 1, 2}) { insert_at(k, 1); insert_at(k, N + 1); } insert_at(1, 0); insert_at(2, 2);
            for (int k : {0, 1, 2, 3, 4}) { erase_at(k); }
            ops.push_back({"a=a", [](Pair &p) { SV &alias = *p.a; *p.a = alias; return true; }});
            ops.push_back({"a=b", [](Pair &p) { *p.a = *p.b; p.ra = p.rb; return true; }});
            ops.push_back({"b=a", [](Pair &p) { *p.b = *p.a; p.rb = p.ra; return true; }});
            ops.push_back({"b=move(a)", [this](Pair &p) { *p.b = std::move(*p.a); p.rb = p.ra; copy_from(*p.a, p.ra, c, what); return true; }});
            ops.push_back({"b(move(a))", [this](Pair &p) { p.b = std::make_unique<SV>(std::move(*p.a)); p.rb = p.ra; copy_from(*p.a, p.ra, c, what); return true; }});
            ops.push_back({"b(a)", [](Pair &p) { p.b = std::make_unique<SV>(*p.a); p.rb = p.ra; return true; }});
            ops.push_back({"swap", [](Pair &p) { p.a->swap(*p.b); std::swap(p.ra, p.rb); return true; }});
            ops.push_back({"friend-swap", [](Pair &p) { swap(*p.a, *p.b); std::swap(p.ra, p.rb); return true; }});
            ops.push_back({"rename", [](Pair &p) { std::swap(p.a, p.b); std::swap(p.ra, p.rb); return true; }});   // act on the other vector next
            for (size_t n : {size_t(0), N, N + 1, 2 * N + 1}) {
                ops.push_back({mc::cat("fill", n), [=](Pair &p) { const T v = make<T>(p.next++); p.a = std::make_unique<SV>(n, v); p.ra = Ref(n, v); return true; }});
                ops.push_back({mc::cat("range", n), [=](Pair &p) { std::list<T> l; for (size_t i = 0; i < n; ++i) { l.push_back(make<T>(p.next++)); } p.a = std::make_unique<SV>(l.begin(), l.end()); p.ra = Ref(l.begin(), l.end()); return true; }});
            }
            ops.push_back({"list1", [](Pair &p) { const T v = make<T>(p.next++); p.a = std::make_unique<SV>(std::initializer_list<T>{v}); p.ra = {v}; return true; }});
            ops.push_back({"list5", [](Pair &p) { const T v = make<T>(p.next++), w = make<T>(p.next++); std::initializer_list<T> il{v, w, v, v, w}; p.a = std::make_unique<SV>(il); p.ra = il; return true; }});
        }
        void check_one(const SV &v, const Ref &r, const std::string &path) {
            auto me = [&] { return mc::cat(path, ": ", v.size() < 100 ? text(std::vector<T>(v.begin(), v.end())) : std::string("size ") + std::to_string(v.size()), " should be ", text(r)); };
            if (!c.require(v.size() == r.size(), what + " size", me)) { throw mc::Abandon{}; }
            bool ok = v.empty() == r.empty() && v.capacity() >= v.size() && v.on_heap() == (v.capacity() > N);
            c.require(ok, what + " capacity", me);
            ok = v.get() == &*v.begin() && size_t(v.end() - v.begin()) == r.size() && v.cbegin() == v.begin() && v.cend() == v.end();
            SV &mut = const_cast<SV &>(v); ok = ok && mut.get() == v.get() && mut.begin() == v.begin() && mut.end() == v.end();
            size_t i = 0; for (auto &x : v) { ok = ok && same(x, r[i]) && same(v[i], r[i]) && same(mut[i], r[i]); ++i; } ok = ok && i == r.size();
            i = r.size(); for (auto it = v.rbegin(); !(it == v.rend()) && i > 0; ++it) { --i; ok = ok && same<T>(*it, r[i]) && same<T>(*(it.operator->()), r[i]); } ok = ok && i == 0 && v.crbegin() == v.rbegin() && v.crend() == v.rend();
            const std::span<const T> s = v; const std::span<T> ms = mut; ok = ok && s.size() == r.size() && s.data() == v.get() && ms.size() == r.size() && ms.data() == v.get();
            if (!r.empty()) { ok = ok && same(v.front(), r.front()) && same(v.back(), r.back()) && same(mut.front(), r.front()) && same(mut.back(), r.back()); }
            c.require(ok, what + " contents", me);
        }
        void check(const Pair &p, const std::string &path) {
            ++c.states; check_one(*p.a, p.ra, path); check_one(*p.b, p.rb, path + " (other)");
            c.require((*p.a == *p.b) == (p.ra == p.rb) && (*p.a != *p.b) == (p.ra != p.rb) && *p.a == *p.a && !(*p.a != *p.a), what + " comparison", [&] { return mc::cat(path, ": ", text(p.ra), " and ", text(p.rb)); });
        }
        /** all sequences of `depth` operations, each replayed from scratch; with `merge`, sequences reaching an already seen pair of vectors are not continued */
        void explore(int depth, bool merge) {
            std::vector<std::vector<size_t>> layer{{}}; std::unordered_set<std::string> seen;
            for (int d = 0; d < depth; ++d) {
                std::vector<std::vector<size_t>> next;
                for (auto &path : layer) {
                    for (size_t o = 0; o < ops.size(); ++o) {
                        const size_t had = c.violations; std::string names; names.reserve(400); std::string key; key.reserve(400); const long live = live_blocks; bool done = false; bool grow = true;
                        { Pair p; for (size_t k : path) { ops[k].run(p); names += ops[k].name + " "; }
                        c.step("%s %s%s", what.c_str(), names.c_str(), ops[o].name.c_str());
                        done = ops[o].run(p); if (done) { ++c.traces; names += ops[o].name; check(p, names); }
                        grow = p.ra.size() <= 4 * N + 6;
                        if (merge && done && d + 1 < depth) {   // the layout and which entries are equal decide what happens next
                            std::map<std::string, int> ids; key += mc::cat(p.a->capacity(), p.a->on_heap(), ";"); auto id = [&](const T &x) { return ids.emplace(str(x), int(ids.size())).first->second; };
                            for (auto &x : p.ra) { key += std::to_string(id(x)); } key += mc::cat(";", p.b->capacity(), p.b->on_heap(), ";"); for (auto &x : p.rb) { key += std::to_string(id(x)); }
                        } }
                        const long left = live_blocks - live; c.require(left == 0 || c.violations != had, what + " leak", [&] { return mc::cat(names, " leaves ", left, " heap blocks"); });
                        if (!done || d + 1 == depth || (merge && (!grow || !seen.insert(key).second))) { continue; }
                        auto q = path; q.push_back(o); next.push_back(std::move(q));
                    }
                }
                layer = std::move(next); c.count("frontier", layer.size());
            }
        }
    };
    template<class T, size_t N> void vectors(mc::Registry &reg, const std::string &name) {
        reg.add("vector-" + name + "-all", [name](mc::Ctx &c) { VecWorld<T, N> w{c, "vector " + name}; w.explore(c.bound(3, 4), false); }, 600);
        reg.add("vector-" + name + "-deep", [name](mc::Ctx &c) { VecWorld<T, N> w{c, "vector " + name}; w.explore(c.bound(5, 7), true); }, 900);
    }

    // ---------------------------------------------------------------- DynamicBitset
    template<class Page, class Store> struct Bits {
        using B = DynamicBitset<Page, size_t, Store>; mc::Ctx &c; std::string what;
        static B from(const std::vector<bool> &r) { B b{r.size()}; for (size_t i = 0; i < r.size(); ++i) { if (r[i]) { b.set(i); } } return b; }
        static std::string show(const std::vector<bool> &r) { std::string s; for (bool x : r) { s += x ? '1' : '0'; } return s; }
        bool equal(const B &b, const std::vector<bool> &r) {
            bool ok = size_t(b.bit_size) == r.size(); size_t n = 0, first = r.size(); for (size_t i = 0; i < r.size() && ok; ++i) { ok = b.test(i) == r[i] && b[i] == r[i]; if (r[i]) { ++n; first = std::min(first, i); } }
            ok = ok && b.count() == n && b.empty() == (n == 0) && b.first_index() == first; if (!ok) { return false; }
            std::vector<size_t> want, got; for (size_t i = 0; i < r.size(); ++i) { if (r[i]) { want.push_back(i); } } for (auto x : b) { got.push_back(x); if (got.size() > want.size()) { break; } }
            if (want != got) { return false; } const auto s = b.to_set(); return std::vector<size_t>(s.begin(), s.end()) == want;
        }
        void must(const B &b, const std::vector<bool> &r, const char *op, const std::string &more) { c.require(equal(b, r), what + " " + op, [&] { return mc::cat(more, " gives count ", b.count(), " first ", b.first_index(), ", expected ", show(r)); }); }
        void unary(const std::vector<bool> &r, bool subsets) {
            ++c.states; const size_t n = r.size(); const B b = from(r); must(b, r, "set", show(r)); auto flip = r; flip.flip();
            must(~b, flip, "~", show(r)); { B d{b}; must(d.invert_in_place(), flip, "invert", show(r)); must(d.invert_in_place(), r, "invert twice", show(r)); }
            { B d{b}; d.clear(); must(d, std::vector<bool>(n, false), "clear", show(r)); B e{from(flip)}; e.swap(d); must(e, std::vector<bool>(n, false), "swap", show(r)); must(d, flip, "swap", show(r)); B f{std::move(d)}; must(f, flip, "move", show(r)); }
            for (size_t i = 0; i < n; ++i) {
                auto q = r; q[i] = true; { B d{b}; d.set(i); must(d, q, "set one", show(r)); B e{b}; e[i] = true; must(e, q, "write one", show(r)); }
                q[i] = false; { B d{b}; d.unset(i); must(d, q, "unset one", show(r)); B e{b}; e[i] = false; must(e, q, "write zero", show(r)); }
            }
            if (!subsets) { return; }
            for (size_t from_ = 0; from_ < n; ++from_) for (size_t len = 0; from_ + len <= n; ++len) {
                const std::vector<bool> q(r.begin() + ptrdiff_t(from_), r.begin() + ptrdiff_t(from_ + len)); ++c.traces;
                must(b.subset(from_, len), q, "subset", mc::cat(show(r), " from ", from_, " length ", len));
                if (len <= size_t(B::page_size)) { Page want = 0; for (size_t i = 0; i < len; ++i) { if (q[i]) { want = Page(want | (Page(1) << i)); } } const Page got = b.small_subset(from_, len); c.require(got == want, what + " small_subset", [&] { return mc::cat(show(r), " from ", from_, " length ", len, " gives ", uint64_t(got), ", expected ", uint64_t(want)); }); }
            }
        }
        void binary(const std::vector<bool> &r, const std::vector<bool> &s) {
            ++c.states; const B a = from(r), b = from(s); std::vector<bool> u(r.size()), i(r.size()); for (size_t k = 0; k < r.size(); ++k) { u[k] = r[k] || s[k]; i[k] = r[k] && s[k]; }
            const std::string me = show(r) + " " + show(s); must(a & b, i, "&", me); must(a | b, u, "|", me); { B d{a}; d &= b; must(d, i, "&=", me); B e{a}; e |= b; must(e, u, "|=", me); }
            c.require((a == b) == (r == s) && (a != b) == (r != s), what + " ==", [&] { return me; });
        }
    };
    template<class Page, class Store> void bitsets(mc::Ctx &c, const std::string &name, bool small) {
        Bits<Page, Store> w{c, "bitset " + name};
        for (size_t n = 0; n <= (small ? 26u : 200u); ++n) { for (bool v : {false, true}) { c.step("%s filled %zu", name.c_str(), n); typename Bits<Page, Store>::B b{n, v}; w.must(b, std::vector<bool>(n, v), "filled", mc::cat(n, v)); } { typename Bits<Page, Store>::B b{n}; w.must(b, std::vector<bool>(n, false), "empty", mc::cat(n)); } }
        if (small) {
            const size_t top = c.bound(13, 18); for (size_t n = 0; n <= top; ++n) for (uint64_t bits = 0; bits < (1ull << n); ++bits) { std::vector<bool> r(n); for (size_t i = 0; i < n; ++i) { r[i] = bits >> i & 1; } if (bits % 64 == 0) { c.step("%s n=%zu bits=%lx", name.c_str(), n, (unsigned long) bits); } w.unary(r, n <= c.bound(11u, 17u) || n >= 16); }
            for (size_t n : {16, 17, 24, 25}) for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) for (bool inv : {false, true}) { std::vector<bool> r(n, inv); r[i] = !inv; r[j] = !inv; w.unary(r, true); }
            for (size_t n = 0; n <= c.bound(6u, 9u); ++n) for (uint64_t a = 0; a < (1ull << n); ++a) for (uint64_t b = 0; b < (1ull << n); ++b) { std::vector<bool> r(n + 3, true), s(n + 3, false); for (size_t i = 0; i < n; ++i) { r[i + 3] = a >> i & 1; s[i + 3] = b >> i & 1; } w.binary(r, s); }
        } else {
            for (size_t n : {63, 64, 65, 127, 128, 129}) { std::vector<size_t> pos; for (size_t i = 0; i < n; ++i) { if (i < 2 || i + 3 >= n || (i >= 62 && i <= 66) || i == 31) { pos.push_back(i); } }
                for (size_t i : pos) for (size_t j : pos) for (bool inv : {false, true}) { if (j < i) { continue; } c.step("%s n=%zu %zu %zu", name.c_str(), n, i, j); std::vector<bool> r(n, inv); r[i] = !inv; r[j] = !inv; w.unary(r, c.tier == mc::THOROUGH || (i + 1 >= j && !inv)); for (size_t k : pos) { std::vector<bool> s(n, false); s[k] = true; w.binary(r, s); } } }
        }
    }

    // ---------------------------------------------------------------- IndexTree
    template<class L> void trees(mc::Ctx &c, const std::string &name) {
        using Tree = IndexTree<L, size_t>; using Key = std::vector<L>; using Map = std::map<Key, size_t>; const std::string what = "tree " + name;
        const std::vector<L> letters = std::is_signed_v<L> ? std::vector<L>{L(-1), L(0), L(4)} : std::vector<L>{L(0), L(1), L(7)};
        std::vector<Key> keys; mc::each_word_upto(3, 2, [&](const std::vector<int> &w) { Key k; for (int x : w) { k.push_back(letters[size_t(x)]); } keys.push_back(k); }); keys.push_back({letters[1], letters[0], letters[2]});
        auto show = [](const Map &m) { std::string s; for (auto &[k, v] : m) { s += mc::show(k) + "=" + std::to_string(v) + " "; } return s; };
        auto nodes = [](const std::set<Key> &touched) { std::set<Key> all{{}}; for (auto &k : touched) { for (size_t n = 0; n <= k.size(); ++n) { all.insert(Key(k.begin(), k.begin() + ptrdiff_t(n))); } } return all; };
        auto check = [&](Tree &t, const Map &m, const std::set<Key> &touched, const std::string &path) {
            ++c.states; const auto all = nodes(touched); bool ok = true; auto me = [&] { return mc::cat(path, ", expected ", show(m)); };
            for (auto &k : keys) {
                const auto it = m.find(k); const auto v = t.find(k); ok = ok && v == (it == m.end() ? std::optional<size_t>{} : std::optional<size_t>{it->second});
                const auto *n = t.find_node(std::span<const L>(k)); ok = ok && (n != nullptr) == all.contains(k) && (!n || n->value() == v);
                if (k.size() == 1) { const auto *n1 = t.find_node(k[0]); ok = ok && n1 == n; }
                const auto [hint, rest] = t.find_node_or_return_hint(k); size_t matched = k.size(); while (!all.contains(Key(k.begin(), k.begin() + ptrdiff_t(matched)))) { --matched; }
                ok = ok && rest.size() == k.size() - matched && std::equal(rest.begin(), rest.end(), k.begin() + ptrdiff_t(matched)) && hint == t.find_node(std::span<const L>(k.data(), matched));
                if (n) { bool leaf = true; for (auto &o : all) { leaf = leaf && !(o.size() > k.size() && std::equal(k.begin(), k.end(), o.begin())); } ok = ok && n->leaf() == leaf; }
            }
            c.require(ok, what + " look-up", me);
            auto walk = [&](auto &tree) { std::vector<Key> got; bool good = true; auto i = tree.begin(); size_t steps = 0; for (; i != tree.end() && steps < 100; ++i, ++steps) { const auto k = i.lookup_index(); got.push_back(k); const auto it = m.find(k); good = good && i->value() == (it == m.end() ? std::optional<size_t>{} : std::optional<size_t>{it->second}) && i.current_depth() == k.size() && !!i && &*i == tree.find_node(std::span<const L>(k)); } return good && !i && !bool(i) && got == std::vector<Key>(all.begin(), all.end()); };
            const Tree &ct = t; c.require(walk(t) && walk(ct) && ct.cbegin() == ct.begin() && ct.cend() == ct.end() && t.begin() == ct.begin(), what + " iteration", me);
        };
        struct Op { bool if_new; size_t key; };
        std::vector<Op> ops; for (size_t k = 0; k < keys.size(); ++k) { ops.push_back({false, k}); ops.push_back({true, k}); }
        size_t value = 0;
        auto apply = [&](Tree &t, Map &m, std::set<Key> &touched, const Op &o, const std::string &path) {
            const auto &k = keys[o.key]; ++value; touched.insert(k);
            if (o.if_new) { const bool fresh = !m.contains(k); if (fresh) { m[k] = value; } const auto [v, added] = t.add_if_new(k, value); c.require(added == fresh && v == m[k], what + " add_if_new", [&] { return path; }); }
            else { t.add(k, value); m[k] = value; } };
        auto replay = [&](const std::vector<size_t> &seq, Tree &t, Map &m, std::set<Key> &touched) { std::string path; for (size_t o : seq) { path += (ops[o].if_new ? "add-if-new" : "add") + mc::show(keys[ops[o].key]) + " "; apply(t, m, touched, ops[o], path); } return path; };
        mc::each_word_upto(ops.size(), size_t(c.bound(3, 4)), [&](const std::vector<int> &w) { Tree t; Map m; std::set<Key> tk; ++c.traces; const auto path = replay(std::vector<size_t>(w.begin(), w.end()), t, m, tk); if (c.traces % 64 == 0) { c.step("%s %s", what.c_str(), path.c_str()); } check(t, m, tk, path); });
        // merging: every pair of sets of keys
        const size_t limit = size_t(c.bound(3, 4)); std::vector<std::vector<size_t>> sets; for (uint32_t b = 0; b < (1u << keys.size()); ++b) { if (size_t(std::popcount(b)) > limit) { continue; } std::vector<size_t> s; for (size_t k = 0; k < keys.size(); ++k) { if (b >> k & 1) { s.push_back(2 * k); } } sets.push_back(s); }
        for (auto &s : sets) for (auto &r : sets) {
            Tree a, b; Map ma, mb; std::set<Key> ta, tb; ++c.traces; const auto pa = replay(s, a, ma, ta), pb = replay(r, b, mb, tb); if (c.traces % 64 == 0) { c.step("%s merge %s | %s", what.c_str(), pa.c_str(), pb.c_str()); }
            a.merge_in(std::move(b)); for (auto &[k, v] : mb) { ma[k] = v; } ta.insert(tb.begin(), tb.end()); check(a, ma, ta, pa + "| " + pb);
            if (s.size() + r.size() <= 3) { Tree d{std::move(a)}; check(d, ma, ta, pa + "| " + pb + " moved"); auto *n = d.add_node(letters[1]); ta.insert({letters[1]}); c.require(n == d.find_node(letters[1]), what + " add_node", [&] { return pa; }); check(d, ma, ta, pa + "| " + pb + " node"); } }
    }

    // ---------------------------------------------------------------- tensors
    template<class Tn> void tensor_one(mc::Ctx &c, const std::string &name, const std::vector<size_t> &dims) {
        using I = typename Tn::IndexElement; typename Tn::Index d{}; if constexpr (requires { d.assign(1, 1); }) { d.assign(dims.begin(), dims.end()); } else { for (size_t i = 0; i < dims.size(); ++i) { d[i] = I(dims[i]); } }
        const Tn t{d}; ++c.states; const std::string what = mc::cat("tensor ", name), me = mc::cat(name, " ", mc::show(dims)); c.step("%s", me.c_str()); const size_t k = dims.size(); size_t total = k ? 1 : 0; for (size_t x : dims) { total *= x; }
        c.require(size_t(t.DimensionCount) == k && size_t(t.ElementCount) == total, what + " size", [&] { return mc::cat(me, " has ", t.DimensionCount, " dimensions, ", t.ElementCount, " elements"); });
        std::vector<size_t> strides(k, 1); size_t s = 1; for (size_t i = 0; i < k; ++i) { const size_t j = Tn::LastIndexMajor ? i : k - 1 - i; strides[j] = s; s *= dims[j]; }
        for (size_t i = 0; i < k; ++i) { c.require(size_t(t.Strides[i]) == strides[i], what + " strides", [&] { return me; }); }
        auto to = [&](const std::vector<long> &v) { typename Tn::Index x{}; if constexpr (requires { x.assign(1, 1); }) { x.assign(v.begin(), v.end()); } else { for (size_t i = 0; i < v.size(); ++i) { x[i] = I(v[i]); } } return x; };
        auto throws = [](auto &&f) { try { f(); return false; } catch (const Moment::errors::bad_tensor_index &) { return true; } };
        // every index from one below to one above each limit
        std::vector<std::vector<long>> all{{}}; for (size_t i = 0; i < k; ++i) { std::vector<std::vector<long>> more; for (auto &v : all) for (long x = std::is_signed_v<I> ? -1 : 0; x <= long(dims[i]) + 1; ++x) { auto u = v; u.push_back(x); more.push_back(u); } all = std::move(more); }
        std::set<size_t> hit;
        for (auto &v : all) {
            bool in = true, incl = true; size_t off = 0; for (size_t i = 0; i < k; ++i) { in = in && v[i] >= 0 && v[i] < long(dims[i]); incl = incl && v[i] >= 0 && v[i] <= long(dims[i]); off += size_t(v[i]) * strides[i]; }
            const auto x = to(v); c.require(throws([&] { t.validate_index(x); }) == !in && throws([&] { t.validate_index_inclusive(x); }) == !incl, what + " validate", [&] { return mc::cat(me, " at ", mc::show(v)); });
            c.require(throws([&] { (void) t.index_to_offset(x); }) == !in, what + " index refused", [&] { return mc::cat(me, " at ", mc::show(v)); });
            if (in) { hit.insert(off); c.require(size_t(t.index_to_offset(x)) == off && size_t(t.index_to_offset_no_checks(x)) == off, what + " index_to_offset", [&] { return mc::cat(me, " at ", mc::show(v)); }); if (total) { const auto back = t.offset_to_index(I(off)); c.require(back == x, what + " offset_to_index", [&] { return mc::cat(me, " offset ", off); }); } }
        }
        if (k) { c.require(hit.size() == total, what + " bijection", [&] { return me; }); }
        for (long o = std::is_signed_v<I> ? -1 : 0; o <= long(total) + 1; ++o) { c.require(throws([&] { t.validate_offset(I(o)); }) == (o < 0 || o >= long(total)), what + " validate_offset", [&] { return mc::cat(me, " offset ", o); }); }
        if (all.size() <= 400) { for (auto &v : all) for (auto &u : all) { bool ok = true; for (size_t i = 0; i < k; ++i) { ok = ok && v[i] >= 0 && v[i] < long(dims[i]) && u[i] >= 0 && u[i] <= long(dims[i]) && v[i] <= u[i]; } const auto x = to(v), y = to(u); c.require(throws([&] { t.validate_range(x, y); }) == !ok, what + " validate_range", [&] { return mc::cat(me, " ", mc::show(v), " to ", mc::show(u)); }); } }
        if constexpr (requires { d.assign(1, 1); }) { for (size_t n : {k + 1, k - 1}) { if (n > 20) { continue; } typename Tn::Index x; x.assign(n, I(0)); c.require(throws([&] { t.validate_index(x); }) && throws([&] { t.validate_index_inclusive(x); }), what + " wrong dimension", [&] { return me; }); } }
    }
    template<class F> void each_dims(size_t max_k, size_t max_n, F f) { for (size_t k = 0; k <= max_k; ++k) { mc::each_word(max_n + 1, k, [&](const std::vector<int> &w) { f(std::vector<size_t>(w.begin(), w.end())); }); } }

    struct Probe : AutoStorageTensor<int, 7> {
        mutable size_t made = 0;
        Probe(std::vector<size_t> d, TensorStorageType s) : AutoStorageTensor<int, 7>{std::move(d), s} { if (StorageType == TensorStorageType::Explicit) { for (size_t i = 0; i < ElementCount; ++i) { data.push_back(value(offset_to_index_no_checks(i))); } } }
        static int value(IndexView i) { int v = 1; for (auto x : i) { v = v * 11 + int(x); } return v; }
        int make_element_no_checks(IndexView i) const override { ++made; return value(i); }
    };
    void auto_tensors(mc::Ctx &c) {
        each_dims(3, 3, [&](const std::vector<size_t> &dims) { for (auto st : {TensorStorageType::Virtual, TensorStorageType::Explicit, TensorStorageType::Automatic}) {
            if (dims.empty()) { continue; }   // a tensor without indices has no elements
            const Probe t{dims, st}; ++c.states; const std::string me = mc::cat(mc::show(dims), " storage ", int(st)), what = "auto tensor"; c.step("%s", me.c_str());
            const bool stored = st == TensorStorageType::Explicit || (st == TensorStorageType::Automatic && t.ElementCount <= 7);
            c.require((t.StorageType == TensorStorageType::Explicit) == stored && t.StorageType != TensorStorageType::Automatic, what + " storage", [&] { return me; });
            { bool threw = false; try { c.require(t.Data().size() == t.ElementCount, what + " data", [&] { return me; }); } catch (const Moment::errors::bad_tensor &) { threw = true; } c.require(threw == !stored, what + " data", [&] { return me; }); }
            size_t o = 0; bool ok = true; auto it = t.begin();
            for (; it != t.end() && o < 1000; ++it, ++o) { const auto i = t.offset_to_index_no_checks(o); const int w = Probe::value(i); ok = ok && o < t.ElementCount && *it == w && *it.operator->() == w && it.index() == i && it.offset() == o && bool(it) && !!it && it.explicit_mode() == stored && int(t(i)) == w && int(t.at(o)) == w && int(t.elem_no_checks(i)) == w && int(t.elem_no_checks(o)) == w && *t(i).operator->() == w; }
            c.require(ok && o == t.ElementCount && !bool(it) && !it, what + " elements", [&] { return me; });
            auto refuses = [](auto &&f) { try { f(); return false; } catch (const Moment::errors::bad_tensor_index &) { return true; } };
            c.require(refuses([&] { (void) t.at(t.ElementCount); }) && refuses([&] { (void) t(std::vector<size_t>(dims)); }) && refuses([&] { (void) t(std::vector<size_t>(dims.size() + 1, 0)); }), what + " out of range", [&] { return me; });
            // every block
            Probe &mt = const_cast<Probe &>(t); std::vector<std::vector<size_t>> idx{{}}; for (size_t d : dims) { std::vector<std::vector<size_t>> more; for (auto &v : idx) for (size_t x = 0; x <= d; ++x) { auto u = v; u.push_back(x); more.push_back(u); } idx = std::move(more); }
            if (idx.size() > 64 && c.quick() && t.ElementCount > 18) { return; }
            for (auto &lo : idx) for (auto &hi : idx) {
                bool valid = true; for (size_t i = 0; i < dims.size(); ++i) { valid = valid && lo[i] < dims[i] && lo[i] <= hi[i]; } ++c.traces;
                std::vector<std::vector<size_t>> want; if (valid) { want = {{}}; for (size_t i = 0; i < dims.size(); ++i) { std::vector<std::vector<size_t>> more; for (auto &v : want) for (size_t x = lo[i]; x < hi[i]; ++x) { auto u = v; u.push_back(x); more.push_back(u); } want = std::move(more); } std::sort(want.begin(), want.end(), [](auto &a, auto &b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); }); }
                const std::string block = mc::cat(me, " block ", mc::show(lo), " to ", mc::show(hi));
                const bool no = refuses([&] { const auto range = mt.Splice(AutoStorageIndexView(lo), AutoStorageIndexView(hi)); size_t k = 0; bool good = valid; auto i = range.begin(); for (; good && i != range.end() && k < 1000; ++i, ++k) { good = k < want.size() && std::vector<size_t>(i.index().begin(), i.index().end()) == want[k] && *i == Probe::value(want[k]) && *i.operator->() == Probe::value(want[k]) && i.offset() == t.index_to_offset(want[k]) && i.block_offset() == k && bool(i); } c.require(good && k == want.size() && !i, what + " block", [&] { return block; }); });
                c.require(no == !valid, what + " block refused", [&] { return block; });
            }
        } });
    }
    void flatteners(mc::Ctx &c) {
        each_dims(3, 3, [&](const std::vector<size_t> &dims) {
            if (std::find(dims.begin(), dims.end(), 0) != dims.end()) { return; }
            std::vector<std::vector<std::vector<size_t>>> lists{{}};   // every list of up to two positions in each dimension
            for (size_t d : dims) { std::vector<std::vector<size_t>> each; each.push_back({}); for (size_t a = 0; a < d; ++a) { each.push_back({a}); for (size_t b = 0; b < d; ++b) { each.push_back({a, b}); } } std::vector<std::vector<std::vector<size_t>>> more; for (auto &l : lists) for (auto &e : each) { auto u = l; u.push_back(e); more.push_back(u); } lists = std::move(more); }
            size_t number = 0;
            for (auto &l : lists) { if (c.quick() && lists.size() > 500 && ++number % 3) { continue; }
                ++c.states; IndexFlattener f{dims, l}; const std::string what = "flattener"; size_t total = l.empty() ? 0 : 1; for (auto &x : l) { total *= x.size(); }
                auto me = [&] { std::string s = mc::show(dims); for (auto &x : l) { s += mc::show(x); } return s; }; if (c.states % 64 == 0) { c.step("%s", me().c_str()); }
                c.require(f.size() == total && f.empty() == (total == 0), what + " size", me);
                std::vector<std::vector<size_t>> want; if (total) { want = {{}}; for (auto &x : l) { std::vector<std::vector<size_t>> more; for (auto &w : want) for (size_t y : x) { auto u = w; u.push_back(y); more.push_back(u); } want = std::move(more); } }
                std::vector<std::vector<size_t>> got; std::vector<size_t> off; for (auto it = f.begin(); it != f.end() && got.size() <= total; ++it) { got.push_back(it.index()); off.push_back(*it); }
                // stated order: that of the tensor's own index iterator (first index fastest)
                std::set<std::vector<size_t>> a(got.begin(), got.end()), b(want.begin(), want.end()); bool ok = a == b && got.size() == want.size();
                for (size_t i = 0; i < got.size() && ok; ++i) { size_t o = 0, s = 1; for (size_t k = 0; k < dims.size(); ++k) { o += got[i][k] * s; s *= dims[k]; } ok = off[i] == o; }
                c.require(ok, what + " visits", me);
            }
        });
    }

    // ---------------------------------------------------------------- square matrices
    template<class V> void triangle(mc::Ctx &c, V &&view, size_t n, bool upper, bool inclusive, const std::string &me) {
        std::vector<std::pair<size_t, size_t>> want, got; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { if ((upper ? i < j : i > j) || (inclusive && i == j)) { want.emplace_back(i, j); } }
        bool ok = true; auto it = view.begin(); const auto end = view.end();
        for (; it != end && got.size() <= want.size(); ++it) { const auto ix = it.Index(); got.emplace_back(it.Row(), it.Col()); ok = ok && it.Row() < n && it.Col() < n && it.Offset() == it.Col() * n + it.Row() && ix[0] == it.Row() && ix[1] == it.Col() && *it == int(it.Offset()) + 10 && it.diagonal() == (it.Row() == it.Col()); }
        c.require(ok && got == want && it == end, "square matrix triangle", [&] { return me; });
    }
    void check_square(mc::Ctx &c, SquareMatrix<int> &m, size_t n, const std::string &me) {
        ++c.states; c.step("%s", me.c_str()); const SquareMatrix<int> &k = m; bool ok = m.dimension == n && m.ElementCount == n * n;
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { const std::array<size_t, 2> ix{i, j}; const int v = int(j * n + i) + 10; ok = ok && m(ix) == v && k(ix) == v && k(i, j) == v && m[j * n + i] == v && k[j * n + i] == v && k.raw()[j * n + i] == v; const std::array<size_t, 2> tx{j, i}; ok = ok && k.Transpose(tx) == v; }
        int v = 10; for (auto x : k) { ok = ok && x == v++; } v = 10; for (auto x : m) { ok = ok && x == v++; } v = 10; for (auto it = k.cbegin(); it != k.cend(); ++it) { ok = ok && *it == v++; } c.require(ok, "square matrix contents", [&] { return me; });
        std::vector<int> want, got; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) { want.push_back(int(i * n + j) + 10); } auto it = k.Transpose.begin(); for (; it != k.Transpose.end() && got.size() <= want.size(); ++it) { got.push_back(*it); } c.require(got == want && it == k.Transpose.end(), "square matrix transpose", [&] { return mc::cat(me, " ", mc::show(got), " should be ", mc::show(want)); });
        triangle(c, m.UpperTriangle(), n, true, true, me + " upper"); triangle(c, m.ExclusiveUpperTriangle(), n, true, false, me + " strict upper"); triangle(c, m.LowerTriangle(), n, false, true, me + " lower"); triangle(c, m.ExclusiveLowerTriangle(), n, false, false, me + " strict lower");
        triangle(c, k.UpperTriangle(), n, true, true, me + " const upper"); triangle(c, k.ExclusiveUpperTriangle(), n, true, false, me + " const strict upper"); triangle(c, k.LowerTriangle(), n, false, true, me + " const lower"); triangle(c, k.ExclusiveLowerTriangle(), n, false, false, me + " const strict lower");
    }
    void squares(mc::Ctx &c) {
        for (size_t n = 0; n <= c.bound(7u, 12u); ++n) {
            auto fill = [&] { std::vector<int> d(n * n); std::iota(d.begin(), d.end(), 10); return d; };
            SquareMatrix<int> m{n, fill()}; check_square(c, m, n, mc::cat("n=", n)); 
            { auto p = std::make_unique<SquareMatrix<int>>(n, fill()); SquareMatrix<int> q{std::move(*p)}; p.reset(); check_square(c, q, n, mc::cat("moved n=", n)); }
            for (size_t pad = 0; pad <= 3; ++pad) { const auto q = m.pad(pad, -7); bool ok = q.dimension == n + pad; for (size_t i = 0; i < n + pad && ok; ++i) for (size_t j = 0; j < n + pad && ok; ++j) { ok = q(i, j) == (i < n && j < n ? int(j * n + i) + 10 : -7); } c.require(ok, "square matrix pad", [&] { return mc::cat("n=", n, " pad ", pad); }); }
            { size_t i = 0; for (auto it = m.UpperTriangle().begin(); it != m.UpperTriangle().end(); ++it) { *it = int(--i); } i = 0; bool ok = true; for (size_t y = 0; y < n; ++y) for (size_t x = 0; x < n; ++x) { ok = ok && m(x, y) == (x <= y ? int(--i) : int(y * n + x) + 10); } c.require(ok, "square matrix write", [&] { return mc::cat("n=", n); }); }
        }
        SquareMatrix<int> none; check_square(c, none, 0, "default");
    }

    // ---------------------------------------------------------------- small helpers on containers
    template<class K> void map_merge(mc::Ctx &c, const std::string &name, const std::vector<K> &keys) {
        const uint32_t top = 1u << keys.size();
        for (uint32_t a = 0; a < top; ++a) for (uint32_t b = 0; b < top; ++b) { std::map<K, int> l, r; for (size_t i = 0; i < keys.size(); ++i) { if (a >> i & 1) { l[keys[i]] = int(i); } if (b >> i & 1) { r[keys[i]] = int(i) + 100; } } auto want = l; for (auto &[k, v] : r) { want.emplace(k, v); } ++c.states; c.step("merge %s %x %x", name.c_str(), a, b); linear_map_merge(l, std::move(r)); c.require(l == want, "map merge " + name, [&] { return mc::cat(a, " with ", b); }); }
    }
    void helpers(mc::Ctx &c) {
        map_merge<uint64_t>(c, "unsigned", {0, 1, 5, ~0ull, 1ull << 63}); map_merge<int>(c, "signed", {-7, -1, 0, 3, 9}); map_merge<int64_t>(c, "signed-long", {-(1ll << 40), -1, 0, 2});
        for (uint32_t b = 0; b < 64; ++b) { std::set<int> s; std::vector<int> v; for (int i = 0; i < 6; ++i) { if (b >> i & 1) { s.insert(i * 3 - 5); v.push_back(i * 3 - 5); } } c.require(set_to_vector(s) == v, "set_to_vector", [&] { return mc::cat(b); }); }
        for (size_t n = 0; n <= 6; ++n) { std::vector<int> data(n); std::iota(data.begin(), data.end(), 0);
            for (size_t k = 0; k <= 4; ++k) { mc::each_word(n + 1, k, [&](const std::vector<int> &w) { if (!std::is_sorted(w.begin(), w.end())) { return; } std::vector<size_t> ix(w.begin(), w.end()); ++c.states; VariableChunkRange<int> r{data, ix}; std::vector<std::vector<int>> want, got; for (size_t i = 0; i < k; ++i) { const size_t e = i + 1 < k ? ix[i + 1] : n; want.emplace_back(data.begin() + ptrdiff_t(ix[i]), data.begin() + ptrdiff_t(e)); } for (auto it = r.begin(); it != r.end() && got.size() <= k; ++it) { auto s = *it; got.emplace_back(s.begin(), s.end()); c.require(it.chunk_size() == s.size(), "chunk size", [&] { return mc::show(w); }); } c.require(got == want, "chunks", [&] { return mc::cat(n, mc::show(w)); }); }); } }
    }
}

void mc::register_cases(mc::Registry &reg) {
    vectors<int, 1>(reg, "int/1"); vectors<int16_t, 4>(reg, "int16/4"); vectors<uint64_t, 2>(reg, "uint64/2"); vectors<Monomial, 1>(reg, "monomial/1");
    reg.add("bitset-byte-pages", [](mc::Ctx &c) { bitsets<uint8_t, std::vector<uint8_t>>(c, "uint8/vector", true); }, 600);
    reg.add("bitset-byte-pages-small", [](mc::Ctx &c) { bitsets<uint8_t, SmallVector<uint8_t, 1>>(c, "uint8/small", true); }, 600);
    reg.add("bitset-word-pages", [](mc::Ctx &c) { bitsets<uint64_t, std::vector<uint64_t>>(c, "uint64/vector", false); }, 600);
    reg.add("bitset-word-pages-small", [](mc::Ctx &c) { bitsets<uint64_t, SmallVector<uint64_t, 1>>(c, "uint64/small", false); }, 600);
    reg.add("tree-unsigned", [](mc::Ctx &c) { trees<uint64_t>(c, "uint64"); }, 600);
    reg.add("tree-signed", [](mc::Ctx &c) { trees<int16_t>(c, "int16"); }, 600);
    reg.add("tensors", [](mc::Ctx &c) {
        each_dims(c.bound(3u, 4u), 3, [&](const std::vector<size_t> &d) {
            tensor_one<Tensor<size_t, std::vector<size_t>, std::span<const size_t>, true>>(c, "last", d); tensor_one<Tensor<size_t, std::vector<size_t>, std::span<const size_t>, false>>(c, "first", d);
            tensor_one<Tensor<int, std::vector<int>, std::span<const int>, true>>(c, "signed last", d); tensor_one<Tensor<int, std::vector<int>, std::span<const int>, false>>(c, "signed first", d);
            if (d.size() == 2) { tensor_one<Tensor<size_t, std::array<size_t, 2>, std::span<const size_t, 2>, true>>(c, "pair last", d); tensor_one<Tensor<size_t, std::array<size_t, 2>, std::span<const size_t, 2>, false>>(c, "pair first", d); }
            if (d.size() == 3) { tensor_one<Tensor<int, std::array<int, 3>, std::span<const int, 3>, true>>(c, "triple last", d); tensor_one<Tensor<int, std::array<int, 3>, std::span<const int, 3>, false>>(c, "triple first", d); }
        });
    }, 600);
    reg.add("auto-storage-tensors", auto_tensors, 600);
    reg.add("index-flattener", flatteners, 600);
    reg.add("square-matrices", squares, 300);
    reg.add("helpers", helpers, 300);
}
