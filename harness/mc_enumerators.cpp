// P21: index iterators and combinatorial enumerators against textbook enumerations of the same domain.
#include "mc.h"
#include <algorithm>
#include <numeric>
#include "utilities/combinations.h"
#include "utilities/multi_partition.h"
#include "utilities/ordered_permutation.h"
#include "utilities/triangular_index_iterator.h"
#include "utilities/recursive_index.h"
#include "utilities/shift_sorter.h"
#include "utilities/ipow.h"
#include "utilities/iter_tuple.h"
#include "utilities/kronecker_power.h"
#include "utilities/first_intersection_index.h"
#include "utilities/substring_hasher.h"
#include "tensor/multi_dimensional_index_iterator.h"
#include "tensor/multi_dimensional_offset_index_iterator.h"
#include "shortlex_hasher.h"

using namespace Moment;

namespace {
    using W = std::vector<long>;
    template<class V> W wide(const V &v) { return W(v.begin(), v.end()); }
    std::string list(const std::vector<W> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; ++i) { s += mc::show(v[i]); } return s + (v.size() > 12 ? "..." : ""); }
    /** compare a whole visit with the expected one */
    bool visit(mc::Ctx &c, const std::string &what, const std::string &me, const std::vector<W> &got, const std::vector<W> &want) {
        ++c.states; ++c.traces; return c.require(got == want, what, [&] { return mc::cat(me, " visits ", got.size(), ": ", list(got), " expected ", want.size(), ": ", list(want)); }); }
    void product(const std::vector<long> &lo, const std::vector<long> &hi, std::vector<W> &out) {   // lexicographic
        out = {{}}; for (size_t k = 0; k < lo.size(); ++k) { std::vector<W> more; for (auto &w : out) for (long x = lo[k]; x < hi[k]; ++x) { auto u = w; u.push_back(x); more.push_back(u); } out = std::move(more); } if (lo.empty()) { out.clear(); } }
    void colex(std::vector<W> &v) { std::sort(v.begin(), v.end(), [](const W &a, const W &b) { return std::lexicographical_compare(a.rbegin(), a.rend(), b.rbegin(), b.rend()); }); }

    /** equality of iterators along a run: equal exactly when at the same place, and to the end exactly when over */
    template<class It> void equality(mc::Ctx &c, const std::string &what, const std::string &me, const std::vector<It> &along, const It *end) {
        if (along.size() > 30) { return; }
        for (size_t i = 0; i < along.size(); ++i) for (size_t j = 0; j < along.size(); ++j) { c.require((along[i] == along[j]) == (i == j) && (along[i] != along[j]) == (i != j), what + " equality", [&] { return mc::cat(me, " steps ", i, " and ", j); }); }
        if (end) { for (size_t i = 0; i < along.size(); ++i) { const bool last = i + 1 == along.size(); c.require((along[i] == *end) == last && (*end == along[i]) == last && (along[i] != *end) == !last, what + " end", [&] { return mc::cat(me, " step ", i); }); } }
    }

    template<bool rev> void boxes(mc::Ctx &c) {
        const std::string what = mc::cat("box ", rev ? "reversed" : "forward");
        for (size_t k = 0; k <= c.bound(4u, 5u); ++k) { mc::each_word(4, k, [&](const std::vector<int> &w) {
            const std::vector<size_t> dims(w.begin(), w.end()); const std::string me = mc::show(w); c.step("%s %s", what.c_str(), me.c_str());
            std::vector<W> want; product(W(k, 0), wide(w), want); if (rev) { colex(want); }
            MultiDimensionalIndexIterator<rev> it{dims}, end{dims, true}; std::vector<W> got; bool ok = true; std::vector<MultiDimensionalIndexIterator<rev>> along{it};
            while (it != end && got.size() <= want.size()) { got.push_back(wide(*it)); for (size_t i = 0; i < k; ++i) { ok = ok && long(it[i]) == got.back()[i]; } ok = ok && it.global() == got.size() - 1 && bool(it) && !!it; if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(*was) == got.back(); } along.push_back(it); }
            visit(c, what, me, got, want); c.require(ok && !it && !bool(it) && it.limits() == dims && (k == 0 || (it.global() == want.size() && end.global() == want.size())), what + " offsets", [&] { return me; }); equality(c, what, me, along, &end);
            MultiDimensionalIndexRange<rev> range{dims}; got.clear(); for (auto &x : range) { got.push_back(wide(x)); if (got.size() > want.size()) { break; } } visit(c, what + " range", me, got, want);
        }); }
    }
    template<bool rev> void blocks(mc::Ctx &c) {
        const std::string what = mc::cat("block ", rev ? "reversed" : "forward"); using It = MultiDimensionalOffsetIndexIterator<rev>;
        for (size_t k = 0; k <= 3; ++k) { mc::each_word(10, k, [&](const std::vector<int> &w) {
            W lo, hi; for (int x : w) { int a = 0; while (x >= 4 - a) { x -= 4 - a; ++a; } lo.push_back(a); hi.push_back(a + x); }   // all 0 <= lo <= hi <= 3
            const std::string me = mc::show(lo) + mc::show(hi); c.step("%s %s", what.c_str(), me.c_str()); std::vector<W> want; product(lo, hi, want); if (rev) { colex(want); }
            const std::vector<size_t> l(lo.begin(), lo.end()), h(hi.begin(), hi.end()); It it{l, h}; const It end; std::vector<W> got; bool ok = it.lower_limits() == l && it.upper_limits() == h; std::vector<It> along{it};
            while (it != end && got.size() <= want.size()) { got.push_back(wide(*it)); for (size_t i = 0; i < k; ++i) { ok = ok && long(it[i]) == got.back()[i]; } ok = ok && it.global() == got.size() - 1 && bool(it) && !!it; if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(*was) == got.back(); } along.push_back(it); }
            visit(c, what, me, got, want); c.require(ok && !it && !bool(it), what + " offsets", [&] { return me; }); equality(c, what, me, along, &end);
        }); }
    }

    std::vector<W> subsets(size_t n, size_t k) { std::vector<W> out; for (uint32_t b = 0; b < (1u << n); ++b) { W w; for (size_t i = 0; i < n; ++i) { if (b >> i & 1) { w.push_back(long(i)); } } if (w.size() == k) { out.push_back(w); } } colex(out); return out; }
    std::vector<W> nondecreasing(size_t n, size_t k) { std::vector<W> out; mc::each_word(n, k, [&](const std::vector<int> &w) { if (std::is_sorted(w.begin(), w.end())) { out.push_back(wide(w)); } }); return out; }
    void choose(mc::Ctx &c) {
        for (size_t n = 0; n <= c.bound(10u, 13u); ++n) for (size_t k = 0; k <= n; ++k) {
            const std::string me = mc::cat(n, " choose ", k); c.step("%s", me.c_str()); const auto want = subsets(n, k);
            { CombinationIndexIterator it{n, k}, end{n, k, true}; std::vector<W> got; std::vector<CombinationIndexIterator> along{it}; bool ok = it.combination_count() == want.size();
              while (!it.done() && got.size() <= want.size()) { got.push_back(wide(*it)); ok = ok && wide(*it.operator->()) == got.back() && it != end; if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(*was) == got.back(); } along.push_back(it); } visit(c, "combination", me, got, want); c.require(ok && it == end, "combination count", [&] { return me; }); equality(c, "combination", me, along, &end); }
            { PartitionIterator it{n, k}; std::vector<W> got, rest; bool ok = true;
              while (!it.done() && got.size() <= want.size()) { got.push_back(wide(it.primary())); W comp; for (long x = 0; x < long(n); ++x) { if (std::find(got.back().begin(), got.back().end(), x) == got.back().end()) { comp.push_back(x); } } const auto [p, q] = *it; ok = ok && wide(it.complement()) == comp && wide(p) == got.back() && wide(q) == comp; for (size_t i = 0; i < k; ++i) { ok = ok && long(it.primary(i)) == got.back()[i]; } for (size_t i = 0; i < n - k; ++i) { ok = ok && long(it.complement(i)) == comp[i]; }
                const auto &b = it.bits(); ok = ok && b.size() == n; for (size_t i = 0; i < n; ++i) { const bool in = std::find(got.back().begin(), got.back().end(), long(i)) != got.back().end(); ok = ok && it.bits(i) == in && b[i] == in; } if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(was.primary()) == got.back(); } } visit(c, "partition", me, got, want); c.require(ok, "partition complement", [&] { return me; }); }
            c.require(combinations<uint64_t>(n, k) == want.size() && combinations<int64_t>(int64_t(n), int64_t(k)) == int64_t(want.size()) && combinations<size_t>(n, k) == want.size(), "combinations", [&] { return me; });
        }
        for (size_t n = 0; n <= c.bound(6u, 8u); ++n) for (size_t k = 0; k <= n; ++k) {
            const std::string me = mc::cat(k, " of ", n, " with repetition"); const auto want = nondecreasing(n, k); c.step("%s", me.c_str());
            CommutingIndexIterator it{n, k}, end{n, k, true}; std::vector<W> got; std::vector<CommutingIndexIterator> along{it}; const bool ok = it.combination_count() == want.size(); while (!it.done() && got.size() <= want.size()) { got.push_back(wide(*it)); ++it; along.push_back(it); } visit(c, "repeated combination", me, got, want); c.require(ok && it == end, "repeated combination count", [&] { return mc::cat(me, " says ", it.combination_count()); }); equality(c, "repeated combination", me, along, &end);
        }
        // binomials as far as the products fit into the type
        for (uint64_t n = 0; n <= 20; ++n) { uint64_t row = 1; for (uint64_t k = 0; k <= n; ++k) { c.require(combinations<uint64_t>(n, k) == row, "combinations", [&] { return mc::cat(n, " choose ", k); }); row = row * (n - k) / (k + 1); } }
    }
    template<class I, bool rev> void piles(mc::Ctx &c) {
        const std::string what = mc::cat("multipartition ", rev ? "reversed" : "forward");
        for (size_t parties = 1; parties <= c.bound(6u, 8u); ++parties) for (int sum = 0; sum <= c.bound(6, 8); ++sum) {
            const std::string me = mc::cat(sum, " over ", parties); c.step("%s %s", what.c_str(), me.c_str()); std::vector<W> want; W w(parties, 0);
            std::function<void(size_t, long)> rec = [&](size_t at, long left) { if (at + 1 == parties) { w[at] = left; want.push_back(w); return; } for (long x = 0; x <= left; ++x) { w[at] = x; rec(at + 1, left - x); } }; rec(0, sum); if (rev) { std::reverse(want.begin(), want.end()); }
            MultipartitionIterator<I, rev> it{I(sum), parties}; std::vector<MultipartitionIterator<I, rev>> along{it}; std::vector<W> got; bool ok = it.Sum == sum && it.Parties == parties;
            while (it && got.size() <= want.size()) { got.push_back(wide(*it)); for (size_t i = 0; i < parties; ++i) { ok = ok && long(it[i]) == got.back()[i]; } ++it; along.push_back(it); } visit(c, what, me, got, want); c.require(ok, what + " index", [&] { return me; }); equality<MultipartitionIterator<I, rev>>(c, what, me, along, nullptr);
        }
    }
    template<class I> void ordered(mc::Ctx &c) {
        for (size_t n = 1; n <= c.bound(6u, 8u); ++n) for (size_t k = 0; k <= c.bound(6u, 7u); ++k) {
            const std::string me = mc::cat(k, " of ", n); c.step("ordered %s", me.c_str()); auto want = nondecreasing(n, k);
            { using It = OrderedPermutationIterator<I>; It it{I(n), I(k)}; const It end{I(n), I(k), true}; std::vector<It> along{it}; std::vector<W> got; bool ok = true; while (!it.done() && got.size() <= want.size()) { got.push_back(wide(*it)); ok = ok && wide(*it.operator->()) == got.back(); for (size_t i = 0; i < k; ++i) { ok = ok && long(it[i]) == got.back()[i]; } if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(*was) == got.back(); } along.push_back(it); } visit(c, "ordered permutation", me, got, want); c.require(ok && it == end, "ordered permutation index", [&] { return me; }); equality(c, "ordered permutation", me, along, &end); }
        }
    }
    template<class I, bool dup> void triangular(mc::Ctx &c) {
        const std::string what = mc::cat("triangular ", dup ? "with" : "without", " repetition"); using It = TriangularIndexIterator<I, std::vector<I>, dup>;
        for (size_t n = 0; n <= c.bound(7u, 9u); ++n) for (size_t k = 0; k <= c.bound(6u, 8u); ++k) {
            const std::string me = mc::cat(k, " of ", n); c.step("%s %s", what.c_str(), me.c_str()); auto want = nondecreasing(n, k); if (!dup) { std::erase_if(want, [](const W &w) { return std::adjacent_find(w.begin(), w.end()) != w.end(); }); } if (k == 0 || n == 0) { want.clear(); }
            It it{I(n), k}; const It end{I(n), k, true}; std::vector<It> along{it}; std::vector<W> got; bool ok = true;
            while (it && got.size() <= want.size()) { got.push_back(wide(*it)); ok = ok && it.global() == got.size() - 1 && !!it && it != end; for (size_t i = 0; i < k; ++i) { ok = ok && long(it[i]) == got.back()[i]; } if (got.size() % 2) { ++it; } else { auto was = it++; ok = ok && wide(*was) == got.back(); } along.push_back(it); }
            visit(c, what, me, got, want); c.require(ok && it == end && !it, what + " offsets", [&] { return me; }); if (along.size() > 1) { equality(c, what, me, along, &end); }
        }
    }

    struct Chunked : MonotonicChunkRecursiveStorage<int, Chunked> { Chunked(std::span<const size_t> s, size_t d, int z, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage<int, Chunked>{s, d, z, o} { } explicit Chunked(int z, ptrdiff_t o = 0) : MonotonicChunkRecursiveStorage<int, Chunked>{z, o} { } };
    template<class T, class Make> void recursive(mc::Ctx &c, const std::string &what, const std::string &me, T tree, std::vector<std::vector<size_t>> places, Make make) {
        ++c.states; c.step("%s %s", what.c_str(), me.c_str()); std::sort(places.begin(), places.end());
        auto walk = [&](auto &t, const std::map<std::vector<size_t>, decltype(make(0))> &want, const char *when) { std::vector<std::vector<size_t>> got; bool ok = true; auto visitor = [&](auto &value, const std::vector<size_t> &at, int extra) { got.push_back(at); const auto it = want.find(at); ok = ok && extra == 5 && it != want.end() && it->second == value; }; t.visit(visitor, 5); c.require(ok && got == places, what + " visit", [&] { return mc::cat(me, " ", when, " visits ", got.size(), " expected ", places.size()); }); };
        std::map<std::vector<size_t>, decltype(make(0))> want; for (auto &p : places) { want[p] = make(0); } const T &ct = tree; walk(tree, want, "fresh"); walk(ct, want, "fresh const");
        int n = 0; for (auto &p : places) { ++n; tree.set(p, make(n)); want[p] = make(n); ++c.traces; if (places.size() <= 60) { for (auto &q : places) { c.require(ct.access(q) == want[q] && ct.subtree(q).access() == want[q] && &tree.subtree(q).access() == &ct.access(q), what + " access", [&] { return mc::cat(me, " ", mc::show(q)); }); } } }
        walk(tree, want, "filled"); for (auto &p : places) { size_t kids = 0; for (auto &q : places) { kids += q.size() == p.size() + 1 && std::equal(p.begin(), p.end(), q.begin()); } c.require(ct.subtree(p).num_children() == kids, what + " children", [&] { return mc::cat(me, " ", mc::show(p)); }); }
        struct Bump { decltype(make(0)) to; void operator()(decltype(make(0)) &v, const std::vector<size_t> &) { v = to; } } bump{make(77)}; tree.visit(bump); for (auto &p : places) { want[p] = make(77); } walk(tree, want, "rewritten"); tree.set(make(3)); c.require(tree.access() == make(3) && ct.access(std::initializer_list<size_t>{}) == make(3), what + " root", [&] { return me; });
        if (places.size() > 1) { tree.set({places[1][0]}, make(9)); c.require(ct.access({places[1][0]}) == make(9), what + " list", [&] { return me; }); }
    }
    void trees(mc::Ctx &c) {
        for (size_t w = 0; w <= 3; ++w) for (size_t d = 0; d <= 3; ++d) { std::vector<std::vector<size_t>> places; mc::each_word_upto(w, d, [&](const std::vector<int> &x) { places.emplace_back(x.begin(), x.end()); });
            recursive(c, "double index", mc::cat("width ", w, " depth ", d), RecursiveDoubleIndex{w, d, {0, 0}}, places, [](int v) { return std::pair<ptrdiff_t, ptrdiff_t>{v, -v}; }); const RecursiveDoubleIndex one{w, d}; c.require(one.access() == std::pair<ptrdiff_t, ptrdiff_t>{-1, 0}, "double index default", [&] { return mc::cat(w, d); }); }
        for (size_t k = 1; k <= 4; ++k) { mc::each_word(3, k, [&](const std::vector<int> &s) { for (size_t d = 0; d <= 4; ++d) {
            std::vector<size_t> sizes(s.begin(), s.end()), chunk; for (size_t i = 0; i < k; ++i) { chunk.insert(chunk.end(), sizes[i], i); }
            std::vector<std::vector<size_t>> places{{}}; for (size_t i = 0; i < places.size(); ++i) { if (places[i].size() >= d) { continue; } const auto p = places[i]; for (size_t x = 0; x < chunk.size(); ++x) { if (p.empty() || chunk[x] > chunk[p.back()]) { auto q = p; q.push_back(x); places.push_back(q); } } }
            recursive(c, "chunked index", mc::cat(mc::show(sizes), " depth ", d), Chunked{sizes, d, 0}, places, [](int v) { return v; }); } }); }
    }

    template<class I> void powers(mc::Ctx &c, const std::string &name, long lo, long hi, long top) {
        for (long b = lo; b <= hi; ++b) { __int128 v = 1; for (long e = 0; e <= top; ++e) { if (v > std::numeric_limits<I>::max() || v < std::numeric_limits<I>::min()) { break; } ++c.states; const I got = ipow<I>(I(b), I(e)); c.require(got == I(v), "ipow " + name, [&] { return mc::cat(b, "^", e, " gives ", +got); }); if (e == std::numeric_limits<I>::max()) { break; } v *= b; } c.step("ipow %s %ld", name.c_str(), b); }
    }
    void ranking(mc::Ctx &c) {
        for (hash_t radix = 1; radix <= 6; ++radix) for (hash_t offset : {hash_t(1), hash_t(0), hash_t(17)}) {
            const ShortlexHasher h{radix, offset}; hash_t rank = offset; const size_t top = radix == 1 ? 20 : radix == 2 ? c.bound(11u, 15u) : c.bound(5u, 7u);
            mc::each_word_upto(radix, top, [&](const std::vector<int> &w) { const std::vector<oper_name_t> s(w.begin(), w.end()); ++c.states; if (rank % 256 == 0) { c.step("rank %lu", (unsigned long) rank); }
                c.require(h(std::span<const oper_name_t>(s)) == rank && h.hash(std::span<const oper_name_t>(s)) == rank && (s.size() != 1 || h.hash(s[0]) == rank), "shortlex rank", [&] { return mc::cat(mc::show(s), " radix ", radix, " offset ", offset, " gives ", h.hash(std::span<const oper_name_t>(s)), ", expected ", rank); }); ++rank; });
        }
        for (hash_t radix = 2; radix <= c.bound(400u, 70000u); ++radix) { const ShortlexHasher h{radix, 1}; const size_t n = h.longest_hashable_string(); unsigned __int128 last = 1, p = 1; for (size_t i = 0; i < n; ++i) { p *= radix; last += p; } ++c.states; c.require(last <= std::numeric_limits<uint64_t>::max(), "longest hashable string", [&] { return mc::cat("radix ", radix, " length ", n, " has more words than hashes"); }); if (last <= std::numeric_limits<uint64_t>::max()) { const std::vector<oper_name_t> s(n, oper_name_t(radix - 1)); c.require(h(std::span<const oper_name_t>(s)) == hash_t(last), "shortlex last", [&] { return mc::cat("radix ", radix); }); } }
        for (hash_t radix = 1; radix <= 3; ++radix) { const ShortlexHasher h{radix, 1}; mc::each_word_upto(radix, radix == 3 ? 5 : 7, [&](const std::vector<int> &w) { const sequence_storage_t s(w.begin(), w.end()); ++c.states; Algebraic::SubstringHashRange r{s, radix}; std::vector<W> want, got; bool ok = true;
            for (long e = long(w.size()); e > 0; --e) for (long b = e - 1; b >= 0; --b) { want.push_back({b, long(h.hash(std::span<const oper_name_t>(s.get() + b, size_t(e - b))))}); }
            for (auto it = r.begin(); it != r.end() && got.size() <= want.size(); ++it) { got.push_back({long(it.index()), long(*it)}); } visit(c, "substring hashes", mc::cat(mc::show(w), " radix ", radix), got, want); c.require(ok, "substring", [&] { return mc::show(w); }); }); }
    }
    template<class I> void rotations(mc::Ctx &c) {
        const ShiftSorter<I> sorter; for (size_t base : {1, 2, 3}) { mc::each_word_upto(base, base == 3 ? c.bound(7u, 9u) : c.bound(10u, 14u), [&](const std::vector<int> &w) { if (w.empty()) { return; } std::vector<I> s; for (int x : w) { s.push_back(I(x * 3)); } ++c.states; size_t best = 0; auto rot = [&](size_t k) { auto t = s; std::rotate(t.begin(), t.begin() + ptrdiff_t(k), t.end()); return t; }; for (size_t k = 1; k < s.size(); ++k) { if (rot(k) < rot(best)) { best = k; } } const size_t got = sorter(std::span<const I>(s)); c.require(got == best, "least rotation", [&] { return mc::cat(mc::show(w), " gives ", got, ", expected ", best); });
            typename ShiftSorter<I>::ComparePermutationFunctor less{std::span<const I>(s)}; if (s.size() <= 5) { for (size_t a = 0; a < s.size(); ++a) for (size_t b = 0; b < s.size(); ++b) { c.require(less(a, b) == (rot(a) < rot(b)) && less.size() == s.size(), "rotation order", [&] { return mc::cat(mc::show(w), a, b); }); } } }); }
    }
    void others(mc::Ctx &c) {
        for (uint32_t a = 0; a < 128; ++a) for (uint32_t b = 0; b < 128; ++b) { std::vector<int> x, y; for (int i = 0; i < 7; ++i) { if (a >> i & 1) { x.push_back(i); } if (b >> i & 1) { y.push_back(i); } } std::optional<size_t> want; for (size_t k = 0; k < y.size() && !want; ++k) { if (std::find(x.begin(), x.end(), y[k]) != x.end()) { want = k; } } ++c.states; c.require(first_intersection_index(x.cbegin(), x.cend(), y.cbegin(), y.cend()) == want, "first intersection", [&] { return mc::show(x) + mc::show(y); }); std::vector<int> rx(x.rbegin(), x.rend()), ry(y.rbegin(), y.rend()); std::optional<size_t> rw; for (size_t k = 0; k < ry.size() && !rw; ++k) { if (std::find(x.begin(), x.end(), ry[k]) != x.end()) { rw = k; } } c.require(first_intersection_index(rx.cbegin(), rx.cend(), ry.cbegin(), ry.cend(), std::greater<int>{}) == rw, "first intersection descending", [&] { return mc::show(x) + mc::show(y); }); }
        // Kronecker powers of every 0/1/-1 matrix of small shape
        for (int rows = 1; rows <= 3; ++rows) for (int cols = 1; cols <= 3; ++cols) { if (rows * cols > 4) { continue; } mc::each_word(3, size_t(rows * cols), [&](const std::vector<int> &w) {
            Eigen::MatrixXd d(rows, cols); for (int i = 0; i < rows * cols; ++i) { d(i % rows, i / rows) = w[size_t(i)] == 2 ? -2.0 : w[size_t(i)]; } const Eigen::SparseMatrix<double> s = d.sparseView(); Eigen::MatrixXd p = Eigen::MatrixXd::Identity(1, 1);
            for (int e = 0; e <= 5; ++e) { ++c.states; const Eigen::MatrixXd got = kronecker_power(s, e).toDense(); c.require(got.rows() == p.rows() && got.cols() == p.cols() && (got - p).cwiseAbs().maxCoeff() == 0, "kronecker power", [&] { return mc::cat(rows, "x", cols, mc::show(w), "^", e); }); if (p.rows() * rows > 300 || p.cols() * cols > 300) { break; } Eigen::MatrixXd q(p.rows() * rows, p.cols() * cols); for (int i = 0; i < p.rows(); ++i) for (int j = 0; j < p.cols(); ++j) { q.block(i * rows, j * cols, rows, cols) = p(i, j) * d; } p = q; } }); }
        std::vector<int> a{1, 2, 3}; std::vector<double> b{4, 5, 6}; using T = IterTuple<std::vector<int>::iterator, std::vector<double>::iterator>; T t{a.begin(), b.begin()}; const T end{a.end(), b.end()}; size_t k = 0; while (t != end && k < 9) { auto [x, y] = *t; c.require(x == a[k] && y == b[k] && !(t == end) && &std::get<0>(*t) == &a[k], "tuple of iterators", [&] { return mc::cat(k); }); ++t; ++k; } c.require(k == 3 && t == end, "tuple of iterators end", [&] { return mc::cat(k); });
    }
}

void mc::register_cases(mc::Registry &reg) {
    reg.add("boxes-forward", boxes<false>, 300); reg.add("boxes-reversed", boxes<true>, 300); reg.add("blocks-forward", blocks<false>, 300); reg.add("blocks-reversed", blocks<true>, 300);
    reg.add("combinations", choose, 300);
    reg.add("multipartition-forward", [](mc::Ctx &c) { piles<int, false>(c); }, 300); reg.add("multipartition-reversed", [](mc::Ctx &c) { piles<int, true>(c); piles<int16_t, true>(c); }, 300);
    reg.add("ordered-permutation", [](mc::Ctx &c) { ordered<size_t>(c); ordered<int>(c); }, 300);
    reg.add("triangular-repeating", [](mc::Ctx &c) { triangular<size_t, true>(c); triangular<int, true>(c); }, 300); reg.add("triangular-unique", [](mc::Ctx &c) { triangular<size_t, false>(c); triangular<int, false>(c); }, 300);
    reg.add("recursive", trees, 300);
    reg.add("powers", [](mc::Ctx &c) { powers<int8_t>(c, "int8", -128, 127, 127); powers<uint8_t>(c, "uint8", 0, 255, 255); powers<int16_t>(c, "int16", -32768, 32767, 40); powers<uint16_t>(c, "uint16", 0, 65535, 40); powers<int>(c, "int", -1300, 1300, 40); powers<uint64_t>(c, "uint64", 0, 70000, 80); powers<int64_t>(c, "int64", -3000, 3000, 80); powers<size_t>(c, "size", 0, 20, 70); }, 300);
    reg.add("ranking", ranking, 300);
    reg.add("rotations", [](mc::Ctx &c) { rotations<size_t>(c); rotations<int>(c); }, 300);
    reg.add("others", others, 300);
}
