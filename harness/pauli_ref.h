// Reference model of Pauli words: phase i^k and one letter (0=I,1=X,2=Y,3=Z) per qubit.
#pragma once
#include <array>
#include <complex>
#include <vector>
#include <map>
#include <string>
#include <sstream>
#include "dictionary/operator_sequence.h"
#include "dictionary/raw_polynomial.h"
#include "scenarios/pauli/pauli_context.h"

namespace pref {
    using namespace Moment;

    struct Word {
        bool zero = false;
        int phase = 0;              // power of i
        std::vector<int> p;         // letter per qubit
        explicit Word(size_t n = 0) : p(n, 0) {}
        bool operator==(const Word &r) const { return zero == r.zero && (zero || (phase == r.phase && p == r.p)); }
        bool operator<(const Word &r) const { return std::tie(zero, phase, p) < std::tie(r.zero, r.phase, r.p); }
    };

    using M2 = std::array<std::complex<double>, 4>;
    inline const M2 &pauli(int k) {
        static const std::complex<double> i{0, 1};
        static const M2 m[4] = {{1, 0, 0, 1}, {0, 1, 1, 0}, {0, -i, i, 0}, {1, 0, 0, -1}};
        return m[k];
    }
    /** product of two single-qubit letters found by multiplying the 2x2 matrices: {phase, letter} */
    inline std::pair<int, int> mul1(int a, int b) {
        static std::array<std::pair<int, int>, 16> table = [] {
            std::array<std::pair<int, int>, 16> t;
            const std::complex<double> ph[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
            for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) {
                const auto &A = pauli(a), &B = pauli(b);
                M2 C{A[0] * B[0] + A[1] * B[2], A[0] * B[1] + A[1] * B[3], A[2] * B[0] + A[3] * B[2], A[2] * B[1] + A[3] * B[3]};
                bool found = false;
                for (int k = 0; k < 4; ++k) for (int q = 0; q < 4; ++q) {
                    bool eq = true;
                    for (int e = 0; e < 4; ++e) { if (std::abs(C[e] - ph[q] * pauli(k)[e]) > 1e-12) { eq = false; } }
                    if (eq) { t[a * 4 + b] = {q, k}; found = true; }
                }
                if (!found) { std::abort(); }
            }
            return t;
        }();
        return table[a * 4 + b];
    }
    inline Word mul(const Word &a, const Word &b) {
        Word o(a.p.size());
        if (a.zero || b.zero) { o.zero = true; return o; }
        o.phase = a.phase + b.phase;
        for (size_t q = 0; q < a.p.size(); ++q) { auto [ph, l] = mul1(a.p[q], b.p[q]); o.phase += ph; o.p[q] = l; }
        o.phase &= 3;
        return o;
    }
    inline Word conj(const Word &a) { Word o = a; o.phase = (4 - a.phase) & 3; return o; }
    inline bool commute(const Word &a, const Word &b) { return mul(a, b) == mul(b, a); }
    /** Raw operator string -> element */
    template<class V> Word from_raw(size_t n, const V &ops, int phase = 0) {
        Word o(n); o.phase = phase & 3;
        for (auto op : ops) { Word s(n); s.p[op / 3] = 1 + op % 3; o = mul(o, s); }
        return o;
    }
    inline Word from_seq(size_t n, const OperatorSequence &s) {
        if (s.zero()) { Word o(n); o.zero = true; return o; }
        return from_raw(n, s.raw(), int(s.get_sign()));
    }
    inline std::vector<int> canonical_ops(const Word &w) {
        std::vector<int> o;
        for (size_t q = 0; q < w.p.size(); ++q) { if (w.p[q]) { o.push_back(3 * int(q) + w.p[q] - 1); } }
        return o;
    }
    inline OperatorSequence to_seq(const Pauli::PauliContext &ctx, const Word &w) {
        if (w.zero) { return OperatorSequence::Zero(ctx); }
        sequence_storage_t raw; for (int o : canonical_ops(w)) { raw.emplace_back(static_cast<oper_name_t>(o)); }
        return OperatorSequence{std::move(raw), ctx, static_cast<SequenceSignType>(w.phase)};
    }
    inline std::string text(const Word &w) {
        if (w.zero) { return "0"; }
        static const char *ph[4] = {"", "i", "-", "-i"};
        std::string s = ph[w.phase]; bool any = false;
        for (size_t q = 0; q < w.p.size(); ++q) { if (w.p[q]) { s += "IXYZ"[w.p[q]]; s += std::to_string(q + 1); any = true; } }
        return any ? s : s + "I";
    }
    /** the real object is exactly the canonical form of w */
    inline bool same(const Pauli::PauliContext &ctx, const Word &w, const OperatorSequence &s) {
        if (w.zero) { return s.zero() && s.empty() && s.hash() == 0; }
        if (s.zero()) { return false; }
        auto c = canonical_ops(w);
        if (c.size() != s.size() || int(s.get_sign()) != w.phase) { return false; }
        for (size_t k = 0; k < c.size(); ++k) { if (c[k] != s[k]) { return false; } }
        return s.hash() == ctx.the_hasher()(s.raw());
    }
    /** all 4^n letters */
    inline std::vector<Word> all_words(size_t n, bool phases) {
        std::vector<Word> out;
        size_t N = 1; for (size_t i = 0; i < n; ++i) { N *= 4; }
        for (size_t k = 0; k < N; ++k) for (int ph = 0; ph < (phases ? 4 : 1); ++ph) {
            Word w(n); size_t r = k; for (size_t q = 0; q < n; ++q) { w.p[q] = r % 4; r /= 4; } w.phase = ph; out.push_back(w);
        }
        return out;
    }

    /** reference polynomial: letters -> coefficient */
    using Poly = std::map<std::vector<int>, std::complex<double>>;
    inline std::complex<double> iphase(int k) { static const std::complex<double> ph[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; return ph[k & 3]; }
    inline void acc(Poly &p, const Word &w, std::complex<double> c) {
        if (w.zero) { return; }
        p[w.p] += c * iphase(w.phase);
    }
    inline Poly clean(Poly p) { for (auto it = p.begin(); it != p.end();) { if (std::abs(it->second) < 1e-12) { it = p.erase(it); } else { ++it; } } return p; }
    inline bool eq(const Poly &a, const Poly &b) {
        auto x = clean(a), y = clean(b);
        if (x.size() != y.size()) { return false; }
        for (auto &[k, v] : x) { auto it = y.find(k); if (it == y.end() || std::abs(it->second - v) > 1e-9) { return false; } }
        return true;
    }
    inline Poly from_real(size_t n, const RawPolynomial &rp) {
        Poly p; for (const auto &e : rp) { acc(p, from_seq(n, e.sequence), e.weight); } return p;
    }
    inline std::string text(const Poly &p) {
        std::stringstream ss; for (auto &[k, v] : p) { Word w(k.size()); w.p = k; ss << v << text(w) << " "; } return ss.str();
    }
}
