// Small exact-enough linear algebra over the complex numbers: spans in reduced row-echelon form.
#pragma once
#include <cmath>
#include <complex>
#include <vector>

namespace linref {
    using cd = std::complex<double>;
    using Vec = std::vector<cd>;
    constexpr double TOL = 1e-8;

    struct Span {
        size_t n; std::vector<Vec> rows; std::vector<size_t> pivot;
        explicit Span(size_t n) : n{n} { }
        [[nodiscard]] Vec residue(Vec v) const {
            for (size_t r = 0; r < rows.size(); ++r) { const cd f = v[pivot[r]]; if (std::abs(f) > 0) { for (size_t k = 0; k < n; ++k) { v[k] -= f * rows[r][k]; } } }
            return v;
        }
        [[nodiscard]] static bool zero(const Vec &v) { for (auto &x : v) { if (std::abs(x) > TOL) { return false; } } return true; }
        [[nodiscard]] bool contains(const Vec &v) const { return zero(residue(v)); }
        bool add(const Vec &in) {
            Vec v = residue(in); size_t p = n; double best = TOL;
            for (size_t k = 0; k < n; ++k) { if (std::abs(v[k]) > best) { best = std::abs(v[k]); p = k; } }
            if (p == n) { return false; }
            const cd f = v[p]; for (auto &x : v) { x /= f; }
            for (auto &r : rows) { const cd g = r[p]; for (size_t k = 0; k < n; ++k) { r[k] -= g * v[k]; } }
            rows.push_back(std::move(v)); pivot.push_back(p); return true;
        }
        [[nodiscard]] size_t dim() const { return rows.size(); }
        [[nodiscard]] bool within(const Span &other) const { for (auto &r : rows) { if (!other.contains(r)) { return false; } } return true; }
        [[nodiscard]] bool equal(const Span &other) const { return dim() == other.dim() && within(other); }
    };
}
