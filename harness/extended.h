// What an inflation system's symbols stand for (products of connected moments), and what its extended matrices should hold.
#pragma once
#include "inflation_ref.h"
#include "matrix_ref.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_matrix_system.h"

namespace ext {
    using namespace Moment;
    using W = std::vector<int>; using Parts = std::multiset<W>; // orbits of the connected factors; {{-1}} is zero
    using System = Inflation::InflationMatrixSystem;
    inline Parts zero() { return {W{-1}}; }
    inline Parts parts(const iref::Model &m, const W &w) { Parts p; if (w.empty()) { return p; } for (auto &f : m.factors(w)) { p.insert(m.orbit_rep(f)); } return p; }
    inline W raw(const OperatorSequence &s) { return W(s.begin(), s.end()); }
    inline Parts product(const Parts &a, const Parts &b) { if (a == zero() || b == zero()) { return zero(); } Parts p = a; p.insert(b.begin(), b.end()); return p; }
    /** by its word, or (symbols made by extensions) by the words of its listed factors */
    inline Parts parts(const iref::Model &m, const System &s, symbol_name_t id) {
        if (id == 0) { return zero(); } if (id == 1) { return {}; }
        const auto &sym = s.Symbols()[id]; if (sym.has_sequence()) { return parts(m, raw(sym.sequence())); }
        Parts p; for (auto f : s.Factors()[size_t(id)].canonical.symbols) { if (f == 0) { return zero(); } if (f == 1) { continue; } if (f < 0 || size_t(f) >= s.Symbols().size() || !s.Symbols()[f].has_sequence()) { return {W{-2}}; } for (auto &x : parts(m, raw(s.Symbols()[f].sequence()))) { p.insert(x); } } return p;
    }
    inline std::string text(const Parts &p) { if (p == zero()) { return "0"; } std::string t; for (auto &w : p) { t += mc::show(w); } return t.empty() ? "1" : t; }
    /** the whole matrix as text that does not depend on the numbering of symbols */
    inline std::string picture(const iref::Model &m, const System &s, const SymbolicMatrix &x) {
        std::string t; const auto &mm = dynamic_cast<const MonomialMatrix &>(x); for (size_t i = 0; i < x.Dimension(); ++i) { for (size_t j = 0; j < x.Dimension(); ++j) { const auto &e = mm.SymbolMatrix(i, j); t += text(parts(m, s, e.id)); if (e.conjugated) { t += "*"; } if (e.factor != 1.0) { t += "?"; } t += " "; } t += "\n"; } return t;
    }
    inline std::string symbols(const iref::Model &m, const System &s) {
        std::multiset<std::string> o; for (size_t i = 0; i < s.Symbols().size(); ++i) { const auto &y = s.Symbols()[symbol_name_t(i)]; o.insert(mc::cat(text(parts(m, s, symbol_name_t(i))), y.has_sequence() ? "w" : "", y.is_hermitian() ? "h" : "", y.is_antihermitian() ? "a" : "")); }
        std::string t; for (auto &x : o) { t += x + " "; } return t;
    }
}
