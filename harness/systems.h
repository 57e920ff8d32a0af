// Descriptions of matrices a system can be asked for, for P14: how to ask for them in every way the library offers.
#pragma once
#include "mt_common.h"
#include "group_ref.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "symbolic/rules/moment_rulebook.h"
#include "scenarios/imported/imported_matrix_system.h"

namespace sysm {
    using Made = std::pair<ptrdiff_t, const SymbolicMatrix *>;
    /** one description, tied to one system */
    struct Bound {
        std::function<Made(Policy)> create;                       // create(index)
        std::function<const SymbolicMatrix *()> make;             // operator()(index) of a system that may change
        std::function<const SymbolicMatrix *()> get;              // operator()(index) of a const system
        std::function<const SymbolicMatrix *()> find;             // find(lock, index)
        std::function<ptrdiff_t()> find_index;
        std::function<bool()> contains;
    };
    struct Desc { std::string name; std::function<Bound(MatrixSystem &)> bind; };

    template<class Family, class Index> Bound bound(MatrixSystem &sys, Family &f, Index ix) {
        Bound b; auto i = std::make_shared<Index>(std::move(ix)); const Family &cf = f;
        b.create = [&f, i](Policy p) { auto [n, m] = f.create(*i, p); return Made{ptrdiff_t(n), &m}; };
        b.find_index = [&cf, i] { return cf.find_index(*i); };
        b.contains = [&cf, i] { return cf.contains(*i); };
        if constexpr (requires { i->to_string(sys); } || std::is_integral_v<Index>) {
            b.make = [&f, i]() -> const SymbolicMatrix * { return &f(*i, Policy::Never); };
            b.get = [&cf, i]() -> const SymbolicMatrix * { return &cf(*i); };
            b.find = [&sys, &cf, i]() -> const SymbolicMatrix * { auto lock = sys.get_read_lock(); return &cf.find(lock, *i); };
        } else { b.make = [&f, i]() -> const SymbolicMatrix * { return &f(*i, Policy::Never); }; }
        return b;
    }
    inline Polynomial poly(const World &w, MatrixSystem &s, const std::vector<std::pair<Raw, cd>> &e) {
        Polynomial::storage_t ms; for (auto &[x, f] : e) { auto where = s.Symbols().where(w.seq(s.Context(), x)); if (!where.found()) { throw std::runtime_error("word not registered"); } ms.emplace_back(where->Id(), f * pref::iphase(int(w.seq(s.Context(), x).get_sign())), where.is_conjugated); }
        return s.polynomial_factory()(std::move(ms)); }
    inline RawPolynomial raw(const World &w, const MatrixSystem &s, const std::vector<std::pair<Raw, cd>> &e) { RawPolynomial r; for (auto &[x, f] : e) { r.emplace_back(w.seq(s.Context(), x), f); } return r; }

    inline Desc moment(size_t L) { return {mc::cat("MM", L), [=](MatrixSystem &s) { return bound(s, s.MomentMatrix, MomentMatrixIndex{L}); }}; }
    inline Desc local(const World &w, size_t L, Raw x, int ph = 0) { return {mc::cat("LM", L, ":i^", ph, mc::show(x)), [=](MatrixSystem &s) { return bound(s, s.LocalizingMatrix, LocalizingMatrixIndex{L, w.seq(s.Context(), x, ph)}); }}; }
    using Terms = std::vector<std::pair<Raw, cd>>;
    inline std::string terms_text(const Terms &e) { std::string t; for (auto &[x, f] : e) { t += "+" + number(f) + mc::show(x); } return t; }
    inline Desc local(const World &w, size_t L, Terms e) { return {mc::cat("PLM", L, ":", terms_text(e)), [=](MatrixSystem &s) { return bound(s, s.PolynomialLocalizingMatrix, PolynomialLocalizingMatrixIndex{L, poly(w, s, e)}); }}; }
    inline Desc subst(ptrdiff_t src, ptrdiff_t book) { return {mc::cat("Sub", src, ",", book), [=](MatrixSystem &s) { return bound(s, s.SubstitutedMatrix, SubstitutedMatrixIndex{src, book}); }}; }
    inline Pauli::PauliMatrixSystem &P(MatrixSystem &s) { return dynamic_cast<Pauli::PauliMatrixSystem &>(s); }
    inline Desc pmoment(size_t L, size_t n) { return {mc::cat("pMM", L, "n", n), [=](MatrixSystem &s) { return bound(s, P(s).PauliMomentMatrices, Pauli::MomentMatrixIndex{L, n}); }}; }
    inline Desc plocal(const World &w, size_t L, size_t n, Raw x, int ph = 0) { return {mc::cat("pLM", L, "n", n, ":i^", ph, mc::show(x)), [=](MatrixSystem &s) { return bound(s, P(s).PauliLocalizingMatrices, Pauli::LocalizingMatrixIndex{L, n, w.seq(s.Context(), x, ph)}); }}; }
    inline Desc pcomm(const World &w, size_t L, size_t n, Raw x) { return {mc::cat("pCM", L, "n", n, ":", mc::show(x)), [=](MatrixSystem &s) { return bound(s, P(s).CommutatorMatrices, Pauli::CommutatorMatrixIndex{L, n, w.seq(s.Context(), x)}); }}; }
    inline Desc panti(const World &w, size_t L, size_t n, Raw x) { return {mc::cat("pAM", L, "n", n, ":", mc::show(x)), [=](MatrixSystem &s) { return bound(s, P(s).AnticommutatorMatrices, Pauli::AnticommutatorMatrixIndex{L, n, w.seq(s.Context(), x)}); }}; }
    inline Desc plocal(const World &w, size_t L, size_t n, Terms e) { return {mc::cat("pPLM", L, "n", n, ":", terms_text(e)), [=](MatrixSystem &s) { return bound(s, P(s).PauliPolynomialLocalizingMatrices, Pauli::PolynomialLocalizingMatrixIndex{L, n, poly(w, s, e)}); }}; }
    inline Desc pcomm(const World &w, size_t L, size_t n, Terms e) { return {mc::cat("pPCM", L, "n", n, ":", terms_text(e)), [=](MatrixSystem &s) { return bound(s, P(s).PolynomialCommutatorMatrices, Pauli::PolynomialCommutatorMatrixIndex{L, n, poly(w, s, e)}); }}; }
    inline Desc panti(const World &w, size_t L, size_t n, Terms e) { return {mc::cat("pPAM", L, "n", n, ":", terms_text(e)), [=](MatrixSystem &s) { return bound(s, P(s).PolynomialAnticommutatorMatrices, Pauli::PolynomialAnticommutatorMatrixIndex{L, n, poly(w, s, e)}); }}; }
    /** extension by the moments of the given words */
    inline Desc extended(const World &w, size_t L, std::vector<Raw> by) { std::string n; for (auto &x : by) { n += mc::show(x); } return {mc::cat("EMM", L, ":", n), [=](MatrixSystem &s) {
        auto &inf = dynamic_cast<Inflation::InflationMatrixSystem &>(s); auto list = std::make_shared<std::vector<symbol_name_t>>(); for (auto &x : by) { auto where = s.Symbols().where(w.seq(s.Context(), x)); if (!where.found()) { throw std::runtime_error("word not registered"); } list->push_back(where->Id()); }
        Bound b = bound(s, inf.ExtendedMatrices, Inflation::ExtendedMatrixIndex{L, std::span<const symbol_name_t>{*list}}); b.create = [list, c = b.create](Policy p) { return c(p); }; return b; }}; }
    inline Desc derived(ptrdiff_t src) { return {mc::cat("Der", src), [=](MatrixSystem &s) { return bound(s, dynamic_cast<Derived::DerivedMatrixSystem &>(s).DerivedMatrices, Derived::DerivedMatrixIndex{src}); }}; }
}
