// Texts for objects of the library, in terms of words rather than numbers, and enumeration of small programs of several threads.
#pragma once
#include "mt.h"
#include "matrix_ref.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "tensor/tensor.h"
#include <functional>

using namespace world;
using Policy = Moment::Multithreading::MultiThreadPolicy;
namespace {
    inline std::string word(const OperatorSequence &s) { return mc::cat("i^", int(s.get_sign()), mc::show(s)); }
    /** what a symbol stands for, independently of its number */
    inline std::string meaning(const MatrixSystem &sys, symbol_name_t id) {
        const auto &s = sys.Symbols()[id];
        std::string t = s.is_hermitian() ? (s.is_antihermitian() ? "0" : "h") : s.is_antihermitian() ? "a" : "c";
        if (auto *inf = dynamic_cast<const Inflation::InflationMatrixSystem *>(&sys); inf && size_t(id) < inf->Factors().size()) {
            std::multiset<std::string> f; for (auto &q : inf->Factors()[size_t(id)].canonical.sequences) { f.insert(word(q)); } for (auto &x : f) { t += "." + x; } }
        if (s.has_sequence()) { t += ":" + word(s.sequence()); } else if (!dynamic_cast<const Inflation::InflationMatrixSystem *>(&sys)) { t += mc::cat("#", id); }
        return t;
    }
    inline std::string number(cd z) { auto r = [](double x) { x = std::round(x * 1e9) / 1e9; return x == 0 ? 0.0 : x; }; return mc::cat("(", r(z.real()), ",", r(z.imag()), ")"); }
    /** everything about a matrix that a user can see, in terms of words */
    inline std::string picture(const MatrixSystem &sys, const SymbolicMatrix &m) {
        std::stringstream ss; ss << m.Dimension() << (m.Hermitian() ? " hermitian" : "") << (m.HasComplexBasis() ? " complex-basis" : "") << (m.HasComplexCoefficients() ? " complex-coefficients" : "") << "\n";
        for (size_t i = 0; i < m.Dimension(); ++i) { for (size_t j = 0; j < m.Dimension(); ++j) {
            std::multiset<std::string> e; for (auto &[id, f, cj] : mref::terms(m, i, j)) { e.insert(number(f) + meaning(sys, id) + (cj ? "*" : "")); }
            for (auto &x : e) { ss << x << " "; } ss << "; "; } ss << "\n"; }
        std::set<std::string> inc; for (auto id : m.IncludedSymbols()) { inc.insert(meaning(sys, id)); } for (auto &x : inc) { ss << x << " "; }
        ss << m.RealBasisIndices().size() << "/" << m.ImaginaryBasisIndices().size() << "\n";
        return ss.str();
    }
    inline std::string symbols(const MatrixSystem &sys) {
        std::multiset<std::string> all; for (size_t i = 0; i < sys.Symbols().size(); ++i) { all.insert(meaning(sys, symbol_name_t(i))); }
        std::string t; for (auto &x : all) { t += x + " "; } return t;
    }

    /** All ways to give each of the threads its number of operations, out of 0..n-1 (threads with as many operations are interchangeable). */
    template<class F> void programs(const std::vector<size_t> &ops, size_t n, F f) {
        std::vector<std::vector<size_t>> prog(ops.size()); std::function<void(size_t)> rec = [&](size_t t) { while (t < ops.size() && prog[t].size() == ops[t]) { ++t; }
            if (t == ops.size()) { for (size_t i = 0; i + 1 < ops.size(); ++i) { if (ops[i] == ops[i + 1] && prog[i + 1] < prog[i]) { return; } } f(prog); return; }
            for (size_t d = 0; d < n; ++d) { prog[t].push_back(d); rec(t); prog[t].pop_back(); } };
        rec(0); }
}
