// Reference model of symmetry groups: group elements are letter substitutions; words are mapped letter by letter.
#pragma once
#include <Eigen/Dense>
#include "worlds.h"
#include "dictionary/operator_sequence_generator.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/representation_mapper.h"

namespace gref {
    using namespace Moment;
    using namespace Moment::Symmetrized;
    using world::Raw; using world::Elem; using world::World; using world::cd;
    using Mat = Eigen::MatrixXd;

    /** images of the letters (as elements of the algebra) */
    using Subst = std::vector<Elem>;

    inline repmat_t sparse(const Mat &m) { repmat_t o = m.sparseView(); return o; }
    inline bool same(const Mat &a, const Mat &b, double eps = 1e-9) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() < eps; }
    inline std::string text(const Mat &m) { std::stringstream ss; ss << m.format(Eigen::IOFormat(6, 0, ",", ";", "", "", "[", "]")); return ss.str(); }

    /** basis of letters of osg(1): identity then the non-zero letters */
    inline std::vector<Raw> basis(const Context &ctx, size_t L) { std::vector<Raw> o; for (const auto &s : ctx.operator_sequence_generator(L)) { o.push_back(World::raw(s)); } return o; }

    inline Elem image(const World &w, const Subst &s, const Raw &word) { Elem e{{Raw{}, 1.0}}; for (int o : word) { e = w.mul(e, s[size_t(o)]); } return e; }
    inline Elem image(const World &w, const Subst &s, const Elem &e) { Elem o; for (auto &[x, c] : e) { for (auto &[y, d] : image(w, s, x)) { o[y] += c * d; } } return world::tidy(o); }

    /** matrix on a list of words; nothing if an image leaves the span or is not real */
    inline std::optional<Mat> matrix(const World &w, const Subst &s, const std::vector<Raw> &basis) {
        std::map<Raw, int> pos; for (auto &b : basis) { pos.emplace(b, int(pos.size())); }
        Mat m = Mat::Zero(int(basis.size()), int(basis.size()));
        for (int c = 0; c < int(basis.size()); ++c) {
            for (auto &[x, f] : image(w, s, basis[size_t(c)])) { auto it = pos.find(x); if (it == pos.end() || std::abs(f.imag()) > 1e-9) { return std::nullopt; } m(it->second, c) += f.real(); }
        }
        return m;
    }
    /** does the substitution respect products (of words up to the given total length) and conjugation? */
    inline bool automorphism(const World &w, const Subst &s, const std::vector<Raw> &words, size_t upto) {
        for (auto &u : words) {
            if (!world::eq(image(w, s, w.conj(Elem{{u, 1.0}})), w.conj(image(w, s, u)))) { return false; }
            for (int o = 0; o < w.ops; ++o) { if (u.size() + 1 > upto) { continue; }
                Raw x = u; x.push_back(o);
                if (!world::eq(image(w, s, w.word(x)), image(w, s, x))) { return false; }
            }
        }
        return true;
    }
    inline Subst compose(const World &w, const Subst &a, const Subst &b) { Subst o; for (auto &e : b) { o.push_back(image(w, a, e)); } return o; }   // a after b
    inline bool same(const Subst &a, const Subst &b) { for (size_t i = 0; i < a.size(); ++i) { if (!world::eq(a[i], b[i])) { return false; } } return true; }
    /** closure by breadth-first search; empty if it exceeds the bound */
    inline std::vector<Subst> closure(const World &w, const std::vector<Subst> &gens, size_t bound) {
        Subst id; for (int o = 0; o < w.ops; ++o) { id.push_back(w.word({o})); }
        std::vector<Subst> out{id};
        for (size_t i = 0; i < out.size(); ++i) for (auto &g : gens) {
            Subst n = compose(w, out[i], g); bool known = false; for (auto &e : out) { if (same(e, n)) { known = true; break; } }
            if (!known) { out.push_back(n); if (out.size() > bound) { return {}; } }
        }
        return out;
    }
    inline std::vector<Mat> closure(const std::vector<Mat> &gens, size_t bound) {
        std::vector<Mat> out{Mat::Identity(gens[0].rows(), gens[0].cols())};
        for (size_t i = 0; i < out.size(); ++i) for (auto &g : gens) {
            Mat n = out[i] * g; bool known = false; for (auto &e : out) { if (same(e, n)) { known = true; break; } }
            if (!known) { out.push_back(n); if (out.size() > bound) { return {}; } }
        }
        return out;
    }
    /** every substitution letter -> +-letter' or 1 - letter' over permutations of the letters */
    template<class F> void each_signed_permutation(const World &w, const std::vector<int> &letters, bool signs, bool flips, F f) {
        std::vector<int> p = letters; std::sort(p.begin(), p.end()); const std::vector<int> from = p;
        const int kinds = 1 + (signs ? 1 : 0) + (flips ? 1 : 0);
        do {
            mc::each_word(size_t(kinds), p.size(), [&](const std::vector<int> &k) {
                Subst s; for (int o = 0; o < w.ops; ++o) { s.push_back(w.word({o})); }
                for (size_t i = 0; i < p.size(); ++i) {
                    const int kind = k[i] == 0 ? 0 : (k[i] == 1 && signs) ? 1 : 2;
                    Elem e = w.word({p[i]}, kind == 0 ? 1.0 : -1.0); if (kind == 2) { e[Raw{}] += 1.0; }
                    s[size_t(from[i])] = world::tidy(e);
                }
                f(s);
            });
        } while (std::next_permutation(p.begin(), p.end()));
    }
    /** all automorphisms of that form */
    inline std::vector<Subst> automorphisms(const World &w, size_t upto, bool signs, bool flips) {
        std::vector<int> letters; for (int o = 0; o < w.ops; ++o) { if (const auto &n = w.nf({o}); n && n->first == Raw{o}) { letters.push_back(o); } }
        const auto words = w.canonical(upto - 1); std::vector<Subst> out;
        each_signed_permutation(w, letters, signs, flips, [&](const Subst &s) { if (automorphism(w, s, words, upto)) { out.push_back(s); } });
        return out;
    }
    inline std::string text(const Subst &s) { std::stringstream ss; ss << "{"; for (size_t i = 0; i < s.size(); ++i) { ss << i << "->" << world::text(s[i]) << "; "; } ss << "}"; return ss.str(); }
}
