// P27: names and printed forms, read back by a reader that knows nothing of how they were written.
#include "group_ref.h"
#include "matrix_ref.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/contextual_os.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/inflation/observable_variant_index.h"
#include "scenarios/locality/locality_operator_formatter.h"
#include "scenarios/pauli/indices/monomial_index.h"
#include "scenarios/pauli/indices/nearest_neighbour_index.h"
#include "scenarios/pauli/indices/polynomial_index.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"
#include "utilities/alphabetic_namer.h"
#include "utilities/format_factor.h"

using namespace Moment; using mc::Ctx; using mc::cat; using world::World; using world::Raw; using world::Elem; using world::Expr; using cd = std::complex<double>;
using Policy = Moment::Multithreading::MultiThreadPolicy;

namespace {
    // ------------------------------------------------------------------ reading printed sums back, the way a person would
    using Value = std::map<std::string, cd>;             // atom -> factor; "" is the number itself
    struct Reader {
        const std::string &s; size_t at = 0; bool bad = false;
        explicit Reader(const std::string &t) : s{t} {}
        char peek() const { return at < s.size() ? s[at] : '\0'; }
        void spaces() { while (peek() == ' ') { ++at; } }
        static void add(Value &a, const Value &b, cd f) { for (auto &[k, v] : b) { a[k] += f * v; } }
        std::optional<Value> factor() {
            if (peek() == '(') { ++at; Value v = sum(); if (peek() != ')') { bad = true; return std::nullopt; } ++at; return v; }
            if (peek() == '<') { const auto e = s.find('>', at); if (e == std::string::npos) { bad = true; return std::nullopt; } Value v{{s.substr(at + 1, e - at - 1), 1.0}}; at = e + 1; return v; }
            if (peek() == '#') { size_t e = at + 1; while (e < s.size() && std::isdigit(static_cast<unsigned char>(s[e]))) { ++e; } if (e == at + 1) { bad = true; return std::nullopt; } if (e < s.size() && s[e] == '*') { ++e; } Value v{{s.substr(at, e - at), 1.0}}; at = e; return v; }
            if (peek() == 'i') { ++at; return Value{{"", cd(0, 1)}}; }
            if (std::isdigit(static_cast<unsigned char>(peek()))) { size_t e = at; while (e < s.size() && (std::isdigit(static_cast<unsigned char>(s[e])) || s[e] == '.')) { ++e; } Value v{{"", std::stod(s.substr(at, e - at))}}; at = e; return v; }
            return std::nullopt;
        }
        Value term() {                                   // factors side by side, perhaps joined by a space or a star
            double sign = 1.0; if (peek() == '-') { sign = -1.0; ++at; }
            Value v{{"", sign}}; size_t n = 0;
            for (;;) {
                const size_t back = at; if (n) { if (peek() == ' ' || peek() == '*') { ++at; } }
                const auto f = factor(); if (bad) { return v; } if (!f) { at = back; break; }
                Value w; for (auto &[a, x] : v) for (auto &[b, y] : *f) { if (!a.empty() && !b.empty()) { bad = true; return v; } w[a.empty() ? b : a] += x * y; } v = w; ++n;
            }
            if (!n) { bad = true; } return v;
        }
        Value sum() {
            spaces(); Value v; double sign = 1.0; if (peek() == '+') { ++at; spaces(); } else if (peek() == '-' && at + 1 < s.size() && s[at + 1] == ' ') { ++at; spaces(); sign = -1.0; }
            add(v, term(), sign); if (bad) { return v; }
            for (;;) {
                const size_t back = at; spaces(); if (peek() == '+') { sign = 1.0; } else if (peek() == '-') { sign = -1.0; } else { at = back; return v; }
                ++at; spaces(); add(v, term(), sign); if (bad) { return v; }
            }
        }
        static std::optional<Value> read(const std::string &t) { Reader r{t}; Value v = r.sum(); if (r.bad || r.at != t.size()) { return std::nullopt; } return world::tidy(v); }
    };
    std::string text(const Value &v) { std::string o; for (auto &[k, f] : v) { o += cat(f, "[", k, "] "); } return o.empty() ? "0" : o; }

    const std::vector<cd> &factors() { static const std::vector<cd> f{1.0, -1.0, 2.0, -2.0, 0.5, -1.5, cd(0, 1), cd(0, -1), cd(0, 2), cd(0, -0.5), cd(1, 1), cd(1, -1), cd(-1, -1), cd(2, -0.5), cd(-0.25, 3), 12.0, -10.0, cd(0, 12)}; return f; }

    /** texts of different objects have to differ */
    struct Distinct {
        Ctx &c; std::string key; std::string known{}; std::unordered_map<std::string, std::string> seen{};   // known: key of clashes between the sign i and an operator called i
        void operator()(const std::string &printed, const std::string &object) {
            const auto [it, fresh] = seen.emplace(printed, object); ++c.states;
            if (!fresh && it->second != object) { c.fail(!known.empty() && (printed.starts_with("i") || printed.starts_with("-i")) ? known : key + " \"" + printed + "\"", cat("\"", printed, "\" stands for ", it->second, " and for ", object)); }
        }
    };

    // ------------------------------------------------------------------ alphabetic names
    void alphabet(Ctx &c, size_t n) {
        for (const bool upper : {true, false}) {
            const char a = upper ? 'A' : 'a', z = upper ? 'Z' : 'z'; std::string want(1, a); const AlphabeticNamer namer{upper};
            for (size_t id = 0; id < n; ++id) {
                ++c.states; const std::string got = namer(id);
                c.require(got == want, "alphabet", [&] { return cat("name ", id, " is ", got, ", should be ", want); });
                if (upper) { c.require(AlphabeticNamer::strlen(id) == want.size(), "alphabet length", [&] { return cat("length of name ", id, " is ", AlphabeticNamer::strlen(id), ", should be ", want.size()); }); }
                size_t k = want.size(); while (k > 0 && want[k - 1] == z) { want[k - 1] = a; --k; } if (k == 0) { want.insert(want.begin(), a); } else { ++want[k - 1]; }
            }
            c.require(AlphabeticNamer::index_to_name(27, upper) == namer(27), "alphabet shorthand", [&] { return std::string{}; });
        }
    }
    // ------------------------------------------------------------------ factors alone
    void factor_texts(Ctx &c) {
        std::vector<double> parts{0, 0.5, 1, 1.5, 2, 3, 10, 12, 0.25, 100, 0.001, 0.875}; { auto p = parts; for (double x : p) { if (x != 0) { parts.push_back(-x); } } }
        for (const bool scalar : {false, true}) for (const bool plus : {false, true}) {
            Distinct d{c, cat("factor scalar=", scalar, " plus=", plus)};
            for (double re : parts) for (double im : parts) {
                const cd f(re, im); if (f == 0.0) { continue; } std::stringstream ss; const bool space = format_factor(ss, f, scalar, plus); const std::string t = ss.str(); d(t, cat(f));
                for (const std::string join : {"", " ", "*"}) {
                    const std::string full = scalar ? t : t + (space ? join : "") + "<x>"; const auto v = Reader::read(full); ++c.traces;
                    c.require(v && *v == Value{{scalar ? "" : "x", f}}, "factor read back", [&] { return cat("factor ", f, " scalar=", scalar, " plus=", plus, " shown in \"", full, "\" reads ", v ? text(*v) : "nothing"); });
                }
                if (plus) { c.require(t.starts_with(" + ") || t.starts_with(" - "), "factor plus", [&] { return t; }); }
            }
        }
    }
    // ------------------------------------------------------------------ monomials from text
    void parse(Ctx &c, size_t len, const std::string &alphabet) {
        auto integer = [](const std::string &t, long &out) { size_t i = 0; while (i < t.size() && t[i] == ' ') { ++i; } bool neg = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; ++i; } if (i == t.size()) { return false; } out = 0; for (; i < t.size(); ++i) { if (!std::isdigit(static_cast<unsigned char>(t[i]))) { return false; } out = out * 10 + (t[i] - '0'); } if (neg) { out = -out; } return true; };
        auto real = [](const std::string &t, double &out) { size_t i = 0; while (i < t.size() && t[i] == ' ') { ++i; } const size_t from = i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { ++i; } size_t digits = 0; while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) { ++i; ++digits; } if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) { ++i; ++digits; } } if (!digits) { return false; }
            if (i < t.size() && t[i] == 'e') { ++i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { ++i; } const size_t s = i; while (i < t.size() && std::isdigit(static_cast<unsigned char>(t[i]))) { ++i; } if (i == s) { return false; } } if (i != t.size()) { return false; }
            const long double v = std::strtold(t.c_str() + from, nullptr); if (std::fabs(v) > 1.7976931348623157e308L || (v != 0 && std::fabs(v) < 2.3e-308L)) { return false; } out = double(v); return true; };
        mc::each_word_upto(alphabet.size(), len, [&](const std::vector<int> &w) {
            std::string s; for (int x : w) { s += alphabet[size_t(x)]; } ++c.states;
            bool ok = !s.empty(); double f = 1.0; long id = 0; bool conj = false; const auto hash = s.find('#');
            if (ok && hash != std::string::npos) { if (hash > 0) { ok = real(s.substr(0, hash), f); } std::string r = s.substr(hash + 1); if (r.ends_with('*')) { conj = true; r.pop_back(); } ok = ok && integer(r, id) && id >= 0; }
            else if (ok && s.find('.') != std::string::npos) { ok = real(s, f); id = 1; }
            else if (ok) { std::string r = s; if (r.ends_with('*')) { conj = true; r.pop_back(); } ok = integer(r, id); if (id < 0) { id = -id; f = -1.0; } }
            bool got = true; std::optional<Monomial> m; try { m.emplace(s); } catch (const Monomial::SymbolParseException &) { got = false; }
            if (!c.require(got == ok, "parse accepts", [&] { return cat("\"", s, "\" ", got ? "accepted" : "rejected"); }) || !ok) { return; }
            c.require(m->id == id && m->conjugated == conj && m->factor == cd(f), "parse value", [&] { return cat("\"", s, "\" read as ", m->factor, " #", m->id, m->conjugated ? "*" : ""); });
        });
    }
    void parse_long(Ctx &c) {
        auto rejected = [](const std::string &s) { try { Monomial m{s}; return false; } catch (const Monomial::SymbolParseException &) { return true; } };
        for (const std::string s : {"9999999999", "-9999999999", "#99999999999999", "1e999#1", "1.e9999", "nan.", "12345678901234567890123456789012345", "-2147483649", "1.0#-2", "#+", "- 1"}) { ++c.states; c.require(rejected(s), "parse long " + s, [&] { return s + " was accepted"; }); }
        for (const std::string s : {"2147483647", "-2147483647", "#2147483647*", "0.125#2147483647"}) { ++c.states; c.require(!rejected(s) && Monomial{s}.id == 2147483647, "parse long " + s, [&] { return s; }); }
    }

    // ------------------------------------------------------------------ operator names
    bool valid_name(const std::string &n) {
        auto letter = [](char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); };
        if (n.empty() || !letter(n[0])) { return false; } for (char x : n) { if (!letter(x) && !(x >= '0' && x <= '9') && x != '_' && x != '.' && x != '|') { return false; } } return true;
    }
    void single_names(Ctx &c, size_t len) {
        const std::string alphabet{"AzmZa09_.|*- \xc3\n@[`{/:;<>~", 26};
        mc::each_word_upto(alphabet.size(), len, [&](const std::vector<int> &w) {
            std::string s; for (int x : w) { s += alphabet[size_t(x)]; } ++c.states;
            const auto why = Algebraic::NameTable::validate_name(s); c.require(!why.has_value() == valid_name(s) && (!why || !why->empty()), "name accepted", [&] { return cat("\"", s, "\" ", why ? "refused: " + *why : "accepted"); });
        });
        for (int x = 0; x < 256; ++x) for (const std::string &s : {std::string(1, char(x)), std::string("a") + char(x), std::string("Z") + char(x) + "b"}) { ++c.states; c.require(!Algebraic::NameTable::validate_name(s) == valid_name(s), "name accepted", [&] { return cat("byte ", x, " in \"", s, "\""); }); }
    }
    std::string joined(const std::vector<std::string> &v) { std::string s = "{"; for (auto &x : v) { s += x + ", "; } return s + "}"; }
    using Mode = Algebraic::AlgebraicPrecontext::ConjugateMode;
    void name_tables(Ctx &c, const std::vector<std::string> &pool, size_t upto, size_t words, const std::string &known = "") {
        for (const auto mode : {Mode::SelfAdjoint, Mode::Bunched, Mode::Interleaved}) for (size_t ops = 0; ops <= upto; ++ops) mc::each_word_upto(pool.size(), upto, [&](const std::vector<int> &w) {
            std::vector<std::string> names; for (int x : w) { names.push_back(pool[size_t(x)]); } if (names.size() != ops && names.size() > 1) { return; }
            auto here = [&] { return cat(joined(names), " for ", ops, " operators, mode ", int(mode)); }; c.step(here()); ++c.states;
            const bool ok = names.size() == ops && std::all_of(names.begin(), names.end(), valid_name) && std::set<std::string>(names.begin(), names.end()).size() == ops;
            const Algebraic::AlgebraicPrecontext apc{static_cast<oper_name_t>(ops), mode}; std::unique_ptr<Algebraic::NameTable> t;
            try { t = std::make_unique<Algebraic::NameTable>(apc, std::vector<std::string>(names)); } catch (const std::invalid_argument &) { }
            if (!c.require((t != nullptr) == ok, "name table accepted", [&] { return here() + (t ? " accepted" : " refused"); }) || !ok) { return; }
            const size_t total = size_t(apc.num_operators); std::vector<std::string> want(total);
            for (size_t i = 0; i < ops; ++i) { if (mode == Mode::SelfAdjoint) { want[i] = names[i]; } else if (mode == Mode::Bunched) { want[i] = names[i]; want[i + ops] = names[i] + "*"; } else { want[2 * i] = names[i]; want[2 * i + 1] = names[i] + "*"; } }
            auto find = [&](const std::string &s) -> long { try { return long(t->find(s)); } catch (const std::invalid_argument &) { return -1; } };
            for (size_t i = 0; i < total; ++i) {
                std::stringstream ss; t->format_stream(ss, static_cast<oper_name_t>(i));
                c.require((*t)[i] == want[i] && ss.str() == want[i], "name shown", [&] { return cat(here(), ": operator ", i, " is shown as \"", (*t)[i], "\""); });
                c.require(find(want[i]) == long(i), "name found", [&] { return cat(here(), ": \"", want[i], "\" is found at ", find(want[i])); });
                if (mode == Mode::SelfAdjoint) { c.require(find(want[i] + "*") == long(i), "starred name found", [&] { return cat(here(), ": \"", want[i], "*\" is found at ", find(want[i] + "*")); }); }
            }
            for (auto &p : pool) for (const std::string &s : {p, p + "*", p + "**", "*" + p, std::string{}}) { const bool known = std::find(want.begin(), want.end(), s) != want.end() || (mode == Mode::SelfAdjoint && s.size() > 1 && s.back() == '*' && std::find(want.begin(), want.end(), s.substr(0, s.size() - 1)) != want.end()); c.require((find(s) >= 0) == known, "unknown name", [&] { return cat(here(), ": \"", s, "\" is found at ", find(s)); }); }
            std::stringstream out; t->format_stream(out, static_cast<oper_name_t>(total)); c.require(std::find(want.begin(), want.end(), out.str()) == want.end(), "name out of range", here);
            c.require(t->all_single() == std::all_of(names.begin(), names.end(), [](auto &n) { return n.size() == 1; }), "all single", here);
            // a context with these names: no two words look alike, with or without signs
            if (ops == 0) { return; }
            const Algebraic::AlgebraicContext ctx{apc, std::make_unique<Algebraic::NameTable>(apc, std::vector<std::string>(names)), false, mode == Mode::SelfAdjoint, {}};
            for (const bool braces : {false, true}) {
                Distinct d{c, cat("named words ", joined(names), " mode ", int(mode), " braces ", braces), known}, r{c, cat("named raw words ", joined(names), " mode ", int(mode))};
                std::stringstream z; ContextualOS zo{z, ctx}; zo.format_info.show_braces = braces; ctx.format_sequence(zo, OperatorSequence::Zero(ctx)); d(z.str(), "zero");
                mc::each_word_upto(total, words, [&](const std::vector<int> &x) { for (int sign = 0; sign < 4; ++sign) {
                    std::stringstream ss; ContextualOS os{ss, ctx}; os.format_info.show_braces = braces; ctx.format_sequence(os, lref::seq(ctx, x, sign)); d(ss.str(), cat("i^", sign, mc::show(x)));
                    if (sign == 0) { std::stringstream rs; ContextualOS ro{rs, ctx}; ro.format_info.show_braces = braces; sequence_storage_t raw; for (int o : x) { raw.emplace_back(static_cast<oper_name_t>(o)); } ctx.format_raw_sequence(ro, raw); r(rs.str(), mc::show(x)); }
                } });
            }
        });
    }

    // ------------------------------------------------------------------ words, monomials and polynomials of a scenario
    std::string show(const Context &ctx, const OperatorSequence &s, bool braces, const Locality::LocalityOperatorFormatter *f = nullptr) { std::stringstream ss; ContextualOS os{ss, ctx}; os.format_info.show_braces = braces; os.format_info.locality_formatter = f; ctx.format_sequence(os, s); return ss.str(); }

    std::vector<std::pair<std::string, const Locality::LocalityOperatorFormatter *>> formatters(const Context &ctx) {
        static const Locality::NaturalLOFormatter natural; static const Locality::TraditionalLOFormatter traditional;
        if (dynamic_cast<const Locality::LocalityContext *>(&ctx)) { return {{"", nullptr}, {" natural", &natural}, {" traditional", &traditional}}; } return {{"", nullptr}};
    }
    void words(Ctx &c, const World &w, size_t len) {
        const auto sys = w.make(); const Context &ctx = sys->Context(); const auto all = w.canonical(len);
        for (auto [fname, f] : formatters(ctx)) for (const bool braces : {false, true}) {
            Distinct d{c, cat("words ", w.name, fname, " braces ", braces)}; d(show(ctx, OperatorSequence::Zero(ctx), braces, f), "zero");
            std::vector<std::string> letter; for (int o = 0; o < w.ops; ++o) { letter.push_back(w.nf({o}) && w.nf({o})->first == Raw{o} ? show(ctx, w.seq(ctx, {o}), false, f) : std::string{}); }
            for (auto &x : all) for (int sign = 0; sign < 4; ++sign) {
                const std::string t = show(ctx, w.seq(ctx, x, sign), braces, f); d(t, cat("i^", sign, mc::show(x))); ++c.traces;
                size_t at = 0; bool in_order = true; for (int o : x) { const auto p = t.find(letter[size_t(o)], at); if (p == std::string::npos) { in_order = false; break; } at = p + letter[size_t(o)].size(); }
                c.require(in_order, "letters in order " + w.name, [&] { return cat(w.name, fname, ": ", mc::show(x), " is shown as ", t); });
                if (!braces && !f && sign == 0) { c.require(ctx.format_sequence(w.seq(ctx, x)) == t && w.seq(ctx, x).formatted_string() == t, "one text " + w.name, [&] { return t; }); }
            }
        }
        Distinct r{c, "raw words " + w.name}; mc::each_word_upto(size_t(w.ops), std::min<size_t>(len, w.ops > 6 ? 2 : 3), [&](const std::vector<int> &x) { sequence_storage_t raw; for (int o : x) { raw.emplace_back(static_cast<oper_name_t>(o)); } r(ctx.format_raw_sequence(raw), mc::show(x)); });
    }
    /** every part has to be in the text, in this order */
    bool has(const std::string &t, const std::vector<std::string> &parts) { size_t at = 0; for (auto &p : parts) { const auto q = t.find(p, at); if (q == std::string::npos) { return false; } at = q + p.size(); } return true; }
    void locality_letters(Ctx &c, const lref::Layout &l) {
        const Locality::LocalityContext ctx{lref::parties(l)}; const lref::Model m{l}; const Locality::NaturalLOFormatter nf; const Locality::TraditionalLOFormatter tf; const Locality::LocalityOperatorFormatter &natural = nf, &trad = tf; const std::string name = m.text();
        Distinct n{c, "operators, natural " + name}, t{c, "operators, traditional " + name}, mn{c, "outcomes, natural " + name}, mt{c, "outcomes, traditional " + name};
        for (auto &party : ctx.Parties) {
            Distinct pn{c, cat("outcomes, natural ", name, party.name)}, pt{c, cat("outcomes, traditional ", name, party.name)};
            for (auto &mmt : party.Measurements) for (oper_name_t o = 0; o < mmt.num_outcomes; ++o) {
                const std::string what = cat(party.name, ".", mmt.name, ".", o), num = cat(o), mi = cat(mmt.Index().mmt);
                const std::string a = natural.format(party, mmt, o), b = trad.format(party, mmt, o), x = natural.format(mmt, o), y = trad.format(mmt, o); mn(a, what); mt(b, what); pn(x, what); pt(y, what);
                c.require(has(a, {party.name, mmt.name, num}) && has(b, {party.name, num, "|", mi}), "operator letters " + name, [&] { return what + ": " + a + ", " + b; });
                // the digits after a letter are the outcome, those after the bar the measurement
                auto digits = [](const std::string &s, size_t i) { std::string d; while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) { d += s[i++]; } return d; };
                auto after_letters = [&](const std::string &s) { size_t i = 0; while (i < s.size() && !std::isdigit(static_cast<unsigned char>(s[i]))) { ++i; } return digits(s, i); };
                c.require(after_letters(a) == num && after_letters(b) == num && after_letters(x) == num && after_letters(y) == num, "operator outcome " + name, [&] { return what + ": " + a + ", " + b + ", " + x + ", " + y; });
                c.require(digits(b, b.find('|') + 1) == mi && (y.find('|') == std::string::npos || digits(y, y.find('|') + 1) == mi), "operator measurement " + name, [&] { return what + ": " + b + ", " + y; });
                if (o + 1 < mmt.num_outcomes) { const auto id = party.measurement_outcome(size_t(mmt.Index().mmt), size_t(o)); n(party.format_operator(natural, id), what); t(party.format_operator(trad, id), what); c.require(party.format_operator(natural, id) == a && party.format_operator(trad, id) == b, "operator text " + name, [&] { return what; }); }
            }
        }
        // lists of outcomes, implied ones included
        std::vector<Locality::PMOIndex> all; for (auto &party : ctx.Parties) for (auto &mmt : party.Measurements) for (oper_name_t o = 0; o < mmt.num_outcomes; ++o) { all.push_back(Locality::PMOIndex{mmt.Index(), size_t(o)}); }
        for (const Locality::LocalityOperatorFormatter *f : {&natural, &trad}) {
            Distinct d{c, cat("outcome lists ", f->name(), name)}; d(ctx.format_sequence(*f, std::span<const Locality::PMOIndex>{}, true), "zero");
            mc::each_word_upto(all.size(), all.size() > 10 ? 1 : 2, [&](const std::vector<int> &k) { std::vector<Locality::PMOIndex> list; for (int x : k) { list.push_back(all[size_t(x)]); } d(ctx.format_sequence(*f, list, false), mc::show(k)); });
        }
    }
    void pauli_letters(Ctx &c, int n) {
        const auto w = world::pauli(n, 1, false, false, false, 1, 2); const auto sys = w.make(); const Context &ctx = sys->Context();
        for (int q = 0; q < n; ++q) for (int p = 0; p < 3; ++p) { const std::string t = ctx.format_sequence(w.seq(ctx, {3 * q + p})); ++c.states; c.require(t == cat("XYZ"[p], q + 1), "pauli letter", [&] { return cat(3 * q + p, " shown as ", t); }); }
    }
    void inflation_letters(Ctx &c, const iref::Net &net, int infl) {
        const iref::Model m{net, infl}; auto ctx = Inflation::InflationContext{Inflation::CausalNetwork{net.obs, [&] { std::vector<std::set<oper_name_t>> v; for (auto &s : net.src) { std::set<oper_name_t> o; for (int x : s) { o.insert(static_cast<oper_name_t>(x)); } v.push_back(o); } return v; }()}, size_t(infl)};
        const std::string name = cat(net.name, "-x", infl); Distinct d{c, "inflation operators " + name};
        for (size_t o = 0; o < m.ops.size(); ++o) {
            const auto &op = m.ops[o]; const std::string t = ctx.format_sequence(lref::seq(ctx, std::vector<int>{int(o)})); d(t, cat(o));
            std::vector<std::string> parts{AlphabeticNamer::index_to_name(size_t(op.obs))}; if (net.obs[size_t(op.obs)] > 2) { parts.push_back(cat(op.out)); } if (infl > 1) { for (int i : op.idx) { parts.push_back(cat(i)); } }
            c.require(has(t, parts), "inflation letters " + name, [&] { return cat("operator ", o, " of ", name, " is shown as ", t); });
        }
        std::vector<Inflation::OVOIndex> all; std::vector<int> op_of; for (size_t ob = 0; ob < net.obs.size(); ++ob) { const auto &info = ctx.Observables()[ob]; for (size_t v = 0; v < info.variant_count; ++v) for (size_t o = 0; o < net.obs[ob]; ++o) { all.emplace_back(static_cast<oper_name_t>(ob), static_cast<oper_name_t>(v), static_cast<oper_name_t>(o)); } }
        Distinct l{c, "inflation outcome lists " + name};
        mc::each_word_upto(all.size(), all.size() > 12 ? 1 : 2, [&](const std::vector<int> &k) { std::vector<Inflation::OVOIndex> list; std::vector<std::string> parts; for (int x : k) { const auto &e = all[size_t(x)]; list.push_back(e); parts.push_back(AlphabeticNamer::index_to_name(size_t(e.observable_variant.observable))); } const auto t = ctx.format_sequence(list); l(t, mc::show(k)); c.require(has(t, parts), "inflation list " + name, [&] { return t; }); });
    }

    struct Format { const char *name; ContextualOS::DisplayAs as; ContextualOS::PrefactorJoin join; bool braces, hash; };
    const std::vector<Format> &formats() {
        using D = ContextualOS::DisplayAs; using J = ContextualOS::PrefactorJoin; static std::vector<Format> f;
        if (f.empty()) { for (const J j : {J::Space, J::Asterix, J::Nothing}) { f.push_back({"ids", D::SymbolIds, j, false, true}); for (const bool b : {true, false}) { f.push_back({b ? "operators <>" : "operators", D::Operators, j, b, true}); } } } return f;
    }
    /** what an atom stands for */
    struct Book {
        const World &w; const SymbolTable &st; std::map<std::string, Elem> atoms{};
        Book(const World &world, const Context &ctx, const SymbolTable &table, size_t len, const Locality::LocalityOperatorFormatter *f) : w{world}, st{table} { for (auto &x : w.canonical(len)) { std::string t = show(ctx, w.seq(ctx, x), true, f); if (t.size() > 2 && t.front() == '<') { t = t.substr(1, t.size() - 2); } else { continue; } atoms[t] = w.word(x); } }
        std::optional<Expr> read(const std::string &t) const {
            const auto v = Reader::read(t); if (!v) { return std::nullopt; } Expr o;
            for (auto &[a, f] : *v) {
                Expr e;
                if (a.empty()) { e = w.expect(w.word({}, f)); }
                else if (a[0] == '#') { const bool cj = a.back() == '*'; const long id = std::stol(a.substr(1)); if (id < 0 || id >= long(st.size())) { return std::nullopt; } e = w.expr(st, Monomial{id, f, cj}); }
                else { const auto it = atoms.find(a); if (it == atoms.end()) { return std::nullopt; } e = w.expect(World::scale(it->second, f)); }
                for (auto &[k, x] : e) { o[k] += x; }
            }
            return world::tidy(o);
        }
    };
    void polynomials(Ctx &c, const World &w, size_t len, size_t pair_factors) {
        const auto sys = w.make(); sys->generate_dictionary(len); const Context &ctx = sys->Context(); const SymbolTable &st = sys->Symbols();
        std::vector<symbol_name_t> ids; for (size_t i = 1; i < st.size() && ids.size() < 7; ++i) { ids.push_back(symbol_name_t(i)); } for (size_t i = 7; i < st.size() && ids.size() < 10; ++i) { if (!st[symbol_name_t(i)].is_hermitian()) { ids.push_back(symbol_name_t(i)); } }
        std::vector<Polynomial> all; all.emplace_back(); std::vector<Monomial> some;
        for (auto id : ids) for (const bool cj : {false, true}) { if (cj && (st[id].is_hermitian() || st[id].is_antihermitian())) { continue; } size_t n = 0; for (auto f : factors()) { all.emplace_back(Monomial{id, f, cj}); if (n++ < pair_factors) { some.emplace_back(id, f, cj); } } }
        const auto &pf = sys->polynomial_factory(); for (size_t i = 0; i < some.size(); ++i) for (size_t j = i + 1; j < some.size(); ++j) { if (some[i].id != some[j].id || some[i].conjugated != some[j].conjugated) { all.push_back(pf({some[i], some[j]})); } }
        for (size_t i = 0; i + 2 < some.size(); i += pair_factors) { Polynomial::storage_t s{some[i], some[i + 1 < some.size() ? (i + pair_factors + 1) % some.size() : 0]}; s.push_back(some[(i + 2 * pair_factors + 2) % some.size()]); all.push_back(pf(std::move(s))); }
        auto object = [&](const Polynomial &p) { std::string s; for (auto &m : p) { s += cat(m.factor, "#", m.id, m.conjugated ? "* " : " "); } return s.empty() ? "0" : s; };
        for (auto [fname, lf] : formatters(ctx)) {
            const Book book{w, ctx, st, 2 * len, lf};
            for (auto &fm : formats()) {
                if (lf && fm.as == ContextualOS::DisplayAs::SymbolIds) { continue; }
                StringFormatContext sfc{ctx, st}; sfc.format_info.display_symbolic_as = fm.as; sfc.format_info.prefactor_join = fm.join; sfc.format_info.show_braces = fm.braces; sfc.format_info.hash_before_symbol_id = fm.hash; sfc.format_info.locality_formatter = lf;
                const std::string key = cat("polynomials ", w.name, fname, " ", fm.name, " join ", int(fm.join)); Distinct d{c, key};
                for (auto &p : all) {
                    const std::string t = p.as_string(sfc); d(t, object(p)); ++c.traces; c.step("%s", key.c_str());
                    if (p.size() == 1) { c.require((*p.begin()).as_string(sfc) == t, key + " monomial", [&] { return cat(object(p), " is shown as ", t, " or ", (*p.begin()).as_string(sfc)); });
                        auto later = sfc; later.format_info.first_in_polynomial = false; const std::string u = (*p.begin()).as_string(later); c.require((u.starts_with(" + ") || u.starts_with(" - ")) && (t.starts_with("-") ? u == " - " + t.substr(1) || u == " + " + t : u == " + " + t), key + " later term", [&] { return cat(object(p), " is shown as ", t, " or ", u); }); }
                    if (fm.as == ContextualOS::DisplayAs::Operators && !fm.braces) { continue; }
                    const auto v = book.read(t); const Expr want = w.expr(st, p); c.require(v && world::eq(*v, want), key + " read back", [&] { return cat(w.name, ": ", object(p), " is shown as \"", t, "\", which reads ", v ? world::text(*v) : "nothing", ", should be ", world::text(want)); });
                }
            }
        }
        // without a context: plain streams
        const Book book{w, ctx, st, 0, nullptr}; Distinct d{c, "plain polynomials " + w.name}, dp{c, "plain polynomials with plus " + w.name};
        for (auto &p : all) for (const bool plus : {false, true}) {
            std::stringstream ss; if (plus) { ss << std::showpos; } ss << std::showbase; const auto before = ss.flags(); ss << p; const std::string t = ss.str(); (plus ? dp : d)(t, object(p));
            const auto v = book.read(t); c.require(v && world::eq(*v, w.expr(st, p)) && ss.flags() == before, "plain read back " + w.name, [&] { return cat(object(p), " is shown as \"", t, "\""); });
            c.require(!plus || t.starts_with(" + ") || t.starts_with(" - "), "plain plus " + w.name, [&] { return t; });
            if (p.size() == 1) { std::stringstream sm; sm.flags(before); sm << *p.begin(); c.require(sm.str() == t && sm.flags() == before, "plain monomial " + w.name, [&] { return sm.str() + " or " + t; }); }
        }
        // sums of words, before they are moments
        const Book raws{w, ctx, st, len, nullptr}; const auto ws = w.canonical(len); Distinct dr{c, "word sums " + w.name}; std::vector<std::pair<Raw, cd>> terms; for (size_t i = 0; i < ws.size() && i < 6; ++i) { size_t n = 0; for (auto f : factors()) { if (n++ < pair_factors + 6) { terms.emplace_back(ws[i], f); } } }
        auto look = [&](const std::vector<std::pair<Raw, cd>> &ts, int sign) { RawPolynomial rp; Elem e; std::string ob; for (auto &[x, f] : ts) { rp.emplace_back(w.seq(ctx, x, sign), f); e = World::add(e, w.word(x, f * pref::iphase(sign))); ob += cat(f, mc::show(x), " "); }
            const std::string t = rp.to_string(ctx); const auto v = Reader::read(t); Elem got; bool ok = v.has_value(); if (ok) { for (auto &[a, f] : *v) { if (a.empty() || a == "I") { got = World::add(got, w.word({}, f)); } else if (auto it = raws.atoms.find(a); it != raws.atoms.end()) { got = World::add(got, it->second, f); } else { ok = false; } } }
            ++c.traces; c.require(ok && world::eq(got, e), "word sum read back " + w.name, [&] { return cat(w.name, ": ", ob, "with sign i^", sign, " is shown as \"", t, "\""); }); dr(t, cat(world::text(e))); };
        look({}, 0); for (auto &a : terms) { look({a}, 0); for (auto &b : terms) { if (a.first < b.first) { look({a, b}, 0); } } }
    }
    bool near(const Expr &a, const Expr &b) { Expr d = a; for (auto &[k, v] : b) { d[k] -= v; } for (auto &[k, v] : d) { if (std::abs(v) > 1e-4) { return false; } } return true; }   // six digits are printed
    // ------------------------------------------------------------------ symmetrised systems print through the system they came from
    void derived(Ctx &c, const World &w, const gref::Subst &gen, size_t L, const std::string &name) {
        std::shared_ptr<MatrixSystem> base = w.make(); const Context &ctx = base->Context(); base->generate_dictionary(L); const auto letters = gref::basis(ctx, 1);
        std::vector<Symmetrized::repmat_t> g{gref::sparse(*gref::matrix(w, gen, letters))}; auto grp = std::make_unique<Symmetrized::Group>(ctx, std::make_unique<Symmetrized::Representation>(1, Symmetrized::Group::dimino_generation(g, 60)));
        Symmetrized::SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(base), std::move(grp), L, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, Policy::Never);
        const auto &map = sms.map(); const auto &st = sms.Symbols(); const Book book{w, ctx, base->Symbols(), 2 * L, nullptr}; const std::string key = "derived " + name; c.step(key);
        for (const auto join : {ContextualOS::PrefactorJoin::Space, ContextualOS::PrefactorJoin::Asterix, ContextualOS::PrefactorJoin::Nothing}) {
            StringFormatContext sfc{sms.Context(), st}; sfc.format_info.display_symbolic_as = ContextualOS::DisplayAs::Operators; sfc.format_info.hash_before_symbol_id = true; sfc.format_info.prefactor_join = join;
            for (size_t i = 1; i < st.size(); ++i) for (const bool cj : {false, true}) { if (cj && i == 1) { continue; } for (auto f : factors()) for (int extra = 0; extra < 3; ++extra) {
                const symbol_name_t id(static_cast<long>(i)); Expr want = i == 1 ? w.expect(w.word({})) : w.expr(base->Symbols(), map.inverse(id)); if (cj) { want = w.conj(want); } for (auto &[k, v] : want) { v *= f; }
                std::vector<Monomial> data{Monomial{id, f, cj}}; if (extra) { if (i < 2) { continue; } for (auto &[k, v] : w.expect(w.word({}, 2.0))) { want[k] += v; } if (extra == 1) { data.emplace_back(1, 2.0); } else { data.insert(data.begin(), Monomial{1, 2.0}); } }
                want = world::tidy(want); const Polynomial p{Polynomial::storage_t(data.begin(), data.end())}; const std::string t = p.as_string(sfc); ++c.traces; ++c.states;
                const auto v = book.read(t); c.require(v && near(*v, want), key + " read back", [&] { return cat(name, ": ", f, "#", i, cj ? "*" : "", extra ? " and 2" : "", " is shown as \"", t, "\", which reads ", v ? world::text(*v) : "nothing", ", should be ", world::text(want)); });
            } }
        }
    }
    void derived_world(Ctx &c, const World &w, size_t L, bool signs, size_t n) {
        const auto autos = gref::automorphisms(w, 2 * L > 3 ? 3 : 2 * L, signs, false); size_t k = 0;
        for (auto &a : autos) { if (k++ >= n) { break; } if (gref::closure(w, {a}, 24).empty()) { continue; } derived(c, w, a, L, cat(w.name, " ", gref::text(a), " L=", L)); }
    }

    // ------------------------------------------------------------------ descriptions of matrices
    void descriptions(Ctx &c, const World &w, size_t len) {
        const auto sys = w.make(); sys->generate_dictionary(len + 1); const Context &ctx = sys->Context(); Distinct d{c, "descriptions " + w.name}; const auto ws = w.canonical(len);
        const auto &pf = sys->polynomial_factory(); std::vector<Polynomial> polys; for (size_t i = 2; i < sys->Symbols().size() && i < 6; ++i) for (auto f : {cd(1), cd(-2), cd(0, 1)}) { polys.push_back(pf({Monomial{symbol_name_t(i), f}, Monomial{1, 1.0}})); polys.push_back(pf({Monomial{symbol_name_t(i), f}, Monomial{symbol_name_t(i) + 1 < symbol_name_t(sys->Symbols().size()) ? symbol_name_t(i) + 1 : symbol_name_t(2), 3.0}})); }
        std::set<std::string> done; auto poly_key = [](const Polynomial &p) { std::string s; for (auto &m : p) { s += cat(m.factor, "#", m.id, m.conjugated, " "); } return s; };
        for (size_t level = 0; level < 13; ++level) {
            d(MomentMatrixIndex{level}.to_string(*sys), cat("moment ", level));
            for (auto &x : ws) for (int sign = 0; sign < 4; ++sign) { d(LocalizingMatrixIndex{level, w.seq(ctx, x, sign)}.to_string(*sys), cat("localizing ", level, " i^", sign, mc::show(x))); }
            for (auto &p : polys) { if (p.size() > 1) { d(PolynomialLocalizingMatrixIndex{level, p}.to_string(*sys), cat("polynomial ", level, poly_key(p))); } }
        }
        if (const auto *ps = dynamic_cast<const Pauli::PauliMatrixSystem *>(sys.get())) {
            Distinct pd{c, "Pauli descriptions " + w.name};
            for (size_t level = 0; level < 12; ++level) for (size_t nn = 0; nn < 12; ++nn) {
                if (level == 0 && nn > 0) { continue; } const Pauli::NearestNeighbourIndex ix{level, nn}; const std::string at = cat(" ", ix.moment_matrix_level, ",", ix.neighbours);
                pd(Pauli::MomentMatrixIndex{level, nn}.to_string(), "moment" + at);
                for (auto &x : ws) for (int sign = 0; sign < 4; ++sign) { const auto s = w.seq(ctx, x, sign); const std::string what = cat(at, " i^", sign, mc::show(x));
                    pd(Pauli::LocalizingMatrixIndex{ix, s}.to_string(*ps), "localizing" + what); pd(Pauli::CommutatorMatrixIndex{ix, s}.to_string(*ps), "commutator" + what); pd(Pauli::AnticommutatorMatrixIndex{ix, s}.to_string(*ps), "anticommutator" + what); }
                for (auto &p : polys) { if (p.size() < 2) { continue; } const std::string what = at + " " + poly_key(p);
                    pd(Pauli::PolynomialLocalizingMatrixIndex{ix, p}.to_string(*sys), "plocalizing" + what); pd(Pauli::PolynomialCommutatorMatrixIndex{ix, p}.to_string(*sys), "pcommutator" + what); pd(Pauli::PolynomialAnticommutatorMatrixIndex{ix, p}.to_string(*sys), "panticommutator" + what); }
            }
        }
    }
}

void mc::register_cases(Registry &reg) {
    reg.add("alphabet", [](Ctx &c) { alphabet(c, c.bound<size_t>(520000, 13000000)); }, 900);
    reg.add("factors", [](Ctx &c) { factor_texts(c); });
    reg.add("parse", [](Ctx &c) { parse(c, c.bound<size_t>(5, 6), "0129-#*.e +"); parse_long(c); }, 900);
    reg.add("names", [](Ctx &c) { single_names(c, c.bound<size_t>(3, 4)); }, 900);
    reg.add("name-tables", [](Ctx &c) { name_tables(c, {"a", "b", "ab", "a0", "A", "", "a*", "0a", "a_", "X1", "X11", "j", "a;b"}, c.bound<size_t>(2, 3), c.bound<size_t>(3, 3)); }, 900);
    reg.add("name-tables-3", [](Ctx &c) { name_tables(c, {"a", "aa", "x.y", "b", "X1"}, 3, c.bound<size_t>(2, 3)); }, 900);
    reg.add("name-tables-i", [](Ctx &c) { name_tables(c, {"i", "a"}, 2, 2, "operator called i"); }, 900);
    std::vector<std::pair<World, size_t>> worlds;
    for (auto &l : std::vector<lref::Layout>{{{2}}, {{2, 2}, {2, 2}}, {{3, 2}}, {{2}, {2}, {3}}, {{12}, {2}}}) { worlds.emplace_back(world::locality(l, 1, 2), l[0][0] > 3 ? 1 : 2); }
    for (auto &a : aref::algebras()) { worlds.emplace_back(world::algebra(a, 1, 2), 2); } for (auto &a : aref::signed_algebras()) { worlds.emplace_back(world::algebra(a, 1, 2), 2); }
    for (auto [h, wd] : std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {3, 1}, {2, 2}}) { worlds.emplace_back(world::pauli(h, wd, wd > 1, false, false, 1, 2), 2); }
    worlds.emplace_back(world::pauli(3, 1, false, true, true, 1, 2), 2);
    for (auto &nt : {"bell", "one-source", "triangle", "chain3", "generic"}) { worlds.emplace_back(world::inflation(world::net(nt), std::string(nt) == "triangle" ? 1 : 2, 1, 2), 2); }
    for (auto &[w, len] : worlds) {
        reg.add("words " + w.name, [w = w, len = len](Ctx &c) { words(c, w, w.ops > 8 ? len : c.bound<size_t>(len + 1, len + 2)); }, 600);
        reg.add("polynomials " + w.name, [w = w, len = len](Ctx &c) { polynomials(c, w, len, c.bound<size_t>(4, 10)); }, 900);
        reg.add("descriptions " + w.name, [w = w, len = len](Ctx &c) { descriptions(c, w, len); }, 600);
    }
    reg.add("locality-letters", [](Ctx &c) { lref::each_layout(3, 3, 3, 1, c.bound(6, 9), [&](const lref::Layout &l) { locality_letters(c, l); }); locality_letters(c, {{13, 2}}); locality_letters(c, {std::vector<int>(12, 2), {2}}); locality_letters(c, {{12}, {11}}); }, 600);
    reg.add("pauli-letters", [](Ctx &c) { for (int n = 1; n <= 40; ++n) { pauli_letters(c, n); } }, 600);
    reg.add("inflation-letters", [](Ctx &c) { for (auto &nt : iref::nets()) for (int l = 1; l <= 3; ++l) { if (iref::Model(nt, l).ops.size() > 40) { continue; } inflation_letters(c, nt, l); }
        inflation_letters(c, iref::Net{"many", std::vector<size_t>(30, 2), {}}, 1); inflation_letters(c, iref::Net{"wide", {12}, {}}, 1); inflation_letters(c, iref::Net{"tall", {2, 3}, {{0, 1}, {0}}}, 12); }, 600);
    reg.add("derived", [](Ctx &c) {
        for (auto &a : aref::algebras()) { const int n = aref::Model(a).n; if (n <= 4) { derived_world(c, world::algebra(a, 1, 2), 2, true, c.bound<size_t>(4, 20)); } }
        for (auto &a : aref::signed_algebras()) { derived_world(c, world::algebra(a, 1, 2), 2, true, c.bound<size_t>(4, 20)); }
        for (auto &l : std::vector<lref::Layout>{{{2}, {2}}, {{2, 2}}, {{2, 2}, {2, 2}}}) { derived_world(c, world::locality(l, 1, 2), 2, false, c.bound<size_t>(4, 20)); }
        derived_world(c, world::pauli(1, 1, false, false, false, 1, 2), 1, true, c.bound<size_t>(20, 48));
    }, 900);
}
