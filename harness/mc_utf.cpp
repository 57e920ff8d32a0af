// P22: text conversion, over every code point, every short sequence of boundary code points and every short malformed string.
#include "mc.h"
#include "utilities/utf_conversion.h"
#include <functional>

using namespace Moment;

namespace {
    using Wide = std::basic_string<char16_t>;
    const std::vector<unsigned> edges = {0, 1, 'A', 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xff, 0x100, 0x3ff, 0x7fe, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff,
                                         0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xbffff, 0xc0000, 0xfffff, 0x100000, 0x10fc00, 0x10ffff};
    const std::vector<unsigned> few = {0, 'A', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x2a5c3, 0xfffff, 0x100000, 0x10ffff};

    /** The encoding forms, straight from their definition tables. */
    void put8(std::string &s, unsigned u) {
        if (u < 0x80) { s += char(u); }
        else if (u < 0x800) { s += char(192 + u / 64); s += char(128 + u % 64); }
        else if (u < 0x10000) { s += char(224 + u / 4096); s += char(128 + u / 64 % 64); s += char(128 + u % 64); }
        else { s += char(240 + u / 262144); s += char(128 + u / 4096 % 64); s += char(128 + u / 64 % 64); s += char(128 + u % 64); }
    }
    void put16(Wide &s, unsigned u) { if (u < 0x10000) { s += char16_t(u); } else { u -= 0x10000; s += char16_t(0xd800 + u / 1024); s += char16_t(0xdc00 + u % 1024); } }
    template<class S> std::string hex(const S &s) { std::string o = "["; char b[12]; for (auto ch : s) { snprintf(b, sizeof b, "%x ", unsigned(std::make_unsigned_t<std::remove_cv_t<decltype(ch)>>(ch))); o += b; } return o + "]"; }
    std::string hex(const std::u16string &s) { std::string o = "["; char b[12]; for (auto ch : s) { snprintf(b, sizeof b, "%x ", unsigned(ch)); o += b; } return o + "]"; }

    const char *plane(const std::vector<unsigned> &us) { unsigned m = 0; for (auto u : us) { m = std::max(m, u); } return m < 0x7f ? "7-bit" : m == 0x7f ? "delete" : m < 0x800 ? "two-byte" : m < 0x10000 ? "three-byte" : m < 0x100000 ? "planes 1-15" : "plane 16"; }

    void valid(mc::Ctx &c, const std::vector<unsigned> &us) {
        ++c.states; std::string n; Wide w; for (auto u : us) { put8(n, u); put16(w, u); }
        auto kind = std::string(plane(us)); auto show = [&] { std::string s; char b[12]; for (auto u : us) { snprintf(b, sizeof b, "U+%04X ", u); s += b; } return s; };
        const auto to8 = UTF16toUTF8Convertor::convert(w); const auto to16 = UTF8toUTF16Convertor::convert(n);
        c.require(to8 == n, "to utf-8: " + kind, [&] { return show() + "gives " + hex(to8) + " want " + hex(n); });
        c.require(to16 == w, "to utf-16: " + kind, [&] { return show() + "gives " + hex(to16) + " want " + hex(w); });
        c.require(UTF16toUTF8Convertor::size_in_utf8(w) == n.size(), "utf-8 size: " + kind, show);
        c.require(UTF8toUTF16Convertor::size_in_utf16(n) == w.size(), "utf-16 size: " + kind, show);
        c.require(UTF8toUTF16Convertor{}(to8) == w && UTF16toUTF8Convertor{}(to16) == n, "round trip: " + kind, show);
        const auto a8 = UTF16toUTF8Convertor::convert_as_ascii(w); const auto a16 = UTF8toUTF16Convertor::convert_as_ascii(n);
        bool ok = a8.size() == w.size() && a16.size() == n.size();
        for (size_t i = 0; ok && i < w.size(); ++i) { ok = (w[i] < 0x80 ? a8[i] == char(w[i]) : !(a8[i] & 0x80)); }
        for (size_t i = 0; ok && i < n.size(); ++i) { ok = (!(n[i] & 0x80) ? a16[i] == char16_t(n[i]) : a16[i] < 0x80); }
        c.require(ok, "7-bit: " + kind, show);
    }

    /** Whatever the input, only the given buffers are touched. Text long enough to sit in a heap block of exactly its own
     *  size lets the sanitizer see each stray access; the one cell it cannot see (the terminator) is varied instead. */
    template<class S, class F, class G> void safe(mc::Ctx &c, const char *what, const S &tail, typename S::value_type odd, F convert, G size) {
        ++c.states;
        for (size_t pad : {size_t(0), size_t(40)}) {
            S in(pad, typename S::value_type('a')); in += tail; in.shrink_to_fit();
            if (pad == 0) { in.reserve(64); }
            auto out = convert(in); const size_t said = size(in);
            c.require(out.size() == said && out.c_str()[out.size()] == 0, std::string(what) + " size", [&] { return hex(tail); });
            bool kept = true; for (size_t i = 0; i < pad; ++i) { kept = kept && i < out.size() && out[i] == 'a'; }
            c.require(kept, std::string(what) + " prefix", [&] { return hex(tail); });
            in.data()[in.size()] = odd; auto again = convert(in); const size_t said_again = size(in); in.data()[in.size()] = 0;
            c.require(out == again && said == said_again, std::string(what) + " reads past the end", [&] { return hex(tail); });
        }
    }
    template<class S> void every(mc::Ctx &c, const std::vector<unsigned> &cells, size_t longest, const std::function<void(const S &)> &f) {
        S s; std::function<void()> go = [&] { c.step(hex(s)); f(s); if (s.size() < longest) { for (auto u : cells) { s += typename S::value_type(u); go(); s.pop_back(); } } }; go();
    }
}

void mc::register_cases(Registry &reg) {
    reg.add("every-code-point", [](Ctx &c) {
        for (unsigned u = 0; u < 0x110000; ++u) { if (u / 0x800 == 0x1b) { continue; } if (!(u & 0xfff)) { c.step("code point %x", u); } valid(c, {u}); }
        for (unsigned u = 0; u < 0x110000; u += c.bound(7, 1)) { if (u / 0x800 == 0x1b) { continue; } for (auto e : few) { valid(c, {e, u}); valid(c, {u, e}); } }
    }, 300);
    reg.add("sequences", [](Ctx &c) {
        std::vector<unsigned> us; std::function<void(const std::vector<unsigned> &, size_t)> go = [&](const std::vector<unsigned> &from, size_t left) { ++c.traces; valid(c, us); if (left) { for (auto u : from) { us.push_back(u); go(from, left - 1); us.pop_back(); } } };
        go(edges, c.bound(3, 4)); go(few, c.bound(4, 5));
    }, 300);
    reg.add("malformed-bytes", [](Ctx &c) {
        every<std::string>(c, {0, 'A', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf7, 0xf8, 0xff}, c.bound(4, 5), [&](const std::string &s) { safe(c, "malformed utf-8", s, char(0x9d), &UTF8toUTF16Convertor::convert, &UTF8toUTF16Convertor::size_in_utf16); safe(c, "7-bit", s, char(0x9d), &UTF8toUTF16Convertor::convert_as_ascii, [](const std::string &t) { return t.size(); }); });
        for (unsigned a = 0; a < 256; ++a) { for (unsigned b = 0; b < 256; ++b) { std::string s{char(a), char(b)}; safe(c, "malformed utf-8", s, char(0x9d), &UTF8toUTF16Convertor::convert, &UTF8toUTF16Convertor::size_in_utf16); } }
    }, 300);
    reg.add("malformed-units", [](Ctx &c) {
        every<Wide>(c, {0, 'A', 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff}, c.bound(4, 5), [&](const Wide &s) { safe(c, "malformed utf-16", s, char16_t(0xdd9d), &UTF16toUTF8Convertor::convert, &UTF16toUTF8Convertor::size_in_utf8); safe(c, "7-bit wide", s, char16_t(0xdd9d), &UTF16toUTF8Convertor::convert_as_ascii, [](const Wide &t) { return t.size(); }); });
        for (unsigned a = 0; a < 65536; ++a) { safe(c, "malformed utf-16", Wide{char16_t(a)}, char16_t(0xdd9d), &UTF16toUTF8Convertor::convert, &UTF16toUTF8Convertor::size_in_utf8); }
    }, 300);
}
