// C12, C13: UTF-8 decoding, validation, encoding and sanitizing.
#include "udata.h"
#include <fsdyn/charstr.h>

namespace {
// n bytes right before inaccessible memory, rewritten in place
struct Edge {
    Exact e;
    Edge() : e(nullptr, 64) {}
    char *at(size_t n) { return e.end() - n; }
};
Edge &edge()
{
    static thread_local Edge *x = new Edge;
    return *x;
}
__attribute__((noinline, cold)) void bad_decode(const u8 *b, unsigned n, bool bounded, const char *got, const char *p,
                                                int cp, unsigned len, int want)
{
    violate("utf8:decode", "decoding %s (%s) returned %s%td U+%04X, expected %s%u U+%04X", hexdump(b, n).c_str(),
            bounded ? "bounded" : "no limit", got ? "+" : "NULL ", got ? got - p : 0, cp, len ? "+" : "NULL ", len, want);
}
// decode n bytes at p with the limit (or without: a NUL follows)
inline void judge_decode(const char *p, unsigned n, bool bounded)
{
    int want = -7, cp = -7;
    unsigned len = ref_decode((const u8 *) p, n, &want);
    const char *r = charstr_decode_utf8_codepoint(p, bounded ? p + n : nullptr, &cp);
    if (len ? r != p + len || cp != want : r != nullptr)
        bad_decode((const u8 *) p, n, bounded, r, p, cp, len, want);
}
void decode_sweep(Sweep &s)
{
    Edge &e = edge();
    u64 n = 0;
    bool all = !opt.quick() && !opt.asan();
    // one to three bytes, bounded at the edge and NUL-terminated at the edge
    for (unsigned v = 0; v < 0x1000000; v++) {
        if (!s.mine(v >> 16))
            continue;
        if (!(v & 0xffff))
            s.tick();
        if (opt.asan() && (v & 0xff) >= 8 && (v & 0x3f) > 1)
            continue;
        u8 b[3] = {(u8) (v >> 16), (u8) (v >> 8), (u8) v};
        char *p = e.at(3);
        memcpy(p, b, 3);
        judge_decode(p, 3, true);
        n++;
        if (!(v & 0xff)) {
            p = e.at(2);
            memcpy(p, b, 2);
            judge_decode(p, 2, true);
            n++;
        }
        if (!(v & 0xffff)) {
            p = e.at(1);
            *p = b[0];
            judge_decode(p, 1, true);
            CHECK(!charstr_decode_utf8_codepoint(e.e.end(), e.e.end(), nullptr), "utf8:end", "decoding at the end limit");
            n += 2;
        }
        if (b[0] && b[1]) {
            p = e.at(4);
            memcpy(p, b, 3);
            p[3] = 0;
            judge_decode(p, 4, false);
            n++;
            if (!b[2]) {
                p = e.at(3);
                memcpy(p, b, 3);
                judge_decode(p, 3, false);
            }
        } else if (b[0]) {
            p = e.at(2);
            memcpy(p, b, 2);
            judge_decode(p, 2, false);
        }
    }
    EVN("utf8.decode.short", n);
    s.evals += n;
    s.distinct += n;
    // four bytes
    n = 0;
    char *p = e.at(4);
    for (unsigned a = 0; a < 0x1000000; a++) {
        if (!s.mine(a >> 12))
            continue;
        if (!(a & 0xfff))
            s.tick();
        unsigned b0 = a >> 16;
        if (opt.asan()) {
            if (b0 < 0xc0 || ((a & 0x3f) > 1 && (a & 0x3f) < 0x3f))
                continue;
        }
        p[0] = (char) b0;
        p[1] = (char) (a >> 8);
        p[2] = (char) a;
        if (all || (b0 >= 0xf0 && !opt.asan())) {
            for (unsigned d = 0; d < 256; d++) {
                p[3] = (char) d;
                judge_decode(p, 4, true);
            }
            n += 256;
        } else {
            static const u8 D[] = {0, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 'A', 0x9f};
            for (u8 d : D) {
                p[3] = (char) d;
                judge_decode(p, 4, true);
            }
            n += 8;
        }
        if (b0 >= 0xf0 && (p[1] & 0xff) && (p[2] & 0xff)) {
            char *q = e.at(5);
            q[0] = (char) b0;
            q[1] = (char) (a >> 8);
            q[2] = (char) a;
            q[3] = (char) (0x80 | (a & 0x3f));
            q[4] = 0;
            judge_decode(q, 5, false);
            q[3] = 0;
            judge_decode(q, 4, false);
            p[0] = (char) b0;
            p[1] = (char) (a >> 8);
            p[2] = (char) a;
            n += 2;
        }
    }
    EVN("utf8.decode.four", n);
    s.evals += n;
    s.distinct += n;
    s.sample(all ? "every sequence of one to four bytes" : "every sequence of one to three bytes, every sequence of "
             "four bytes beginning with 0xF0 to 0xFF and eight fourth bytes for all others, right before inaccessible memory");
    if (s.shard == 0) {
        int cp = 5;
        CHECK(!charstr_decode_utf8_codepoint(nullptr, nullptr, &cp), "utf8:null", "decoding NULL");
        CHECK(!charstr_encode_utf8_codepoint('a', nullptr, nullptr), "utf8:null", "encoding to NULL");
    }
}
void encode_sweep(Sweep &s)
{
    u8 buf[16];
    Edge &e = edge();
    for (int c = 0; c < 0x110000; c++) {
        if (!s.mine(c >> 8) || !scalar(c))
            continue;
        if (!(c & 0xfff))
            s.tick();
        std::string w = ref_encode(c);
        for (unsigned room = 0; room <= 6; room++) {
            memset(buf, 0x5c, sizeof buf);
            char *p = (char *) buf + 4;
            if (room == 6) { // unenforced, at the edge
                p = e.at(w.size());
                char *r = charstr_encode_utf8_codepoint(c, p, nullptr);
                CHECK(r == p + w.size() && !memcmp(p, w.data(), w.size()), "utf8:encode", "encoding of U+%04X without limit",
                      c);
                int cp = -1;
                CHECK(charstr_decode_utf8_codepoint(p, e.e.end(), &cp) == r && cp == c, "utf8:inverse",
                      "decoding the encoding of U+%04X", c);
                CHECK(charstr_decode_utf8_codepoint(p, nullptr, nullptr) == r, "utf8:inverse",
                      "decoding the encoding of U+%04X without limit", c);
                EV("utf8.encode");
                continue;
            }
            char *r = charstr_encode_utf8_codepoint(c, p, p + room);
            if (room >= w.size()) {
                CHECK(r == p + w.size() && !memcmp(p, w.data(), w.size()), "utf8:encode",
                      "encoding of U+%04X with room for %u: %s, expected %s", c, room, hexdump(p, 5).c_str(),
                      hexdump(w.data(), w.size()).c_str());
                for (size_t i = w.size(); i < 10; i++)
                    CHECK((u8) p[i] == 0x5c, "utf8:beyond", "encoding of U+%04X wrote beyond its length", c);
            } else {
                CHECK(!r, "utf8:noroom", "encoding of U+%04X with room for %u did not fail", c, room);
                EV("utf8.encode.noroom");
                for (size_t i = room; i < 10; i++)
                    CHECK((u8) p[i] == 0x5c, "utf8:beyond", "encoding of U+%04X wrote beyond the limit %u", c, room);
            }
            CHECK(buf[3] == 0x5c, "utf8:beyond", "encoding of U+%04X wrote before the area", c);
        }
        s.evals += 9;
        s.distinct++;
    }
    s.sample("every scalar value, encoded with room for 0 to 5 bytes and without limit, and decoded");
}
const u8 BYTES[] = {'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf,
                    0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xf8, 0xfe, 0xff, 0xec};
std::string rnd_bytes(Gen &g, unsigned max)
{
    std::string s;
    unsigned n = g.size(max);
    int style = g.below(4);
    while (s.size() < n) {
        switch (style == 3 ? 0 : g.below(style == 0 ? 12 : 7)) {
            case 0:
                s += (char) (1 + g.below(255));
                break;
            case 1:
                s += (char) BYTES[g.below(sizeof BYTES)];
                break;
            case 2: { // a truncated character
                std::string e = ref_encode(rnd_cp(g));
                s += e.substr(0, g.below(e.size() + 1));
                break;
            }
            case 3: { // overlong, surrogate, too big
                unsigned v = g.chance(1, 2) ? g.below(0x10000) : 0xd800 + g.below(0x800);
                if (g.chance(1, 3)) {
                    s += (char) (0xf0 | (v >> 18 & 7));
                    s += (char) (0x80 | (v >> 12 & 63));
                } else
                    s += (char) (0xe0 | (v >> 12 & 15));
                s += (char) (0x80 | (v >> 6 & 63));
                s += (char) (0x80 | (v & 63));
                break;
            }
            default:
                s += ref_encode(rnd_cp(g));
        }
    }
    return s;
}
void valid_sweep(Sweep &s)
{
    // every string of up to five boundary bytes
    unsigned L = opt.asan() ? 3 : opt.quick() ? 4 : 5;
    const unsigned K = sizeof BYTES;
    for (unsigned n = 0; n <= L; n++) {
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= K;
        for (u64 v = 0; v < total; v++) {
            if (!s.mine(v / 64))
                continue;
            if (v % 65536 == 0)
                s.tick();
            std::string t;
            u64 x = v;
            for (unsigned i = 0; i < n; i++) {
                t += (char) BYTES[x % K];
                x /= K;
            }
            bool w = ref_valid(t);
            char *p = edge().at(n + 1);
            memcpy(p, t.c_str(), n + 1);
            CHECK(charstr_valid_utf8(p) == w, "utf8:valid", "validity of %s is not %d", hexdump(t.data(), n).c_str(), w);
            CHECK(charstr_valid_utf8_bounded(p, p + n) == w, "utf8:valid", "bounded validity of %s is not %d",
                  hexdump(t.data(), n).c_str(), w);
            p = edge().at(n);
            memcpy(p, t.data(), n);
            CHECK(charstr_valid_utf8_bounded(p, p + n) == w, "utf8:valid", "bounded validity of %s is not %d",
                  hexdump(t.data(), n).c_str(), w);
            s.evals += 3;
            s.distinct++;
        }
    }
    s.sample("every string of up to four bytes out of 24 boundary bytes");
}
void valid_case(Case &c)
{
    Gen &g = c.g;
    std::string t;
    if (g.chance(1, 2)) {
        unsigned n = g.size(g.chance(1, 10) ? 2000 : 60);
        for (unsigned i = 0; i < n; i++)
            t += ref_encode(rnd_cp(g));
        EV("utf8.text.valid");
        if (g.chance(1, 2) && !t.empty()) { // one flaw somewhere
            size_t at = g.below(t.size());
            switch (g.below(4)) {
                case 0: t[at] = (char) (1 + g.below(255)); break;
                case 1: t.erase(at, 1); break;
                case 2: t.insert(at, 1, (char) BYTES[g.below(sizeof BYTES)]); break;
                default: t.resize(at);
            }
        }
    } else
        t = rnd_bytes(g, 200);
    c.mixs(t);
    c.nontrivial = !t.empty();
    c.text = "validity of " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    bool w = ref_valid(t);
    ExactZ z(t);
    CHECK(charstr_valid_utf8(z.p) == w, "utf8:valid", "validity of %s is not %d", hexdump(t.data(), t.size()).c_str(), w);
    // bounded: a NUL is a character like any other; every limit
    std::string b = t;
    if (g.chance(1, 4))
        b.insert(g.below(b.size() + 1), 1, '\0');
    Exact e(b);
    size_t step = 1 + b.size() / 60, ok = 0;
    for (size_t n = b.size() % step; n <= b.size(); n += step) {
        bool wn = ref_valid(b.substr(0, n));
        CHECK(charstr_valid_utf8_bounded(e.p, e.p + n) == wn, "utf8:valid", "bounded validity of %s is not %d",
              hexdump(b.data(), n).c_str(), wn);
        Exact f(b.data(), n);
        CHECK(charstr_valid_utf8_bounded(f.p, f.end()) == wn, "utf8:valid", "bounded validity of %s is not %d",
              hexdump(b.data(), n).c_str(), wn);
        ok += wn;
        c.evals += 2;
    }
    EVN("utf8.bounded.valid", ok);
    // decode everything step by step
    for (size_t i = 0; i < t.size();) {
        int cp = -1, want = -1;
        unsigned l = ref_decode((const u8 *) t.data() + i, t.size() - i, &want);
        unset(&cp, sizeof cp, l);
        const char *r = charstr_decode_utf8_codepoint(z.p + i, g.chance(1, 2) ? z.p + t.size() : nullptr, &cp);
        CHECK(l ? r == z.p + i + l && cp == want : !r, "utf8:decode", "decoding at %zu of %s", i,
              hexdump(t.data(), t.size()).c_str());
        i += l ? l : 1;
        c.evals++;
    }
    CHECK(z.unchanged() && e.unchanged(), "utf8:source", "the input was modified");
}

// ---------------------------------------------------------------- sanitizing
std::string ref_sane(const std::string &t)
{
    std::string o;
    for (size_t i = 0; i < t.size();) {
        unsigned l = ref_decode((const u8 *) t.data() + i, t.size() - i, nullptr);
        if (l)
            o += t.substr(i, l);
        else
            o += "\xef\xbf\xbd";
        i += l ? l : 1;
    }
    return o;
}
void check_sane(const std::string &t)
{
    std::string w = ref_sane(t);
    ExactZ z(t);
    char *r = charstr_sanitize_utf8(z.p);
    CHECK(r, "sane:null", "sanitizing returned NULL");
    CHECK(z.unchanged(), "sane:source", "sanitizing modified its input");
    CHECK(r != z.p && mem_is_live(r), "sane:fresh", "the sanitized string is not a fresh one");
    CHECK(w == r, "sane:text", "sanitizing %s gives %s, expected %s", hexdump(t.data(), t.size()).c_str(),
          hexdump(r, strlen(r)).c_str(), hexdump(w.data(), w.size()).c_str());
    EV("sane.call");
    if (w == t)
        EV("sane.valid");
    else
        EV("sane.replaced");
    char *r2 = charstr_sanitize_utf8(r);
    CHECK(r2 && !strcmp(r, r2), "sane:twice", "sanitizing twice differs for %s", hexdump(t.data(), t.size()).c_str());
    CHECK(charstr_valid_utf8(r), "sane:valid", "the sanitized string is reported as invalid");
    TakeStr a(r), b(r2);
}
void sane_case(Case &c)
{
    Gen &g = c.g;
    std::string t = rnd_bytes(g, g.chance(1, 20) ? 5000 : 120);
    if (g.chance(1, 200))
        t += std::string(g.below(60000), (char) (g.chance(1, 2) ? 0xff : 0xe4));
    c.mixs(t);
    c.nontrivial = !t.empty();
    c.text = "sanitize " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    check_sane(t);
}
void sane_sweep(Sweep &s)
{
    unsigned L = opt.asan() ? 2 : opt.quick() ? 3 : 4;
    const unsigned K = sizeof BYTES;
    for (unsigned n = 0; n <= L; n++) {
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= K;
        for (u64 v = 0; v < total; v++) {
            if (!s.mine(v / 16))
                continue;
            s.tick();
            std::string t;
            u64 x = v;
            for (unsigned i = 0; i < n; i++) {
                t += (char) BYTES[x % K];
                x /= K;
            }
            check_sane(t);
            s.evals++;
            s.distinct++;
        }
    }
    // every scalar value between good and bad neighbours
    for (int c = 1; c < 0x110000; c += opt.quick() ? 17 : 1) {
        if (!s.mine(c >> 8) || !scalar(c))
            continue;
        s.tick();
        std::string e = ref_encode(c);
        check_sane("a" + e + "\xc3" + e);
        s.evals++;
        s.distinct++;
    }
    s.sample("every string of up to three boundary bytes; scalar values between good and bad neighbours");
}
} // namespace
REG_SWEEP("C12", utf8_decode_sweep, decode_sweep, 1, 1, 0);
REG_SWEEP("C12", utf8_encode_sweep, encode_sweep, 1, 1, 0);
REG_SWEEP("C12", utf8_valid_sweep, valid_sweep, 1, 1, 0);
REG_CASES("C12", utf8_valid, valid_case, 40000, 8000, 30, THR);
REG_CASES("C13", utf8_sane, sane_case, 60000, 15000, 30, OWN | THR);
REG_SWEEP("C13", utf8_sane_sweep, sane_sweep, 1, 1, 0);
