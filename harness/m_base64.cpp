// C08, C09: Base64 against an independent implementation.
#include "core.h"
#include <fsdyn/base64.h>
#include <sys/mman.h>

namespace {
char alpha(unsigned v, char p62, char p63)
{
    v &= 63;
    if (v < 26) return 'A' + v;
    if (v < 52) return 'a' + (v - 26);
    if (v < 62) return '0' + (v - 52);
    return v == 62 ? p62 : p63;
}
std::string enc(const std::string &b, char p62, char p63)
{
    if (p62 == (char) -1) p62 = '+';
    if (p63 == (char) -1) p63 = '/';
    std::string o;
    size_t i = 0, n = b.size();
    auto at = [&](size_t k) { return (unsigned) (u8) b[k]; };
    for (; i + 2 < n; i += 3) {
        unsigned v = at(i) << 16 | at(i + 1) << 8 | at(i + 2);
        o += alpha(v >> 18, p62, p63);
        o += alpha(v >> 12, p62, p63);
        o += alpha(v >> 6, p62, p63);
        o += alpha(v, p62, p63);
    }
    if (n - i == 1) {
        unsigned v = at(i) << 16;
        o += alpha(v >> 18, p62, p63);
        o += alpha(v >> 12, p62, p63);
        o += "==";
    } else if (n - i == 2) {
        unsigned v = at(i) << 16 | at(i + 1) << 8;
        o += alpha(v >> 18, p62, p63);
        o += alpha(v >> 12, p62, p63);
        o += alpha(v >> 6, p62, p63);
        o += '=';
    }
    return o;
}
bool wsp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'; }
int val(char c, char p62, char p63)
{
    if (c == p62) return 62;
    if (c == p63) return 63;
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return -1;
}
bool dec(const std::string &src, char p62, char p63, bool ign, std::string &out)
{
    if (p62 == (char) -1) p62 = '+';
    if (p63 == (char) -1) p63 = '/';
    std::string t;
    for (char c : src) {
        if (!c)
            break;
        if (ign && wsp(c))
            continue;
        t += c;
    }
    out.clear();
    if (t.size() % 4)
        return false;
    for (size_t i = 0; i < t.size(); i += 4) {
        int v[4], pad = 0;
        bool last = i + 4 == t.size();
        for (int k = 0; k < 4; k++) {
            v[k] = val(t[i + k], p62, p63);
            if (v[k] < 0) {
                if (last && t[i + k] == '=' && k >= 2) {
                    pad++;
                    v[k] = 0;
                } else
                    return false;
            } else if (pad)
                return false;
        }
        unsigned x = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
        if (pad == 1 && (v[2] & 3))
            return false;
        if (pad == 2 && (v[1] & 15))
            return false;
        out += (char) (x >> 16);
        if (pad < 2)
            out += (char) (x >> 8);
        if (pad < 1)
            out += (char) x;
    }
    return true;
}

struct Chars {
    char p62, p63;
};
bool usable(char c)
{
    return c && c != '=' && !wsp(c) && !(c >= '0' && c <= '9') && !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') &&
        c != (char) -1;
}
Chars chars(Gen &g)
{
    switch (g.below(7)) {
        case 0: return {'-', '_'};
        case 1: return {'/', '+'};
        case 2: return {(char) -1, ','};
        case 3: return {'.', (char) -1};
        case 4: {
            char a, b;
            do
                a = (char) g.below(256);
            while (!usable(a));
            do
                b = (char) g.below(256);
            while (!usable(b) || b == a);
            return {a, b};
        }
        default: return {(char) -1, (char) -1};
    }
}
const u8 FILL = 0x5c;

void check_encode(const std::string &b, size_t dsize, Chars ch)
{
    std::string want = enc(b, ch.p62, ch.p63);
    Exact src(b);
    Exact dst(nullptr, dsize);
    size_t r = base64_encode_buffer(src.p, b.size(), dst.p, dsize, ch.p62, ch.p63);
    EV("b64.encode");
    CHECK(r == want.size(), "b64:enclen", "encoding %zu bytes returned %zu, expected %zu", b.size(), r, want.size());
    CHECK(src.unchanged(), "b64:source", "encoding modified its source");
    if (dsize > want.size()) {
        CHECK(!memcmp(dst.p, want.c_str(), want.size() + 1), "b64:enctext", "encoding %s gives %.100s, expected %.100s",
              hexdump(b.data(), b.size()).c_str(), std::string(dst.p, want.size()).c_str(), want.c_str());
        EV("b64.encode.whole");
    } else if (dsize) {
        EV("b64.encode.short");
        size_t l = strnlen(dst.p, dsize);
        CHECK(l < dsize, "b64:encnul", "a short buffer of %zu was not NUL-terminated", dsize);
        CHECK(!memcmp(dst.p, want.data(), l), "b64:encprefix",
              "a short buffer of %zu received something that is not a prefix", dsize);
        CHECK(l == dsize - 1, "b64:encprefix", "a buffer of %zu received only %zu characters of %zu", dsize, l, want.size());
    } else
        EV("b64.encode.none");
}
void enc_case(Case &c)
{
    Gen &g = c.g;
    size_t n = g.size(g.chance(1, 10) ? 20000 : 400);
    bool big = g.chance(1, 300); // around multiples of 65536
    if (big && g.chance(1, 2))
        n = (g.chance(1, 2) ? 49152 : 65536) * (1 + g.below(2)) + g.below(9) - 4;
    std::string b(n, 0);
    u64 x = g.raw();
    int kind = g.below(4);
    for (size_t i = 0; i < n; i++) {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        b[i] = kind == 0 ? (char) 0xff : kind == 1 ? 0 : (char) (x >> 56);
    }
    Chars ch = chars(g);
    size_t full = (n + 2) / 3 * 4;
    size_t d;
    switch (g.below(4)) {
        case 0: d = full + 1; break;
        case 1: d = full + 1 + g.below(40); break;
        case 2: d = full + 3 - g.below(full < 8 ? full + 3 : 8); break;
        default: d = g.below(full + 2);
    }
    if (big && g.chance(1, 2)) {
        d = 65536 * (1 + g.below(3)) + g.below(full < 1000 ? full + 2 : 9);
        EV("b64.encode.roomy");
    }
    c.mix(n);
    c.mix(d);
    c.mixs(b.substr(0, 40));
    c.nontrivial = n > 0;
    c.text = fmtstr("%zu bytes into a buffer of %zu (full length %zu), characters %02x %02x", n, d, full, (u8) ch.p62,
                    (u8) ch.p63);
    TR("%s", c.text.c_str());
    check_encode(b, d, ch);
    if (g.chance(1, 3)) {
        Exact src(b);
        TakeStr t(base64_encode_simple(src.p, n));
        std::string want = enc(b, -1, -1);
        CHECK(t.p && t.str() == want, "b64:simple", "base64_encode_simple of %zu bytes is wrong", n);
        EV("b64.encode.simple");
    }
}
void enc_sweep(Sweep &s)
{
    // all lengths with all buffer sizes
    unsigned N = opt.asan() ? 20 : 45;
    for (unsigned n = 0; n <= N; n++) {
        if (!s.mine(n))
            continue;
        s.tick();
        for (int fill = 0; fill < 3; fill++) {
            std::string b;
            for (unsigned i = 0; i < n; i++)
                b += fill == 0 ? (char) 0xff : fill == 1 ? (char) 0xfb : (char) mix64(i + n * 100);
            for (size_t d = 0; d <= (n + 2) / 3 * 4 + 6; d++) {
                check_encode(b, d, {(char) -1, (char) -1});
                check_encode(b, d, {'-', '_'});
                s.evals += 2;
                s.distinct += 2;
            }
        }
    }
    // all inputs of one, two and (plain build) three bytes
    u64 limit = opt.asan() ? 0x10000 : 0x1000000;
    char out[8];
    for (u64 v = 0; v < limit; v++) {
        if (v % 65536 == 0)
            s.tick();
        if (!s.mine(v >> 12))
            continue;
        u8 b[3] = {(u8) (v >> 16), (u8) (v >> 8), (u8) v};
        if (limit == 0x10000) {
            b[0] = b[1];
            b[1] = b[2];
            b[2] = 0;
        }
        if (limit != 0x10000) {
            memset(out, FILL, sizeof out);
            size_t r = base64_encode_buffer(b, 3, out, sizeof out, -1, -1);
            bool ok = r == 4 && out[0] == alpha(v >> 18, '+', '/') && out[1] == alpha(v >> 12, '+', '/') &&
                out[2] == alpha(v >> 6, '+', '/') && out[3] == alpha(v, '+', '/') && !out[4];
            CHECK(ok, "b64:enctext", "encoding %02x%02x%02x gives %.4s", b[0], b[1], b[2], out);
        }
        s.evals++;
        s.distinct++;
        if (v < 0x10000) {
            for (unsigned n = 1; n <= 2; n++) {
                if (n == 1 && v > 255)
                    continue;
                std::string q = n == 1 ? std::string(1, (char) v) : std::string{(char) (v >> 8), (char) v};
                memset(out, FILL, sizeof out);
                size_t r = base64_encode_buffer(q.data(), n, out, sizeof out, -1, -1);
                std::string want = enc(q, -1, -1);
                CHECK(r == 4 && want == out, "b64:enctext", "encoding %s gives %.4s", hexdump(q.data(), n).c_str(), out);
                s.evals++;
                s.distinct++;
            }
        }
    }
    s.sample("every input of one, two and three bytes; every buffer size for every length up to 45");
    // the size calculation
    auto size_is = [&](size_t n) {
        unsigned __int128 t = ((unsigned __int128) n + 2) / 3 * 4;
        size_t want = t > (unsigned __int128) SIZE_MAX ? (size_t) -1 : (size_t) t;
        CHECK(base64_encoding_size(n) == want, "b64:size", "base64_encoding_size(%zu) is %zu, expected %zu", n,
              base64_encoding_size(n), want);
        s.evals++;
        s.distinct++;
        EV("b64.size");
        if (want == (size_t) -1) {
            CHECK(!base64_encode_simple("x", n), "b64:size", "base64_encode_simple of %zu bytes did not fail", n);
            EV("b64.size.overflow");
        }
    };
    for (size_t k = 0; k < 200; k++) {
        if (!s.mine(k))
            continue;
        for (size_t base : {(size_t) 0, (size_t) 1 << 31, (size_t) 1 << 32, (size_t) 3 << 30, (size_t) 3 << 61,
                            (size_t) 3 << 62, SIZE_MAX / 2, SIZE_MAX / 3, SIZE_MAX / 4, SIZE_MAX / 4 * 3,
                            (size_t) 1 << 63, (size_t) 0}) {
            size_is(base + k);
            size_is(base - k);
        }
        size_is(mix64(k));
        size_is(mix64(k) >> (k % 64));
    }
    if (s.mine(1))
        for (unsigned i = 0; i < 64; i++)
            CHECK(base64_bitfield_encoding[i] == alpha(i, '+', '/'), "b64:table", "encoding table entry %u is %c", i,
                  base64_bitfield_encoding[i]);
}
// sources beyond 4 GiB into small buffers
void enc_huge(Sweep &s)
{
    s.exhaustive = false;
    if (!s.mine(5))
        return;
    size_t N = ((size_t) 1 << 32) + 100;
    size_t map = N + 8192;
    char *p = (char *) mmap(nullptr, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED)
        return;
    madvise(p, map, MADV_HUGEPAGE);
    for (size_t d = 0; d < 5; d++) {
        for (size_t n = N - 3; n < N; n++) {
            s.tick();
            char out[12];
            memset(out, FILL, sizeof out);
            size_t r = base64_encode_buffer(p, n, out, d * 2, -1, -1);
            CHECK(r == (n + 2) / 3 * 4, "b64:enclen", "encoding %zu bytes returned %zu, expected %zu", n, r, (n + 2) / 3 * 4);
            for (size_t i = 0; i < sizeof out; i++) {
                char w = i >= d * 2 ? (char) FILL : i + 1 == d * 2 ? 0 : 'A';
                CHECK(out[i] == w, "b64:encprefix", "byte %zu of a buffer of %zu is %02x after encoding %zu bytes", i, d * 2,
                      (u8) out[i], n);
            }
            s.evals++;
            s.distinct++;
        }
    }
    // a buffer beyond 4 GiB for a few bytes
    for (size_t d = ((size_t) 1 << 32) - 1; d < ((size_t) 1 << 32) + 10; d++)
        for (size_t n = 0; n < 7; n++) {
            std::string src("\xff\x00\x88\x13\x5a\xc3", 6);
            src.resize(n);
            std::string w = enc(src, -1, -1);
            memset(p, FILL, 32);
            size_t r = base64_encode_buffer(src.data(), n, p, d, -1, -1);
            CHECK(r == w.size() && !memcmp(p, w.c_str(), w.size() + 1) && p[w.size() + 1] == (char) FILL && !p[N], "b64:enctext",
                  "encoding %zu bytes into a buffer of %zu gives %zu characters \"%.20s\"", n, d, r, p);
            s.evals++;
            s.distinct++;
        }
    munmap(p, map);
    EV("b64.encode.beyond4g");
    s.sample("a source of more than 4 GiB into buffers of 0 to 8 bytes");
}

// ---------------------------------------------------------------- decoding
void check_decode(const std::string &src, size_t ssize, size_t dsize, Chars ch, bool ign, bool terminated)
{
    // ssize may be SIZE_MAX: then the text must be NUL-terminated
    std::string eff = ssize < src.size() ? src.substr(0, ssize) : src;
    std::string want;
    bool ok = dec(eff, ch.p62, ch.p63, ign, want);
    std::string mem_ = src;
    if (terminated)
        mem_ += '\0';
    Exact e(mem_);
    Exact d(nullptr, dsize);
    errno = 0;
    ssize_t r = base64_decode_buffer(e.p, ssize, d.p, dsize, ch.p62, ch.p63, ign);
    EV("b64.decode");
    CHECK(e.unchanged(), "b64:source", "decoding modified its source");
    if (!ok) {
        CHECK(r < 0, "b64:accept", "%s text accepted as %zd bytes: \"%s\" (%s)", "illegal", r, hexdump(eff.data(), eff.size()).c_str(),
              ign ? "whitespace ignored" : "whitespace illegal");
        CHECK(errno == EILSEQ, "b64:errno", "decoding failed with errno %d, not EILSEQ", errno);
        EV("b64.decode.reject");
        return;
    }
    EV("b64.decode.accept");
    CHECK(r == (ssize_t) want.size(), "b64:declen", "decoding %s returned %zd, expected %zu",
          hexdump(eff.data(), eff.size()).c_str(), r, want.size());
    size_t n = want.size() < dsize ? want.size() : dsize;
    CHECK(!n || !memcmp(d.p, want.data(), n), "b64:decbytes", "decoding %s gives %s, expected %s",
          hexdump(eff.data(), eff.size()).c_str(), hexdump(d.p, n).c_str(), hexdump(want.data(), n).c_str());
    for (size_t i = n; i < dsize; i++)
        CHECK((u8) d.p[i] == FILL, "b64:decextra", "decoding wrote beyond the %zu decoded bytes", want.size());
}
std::string mutate(Gen &g, std::string t, bool heavy)
{
    unsigned k = heavy ? 1 + g.below(4) : g.below(2);
    static const char pool[] = "=====  \n\r\t\f+/-_AQg8Zz9!~\x7f\x80\xff,.\v\b";
    for (; k; k--) {
        size_t at = g.below(t.size() + 1);
        char c = g.chance(1, 30) ? 0 : g.chance(1, 4) ? (char) g.below(256) : pool[g.below(sizeof pool - 1)];
        switch (g.below(4)) {
            case 0: t.insert(at, 1, c); break;
            case 1: if (at < t.size()) t.erase(at, 1 + g.below(3)); break;
            case 2: if (at < t.size()) t[at] = c; break;
            default: if (!t.empty()) t.resize(t.size() - g.below(t.size() < 5 ? t.size() : 5));
        }
    }
    return t;
}
void dec_case(Case &c)
{
    Gen &g = c.g;
    Chars ch = chars(g);
    size_t n = g.size(g.chance(1, 20) ? 5000 : 60);
    std::string b(n, 0);
    for (auto &x : b)
        x = (char) (g.chance(1, 6) ? 0xff : g.below(256));
    std::string t = enc(b, ch.p62, ch.p63);
    bool ign = g.chance(1, 2);
    if (g.chance(1, 2)) { // whitespace, as MIME would have it or anywhere
        size_t every = 1 + g.below(20);
        std::string u;
        for (size_t i = 0; i < t.size(); i++) {
            u += t[i];
            if (i % every == every - 1)
                u += " \t\n\f\r"[g.below(5)];
            if (g.chance(1, 30))
                u += "\r\n  ";
        }
        t = u;
    }
    if (g.chance(1, 2))
        t = mutate(g, t, g.chance(1, 2));
    if (ch.p62 != (char) -1 && g.chance(1, 6) && !t.empty())
        t[g.below(t.size())] = g.chance(1, 2) ? '+' : '/';
    if (ign && g.chance(1, 400) && !t.empty()) {
        // white space of about 65536 bytes before, within or after the padding
        size_t at = t.size() - g.below(t.size() < 5 ? t.size() + 1 : 5);
        t.insert(at, 65536 * (1 + g.below(2)) + g.below(9) - 6, " \n\t"[g.below(3)]);
        EV("b64.decode.longgap");
    }
    bool term = g.chance(1, 2);
    size_t ss = term ? (g.chance(1, 3) ? SIZE_MAX : g.chance(1, 2) ? t.size() : g.below(t.size() + 2)) : t.size();
    if (!term && g.chance(1, 4))
        ss = g.below(t.size() + 1);
    size_t dsize = g.chance(1, 3) ? n : g.chance(1, 4) ? 0 : g.below(n + 6);
    c.mixs(t);
    c.mix(dsize);
    c.mix(ss);
    c.nontrivial = !t.empty();
    c.text = fmtstr("decode \"%.80s\" limit %zd into %zu bytes, characters %02x %02x, whitespace %s", t.c_str(),
                    (ssize_t) ss, dsize, (u8) ch.p62, (u8) ch.p63, ign ? "ignored" : "illegal");
    TR("%s", c.text.c_str());
    check_decode(t, ss, dsize, ch, ign, term);
    if (g.chance(1, 3)) {
        std::string z = t.c_str(), want;
        bool ok = dec(z, -1, -1, true, want);
        ExactZ e(z);
        size_t size = 12345;
        errno = 0;
        unset(&size, sizeof size, ok);
        char *p = (char *) base64_decode_simple(e.p, &size);
        EV("b64.decode.simple");
        if (!ok) {
            CHECK(!p, "b64:accept", "base64_decode_simple accepted \"%s\"", hexdump(z.data(), z.size()).c_str());
            CHECK(errno == EILSEQ, "b64:errno", "base64_decode_simple failed with errno %d", errno);
        } else {
            CHECK(p, "b64:reject", "base64_decode_simple refused \"%s\"", hexdump(z.data(), z.size()).c_str());
            CHECK(size == want.size() && !memcmp(p, want.data(), size) && !p[size], "b64:simple",
                  "base64_decode_simple of \"%s\" wrong", z.c_str());
            TakeStr t2(p);
        }
    }
}
void dec_sweep(Sweep &s)
{
    // all texts over a small alphabet
    static const char A[] = {'A', 'B', '/', '=', ' ', 0, (char) 0x80, 'w'};
    unsigned len = opt.asan() ? 5 : opt.quick() ? 7 : 8;
    Chars def = {(char) -1, (char) -1};
    char out[16];
    std::string want;
    for (unsigned n = 0; n <= len; n++) {
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= 8;
        for (u64 v = 0; v < total; v++) {
            if (!s.mine(v >> 6))
                continue;
            if (v % 32768 == 0)
                s.tick();
            char b[10];
            for (unsigned i = 0; i < n; i++)
                b[i] = A[v >> 3 * i & 7];
            std::string src(b, n);
            for (int ign = 0; ign < 2; ign++) {
                bool ok = dec(src, -1, -1, ign, want);
                errno = 0;
                memset(out, FILL, sizeof out);
                ssize_t r = base64_decode_buffer(src.data(), n, out, sizeof out, -1, -1, ign);
                if (ok)
                    CHECK(r == (ssize_t) want.size() && !memcmp(out, want.data(), r), "b64:dec",
                          "decoding %s returned %zd, expected %zu", hexdump(src.data(), n).c_str(), r, want.size());
                else
                    CHECK(r < 0 && errno == EILSEQ, "b64:accept", "illegal text %s accepted (%zd)",
                          hexdump(src.data(), n).c_str(), r);
                s.evals++;
            }
            s.distinct++;
        }
    }
    s.sample(fmtstr("every text of up to %u characters over {A,B,/,=,space,NUL,0x80,w}", len));
    // any two bytes anywhere in a group
    static const char *const T[] = {"QUJD", "QUI=", "QQ==", "Q U=", "QUJDQUI="};
    for (int ti = 0; ti < 5; ti++) {
        std::string t = T[ti];
        for (size_t i = 0; i < t.size(); i++)
            for (size_t j = i + 1; j < t.size(); j++) {
                if (!s.mine(i * 16 + j + ti))
                    continue;
                s.tick();
                for (unsigned v = 0; v < 65536; v += opt.asan() ? 37 : 1) {
                    std::string u = t;
                    u[i] = (char) (v >> 8);
                    u[j] = (char) v;
                    for (int k = 0; k < 3; k++) {
                        char p62 = k == 2 ? '-' : -1, p63 = k == 2 ? '_' : -1;
                        bool ok = dec(u, p62, p63, k == 1, want);
                        memset(out, FILL, sizeof out);
                        ssize_t r = base64_decode_buffer(u.data(), u.size(), out, sizeof out, p62, p63, k == 1);
                        CHECK(ok ? r == (ssize_t) want.size() && !memcmp(out, want.data(), r) : r < 0, "b64:dec",
                              "decoding %s (mode %d) returned %zd, expected %s", hexdump(u.data(), u.size()).c_str(), k, r,
                              ok ? "success" : "failure");
                        s.evals++;
                    }
                    s.distinct++;
                }
            }
    }
    // limits and buffer sizes
    for (unsigned n = 0; n < 24; n++) {
        if (!s.mine(n))
            continue;
        s.tick();
        std::string b;
        for (unsigned i = 0; i < n; i++)
            b += (char) mix64(i + n);
        std::string t = enc(b, -1, -1);
        for (size_t ss = 0; ss <= t.size() + 1; ss++)
            for (size_t d = 0; d <= n + 2; d++)
                for (int ign = 0; ign < 2; ign++) {
                    check_decode(t, ss, d, def, ign, true);
                    if (ss <= t.size())
                        check_decode(t.substr(0, ss), ss, d, def, ign, false);
                    s.evals += 2;
                    s.distinct += 2;
                }
        check_decode(t, SIZE_MAX, n, def, true, true);
    }
    if (s.mine(2))
        for (unsigned i = 0; i < 256; i++) {
            int w = val((char) i, '+', '/');
            if (w < 0)
                w = !i ? BASE64_ILLEGAL_NUL : i == '=' ? BASE64_ILLEGAL_TRAILER : wsp((char) i) ? BASE64_ILLEGAL_WHITESPACE : BASE64_ILLEGAL_OTHER;
            CHECK(base64_bitfield_decoding[i] == w, "b64:table", "decoding table entry %02x is %d, expected %d", i,
                  base64_bitfield_decoding[i], w);
            s.evals++;
        }
}
void dec_huge(Sweep &s)
{
    // more than 4 GiB of text: length only
    s.exhaustive = false;
    // white space beyond 4 GiB before the end of the padding or after it
    for (unsigned k = 0; k < 3; k++) {
        if (!s.mine(k))
            continue;
        s.tick(3);
        size_t G = (size_t) 1 << 32, unit = (size_t) 64 << 20, map = G + unit;
        int fd = memfd_create("b64", 0);
        if (fd < 0 || ftruncate(fd, unit) < 0)
            return;
        char *p = (char *) mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        for (size_t o = 0; o < map; o += unit)
            if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
                return;
        memset(p, ' ', unit);
        for (size_t o : {(size_t) 0, G})
            if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED)
                return;
        memcpy(p, k == 0 ? "QUE=" : k == 1 ? "QQ= " : "QQ==", 4);
        size_t n = G + 5;
        if (k)
            p[n - 1] = k == 1 ? '=' : '-';
        char o[4];
        ssize_t r = base64_decode_buffer(p, n, o, 4, -1, -1, true), w = k == 0 ? 2 : k == 1 ? 1 : -1;
        CHECK(r == w && (w < 0 || !memcmp(o, "AA", w)), "b64:declen", "decoding %.4s, %zu blanks and '%c' returned %zd", p, n - 5,
              p[n - 1], r);
        munmap(p, map);
        close(fd);
        EV("b64.decode.hugegap");
        s.evals++;
        s.distinct++;
    }
    if (!s.mine(6))
        return;
    size_t N = ((size_t) 1 << 32) / 3 * 4 + 64;
    N -= N % 4;
    size_t unit = (size_t) 64 << 20, map = (N + unit - 1) / unit * unit;
    int fd = memfd_create("b64", 0);
    if (fd < 0 || ftruncate(fd, unit) < 0)
        return;
    char *p = (char *) mmap(nullptr, map, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t o = 0; o < map; o += unit)
        if (mmap(p + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
            return;
    memset(p, 'A', unit);
    s.tick(2);
    char out[4];
    ssize_t r = base64_decode_buffer(p, N, out, 4, -1, -1, false);
    CHECK(r == (ssize_t) (N / 4 * 3), "b64:declen", "decoding %zu characters returned %zd", N, r);
    munmap(p, map);
    s.evals++;
    s.distinct++;
}
} // namespace
REG_CASES("C08", b64_encode, enc_case, 60000, 20000, 30, OWN | THR);
REG_SWEEP("C08", b64_enc_sweep, enc_sweep, 1, 1, 0);
REG_SWEEP("C08", b64_enc_huge, enc_huge, 1, 0, 0);
REG_CASES("C09", b64_decode, dec_case, 200000, 60000, 30, OWN | THR);
REG_SWEEP("C09", b64_dec_sweep, dec_sweep, 1, 1, 0);
REG_SWEEP("C09", b64_dec_huge, dec_huge, 1, 0, 0);
