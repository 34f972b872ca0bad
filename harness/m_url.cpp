// C20: URL encoding and decoding.
#include "core.h"
#include <fsdyn/charstr.h>

namespace {
std::string pct(unsigned b)
{
    static const char H[] = "0123456789ABCDEF";
    return {'%', H[b >> 4], H[b & 15]};
}
std::string documented(unsigned b)
{
    if (b == ' ')
        return "+";
    if ((b >= '0' && b <= '9') || (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z'))
        return std::string(1, (char) b);
    if (b && strchr("-./<>\\^_`{|]~", (int) b))
        return std::string(1, (char) b);
    return pct(b);
}
// bytes for which documentation and table disagree in a listed way
struct Known {
    unsigned byte;
    const char *actual, *key;
} const KNOWN[] = {{0x22, "\"", "url-byte-22"}, {0x5d, "%5D", "url-byte-5D"}, {0x7d, "}", "url-byte-7D"}};

const std::string *table() // what the default encoder has to do
{
    static thread_local std::string *t;
    if (t)
        return t;
    std::string *n = new std::string[256];
    for (unsigned b = 0; b < 256; b++) {
        n[b] = documented(b);
        const char *a = charstr_url_encode_byte(b);
        for (auto &k : KNOWN)
            if (k.byte == b && n[b] != a && !strcmp(a, k.actual) &&
                (known_finding(k.key) || opt.prop != "C20"))
                n[b] = a;
    }
    return t = n;
}
std::string enc(const std::string *t, const std::string &s)
{
    std::string o;
    for (unsigned char c : s)
        o += t[c];
    return o;
}
int hexv(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
bool dec(const std::string &s, bool plus, std::string &o)
{
    o.clear();
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%') {
            if (i + 2 >= s.size() || hexv(s[i + 1]) < 0 || hexv(s[i + 2]) < 0)
                return false;
            o += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2]));
            i += 2;
        } else if (s[i] == '+' && plus)
            o += ' ';
        else
            o += s[i];
    }
    return true;
}
void check_decode(const std::string &t, bool plus, bool sized)
{
    std::string w;
    bool ok = dec(t, plus, w);
    ExactZ z(t);
    size_t size = 0xdead;
    errno = 0;
    unset(&size, sizeof size, ok);
    char *r = charstr_url_decode(z.p, plus, sized ? &size : nullptr);
    CHECK(z.unchanged(), "url:source", "decoding modified its input");
    if (!ok) {
        CHECK(!r, "url:accept", "\"%s\" decoded although it is no URL encoding", hexdump(t.data(), t.size()).c_str());
        CHECK(errno == EILSEQ, "url:errno", "decoding \"%s\" failed with errno %d", hexdump(t.data(), t.size()).c_str(), errno);
        EV("url.decode.reject");
        return;
    }
    CHECK(r, "url:refused", "\"%s\" refused", hexdump(t.data(), t.size()).c_str());
    TakeStr ts(r);
    CHECK(mem_is_live(r), "url:fresh", "not a fresh string");
    if (sized)
        CHECK(size == w.size(), "url:size", "size of the decoding of \"%s\" is %zu, expected %zu",
              hexdump(t.data(), t.size()).c_str(), size, w.size());
    CHECK(!memcmp(r, w.c_str(), w.size() + 1), "url:decode", "\"%s\" decoded as %s, expected %s",
          hexdump(t.data(), t.size()).c_str(), hexdump(r, w.size() + 1).c_str(), hexdump(w.data(), w.size()).c_str());
    EV("url.decode.accept");
    if (w.find('\0') != std::string::npos)
        EV("url.decode.nul");
}
std::string rnd_text(Gen &g, unsigned max)
{
    std::string s;
    unsigned n = g.size(max);
    int style = g.below(3);
    for (unsigned i = 0; i < n; i++)
        s += style == 0 ? (char) (1 + g.below(255)) : style == 1 ? (char) (32 + g.below(96)) : "%+ ]}\"{~a0/Z\x7f\x80\xff"[g.below(15)];
    return s;
}
void default_case(Case &c)
{
    Gen &g = c.g;
    std::string t = rnd_text(g, g.chance(1, 20) ? 4000 : 60);
    c.mixs(t);
    c.nontrivial = !t.empty();
    c.text = "encode " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    const std::string *tab = table();
    std::string w = enc(tab, t);
    ExactZ z(t);
    char *r = charstr_url_encode(z.p);
    EV("url.encode");
    CHECK(z.unchanged(), "url:source", "encoding modified its input");
    CHECK(r && w == r, "url:encode", "%s encoded as \"%s\", expected \"%s\"", hexdump(t.data(), t.size()).c_str(), r ? r : "NULL",
          w.c_str());
    CHECK(mem_is_live(r), "url:fresh", "not a fresh string");
    TakeStr ts(r);
    check_decode(w, true, g.chance(1, 2)); // also inverts the default encoding
    unsigned b = g.below(256);
    const char *e = charstr_url_encode_byte(b);
    CHECK(tab[b] == e, "url:byte", "byte %02x encoded as \"%s\", expected \"%s\"", b, e, tab[b].c_str());
    c.evals += 3;
}
void decode_case(Case &c)
{
    Gen &g = c.g;
    std::string t;
    unsigned n = g.size(g.chance(1, 20) ? 3000 : 40);
    for (unsigned i = 0; i < n; i++)
        switch (g.below(8)) {
            case 0: case 1: case 2: {
                char b[8];
                snprintf(b, sizeof b, g.chance(1, 2) ? "%%%02x" : "%%%02X", (unsigned) (g.chance(1, 10) ? 0 : g.below(256)));
                t += b;
                break;
            }
            case 3: t += '+'; break;
            default: {
                char ch = (char) (1 + g.below(255));
                t += ch == '%' ? 'x' : ch;
            }
        }
    if (g.chance(1, 3)) {
        static const char *const F[] = {"%", "%%", "%1", "%g1", "%1g", "% 1", "%+1", "%\xff", "%0", "%a", "%1%", "%:0", "%0/", "%@0", "%`0", "%0G"};
        size_t at = g.chance(1, 3) ? t.size() : g.below(t.size() + 1);
        t.insert(at, F[g.below(16)]);
    }
    c.mixs(t);
    c.nontrivial = !t.empty();
    c.text = "decode " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    check_decode(t, false, true);
    check_decode(t, true, g.chance(1, 2));
    c.evals += 1;
}
struct Enc {
    charstr_url_encoder_t *e;
    std::string tab[256];
    std::string res, unres;
};
void custom_case(Case &c)
{
    Gen &g = c.g;
    const std::string *def = table();
    std::vector<Enc> v;
    unsigned ops = 3 + g.below(12);
    for (unsigned o = 0; o < ops; o++) {
        unsigned op = g.below(v.empty() ? 1 : 5);
        if (op == 0 && v.size() < 6) {
            v.emplace_back();
            Enc &x = v.back();
            std::set<u8> a, b;
            unsigned na = g.chance(1, 3) ? g.below(4) : g.below(60), nb = g.chance(1, 3) ? g.below(4) : g.below(60);
            bool inverse = g.chance(1, 2);
            if (inverse) {
                a.insert('%');
                a.insert('+');
            }
            for (unsigned i = 0; i < na; i++)
                a.insert((u8) (g.chance(1, 2) ? 1 + g.below(255) : 32 + g.below(96)));
            for (unsigned i = 0; i < nb; i++) {
                u8 k = (u8) (g.chance(1, 2) ? 1 + g.below(255) : 32 + g.below(96));
                if (!a.count(k))
                    b.insert(k);
            }
            for (u8 k : a)
                x.res.insert(g.below(x.res.size() + 1), 1, (char) k);
            for (u8 k : b)
                x.unres.insert(g.below(x.unres.size() + 1), 1, (char) k);
            if (g.chance(1, 3) && !x.res.empty())
                x.res += x.res; // named twice
            for (unsigned i = 0; i < 256; i++)
                x.tab[i] = a.count(i) ? pct(i) : b.count(i) ? std::string(1, (char) i) : def[i];
            {
                ExactZ r(x.res), u(x.unres);
                x.e = charstr_create_url_encoder(r.p, u.p);
                CHECK(r.unchanged() && u.unchanged(), "url:source", "creating an encoder modified its arguments");
            }
            CHECK(x.e, "url:create", "no encoder created");
            TR("encoder %zu: reserve %s unreserve %s", v.size() - 1, hexdump(x.res.data(), x.res.size()).c_str(),
               hexdump(x.unres.data(), x.unres.size()).c_str());
            c.mixs(x.res);
            c.mixs(x.unres);
            EV("url.custom.create");
            for (unsigned i = 0; i < 256; i++) {
                const char *e = charstr_url_custom_encode_byte(x.e, i);
                CHECK(x.tab[i] == e, "url:custombyte", "byte %02x encoded as \"%s\", expected \"%s\" (reserve %s unreserve %s)",
                      i, e, x.tab[i].c_str(), hexdump(x.res.data(), x.res.size()).c_str(),
                      hexdump(x.unres.data(), x.unres.size()).c_str());
            }
            c.evals += 256;
        } else if (op == 1 && g.chance(1, 2)) {
            size_t i = g.below(v.size());
            charstr_destroy_url_encoder(v[i].e);
            v.erase(v.begin() + i);
            EV("url.custom.destroy");
        } else if (op >= 2) {
            Enc &x = v[g.below(v.size())];
            std::string t = rnd_text(g, 80);
            std::string w = enc(x.tab, t);
            ExactZ z(t);
            TakeStr r(charstr_url_custom_encode(x.e, z.p));
            CHECK(r.p && w == r.p, "url:custom", "%s encoded as \"%s\", expected \"%s\" (reserve %s unreserve %s)",
                  hexdump(t.data(), t.size()).c_str(), r.str().c_str(), w.c_str(), hexdump(x.res.data(), x.res.size()).c_str(),
                  hexdump(x.unres.data(), x.unres.size()).c_str());
            EV("url.custom.encode");
            // inverse if '%' and '+' are reserved
            if (x.tab['%'] == "%25" && x.tab['+'] == "%2B") {
                bool space_plain = x.tab[' '] == "+";
                size_t n = 0;
                ExactZ q(w);
                char *d = charstr_url_decode(q.p, space_plain || g.chance(1, 2), &n);
                CHECK(d, "url:inverse", "decoding refused the encoding \"%s\"", w.c_str());
                TakeStr td(d);
                CHECK(n == t.size() && !memcmp(d, t.c_str(), n + 1), "url:inverse", "decoding does not invert the encoding of %s",
                      hexdump(t.data(), t.size()).c_str());
                EV("url.inverse");
            }
            c.evals++;
        }
        unsigned b = g.below(256);
        CHECK(def[b] == charstr_url_encode_byte(b), "url:default", "the default encoding of %02x changed", b);
        for (auto &x : v)
            CHECK(x.tab[b] == charstr_url_custom_encode_byte(x.e, b), "url:crosstalk",
                  "an encoder's encoding of byte %02x changed", b);
    }
    for (auto &x : v)
        charstr_destroy_url_encoder(x.e);
    c.nontrivial = ops > 3;
    c.text = fmtstr("%u operations on custom encoders", ops);
}
void sweep(Sweep &s)
{
    const std::string *tab = table();
    for (unsigned b = 0; b < 256; b++) {
        const char *e = charstr_url_encode_byte(b);
        CHECK(tab[b] == e, "url:byte", "byte %02x encoded as \"%s\", documented \"%s\"", b, e, tab[b].c_str());
        if (b) {
            for (unsigned d = 1; d < 256; d++) {
                if (!s.mine(b))
                    break;
                s.tick();
                std::string t{(char) b, (char) d};
                TakeStr r(charstr_url_encode(t.c_str()));
                CHECK(r.str() == tab[b] + tab[d], "url:encode", "%02x %02x encoded as \"%s\"", b, d, r.str().c_str());
                // the byte reserved and unreserved
                std::string one(1, (char) b);
                if (d == 1) {
                    charstr_url_encoder_t *x = charstr_create_url_encoder(one.c_str(), "");
                    charstr_url_encoder_t *y = charstr_create_url_encoder("", one.c_str());
                    for (unsigned k = 0; k < 256; k++) {
                        CHECK(charstr_url_custom_encode_byte(x, k) == (k == b ? pct(b) : tab[k]), "url:custombyte",
                              "reserving %02x: byte %02x", b, k);
                        CHECK(charstr_url_custom_encode_byte(y, k) == (k == b ? one : tab[k]), "url:custombyte",
                              "unreserving %02x: byte %02x", b, k);
                    }
                    charstr_destroy_url_encoder(x);
                    charstr_destroy_url_encoder(y);
                    s.evals += 512;
                }
                s.evals++;
                s.distinct++;
            }
        }
    }
    // all % sequences
    for (unsigned v = 0; v < 65536; v++) {
        if (!s.mine(v >> 8))
            continue;
        s.tick();
        std::string t = "a%";
        t += (char) (v >> 8);
        t += (char) v;
        t += "b";
        t = t.c_str();
        check_decode(t, v & 1, true);
        s.evals++;
        s.distinct++;
    }
    static const char A[] = "%0fG+\xff";
    unsigned L = opt.asan() ? 5 : opt.quick() ? 6 : 8;
    for (unsigned n = 0; n <= L; n++) {
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= 6;
        for (u64 v = 0; v < total; v++) {
            if (!s.mine(v >> 4))
                continue;
            s.tick();
            std::string t;
            u64 x = v;
            for (unsigned i = 0; i < n; i++) {
                t += A[x % 6];
                x /= 6;
            }
            check_decode(t, v & 1, true);
            s.evals++;
            s.distinct++;
        }
    }
    s.sample("every byte and pair of bytes encoded; every byte reserved and unreserved; every %xy; all short strings over "
             "{%,0,f,G,+,0xFF} decoded");
}
} // namespace
REG_SWEEP("C20", url_sweep, sweep, 1, 1, 0);
REG_CASES("C20", url_default, default_case, 60000, 15000, 30, OWN | THR);
REG_CASES("C20", url_decode, decode_case, 60000, 15000, 30, OWN | THR);
REG_CASES("C20", url_custom, custom_case, 12000, 3000, 30, OWN | THR);
