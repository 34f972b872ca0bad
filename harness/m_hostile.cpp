// C11: arbitrary bytes through every text function, in buffers without a
// spare byte on either side.
#include "core.h"
#include <fsdyn/base64.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/list.h>

namespace {
const char *const BITS[] = {
    "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80",
    "\xf4\x8f\xbf\xbf", "\xef\xbf\xbf", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xf0\x90\x80\x80", "\xcc\x80", "\xcc\x81", "\xcd\x85",
    "\xcc\xa3", "\xe1\x84\x80", "\xe1\x85\xa1", "\xe1\x86\xa8", "\xea\xb0\x80", "\xed\x9e\xa3", "\xe2\x84\xab", "\xc3\xa5", "\xe1\xbe\x84",
    "\xf0\x9d\x85\x9e", "\xf0\xaf\xa1\xa8", "\xef\xb7\xba", "\xc2\xad", "\xe3\x80\x82", "\xc3\x9f", "xn--", "-", ".", "..", "%", "%4", "%zz",
    "%00", "%Fg", "+", "=", "==", "AAAA", "QQ==", "\r\n", " ", "\t", "\f", "\v", "a", "Z", "0", "\x7f", "\x80", "\xbf", "\xff", "\xfe", "\xfc",
    "\xe2", "\xe2\x82", "\xf0\x9f", "\xf0\x9f\x98", "\xc3", "\xe0\xa4\xbc", "\xe0\xad\x87", "\xe1\xb8\xaa", "\xf0\x9f\x98\x80"};
enum { NBITS = sizeof BITS / sizeof *BITS };
std::string rnd_bytes(Gen &g, size_t max)
{
    std::string s;
    size_t n = g.chance(1, 3) ? g.below(8) : g.chance(1, 2) ? g.below(60) : g.size(max);
    int style = g.below(8);
    if (style >= 2 && style <= 5 && n > 4000)
        n = 4000; // sorting marks takes quadratic time
    const char *rep = BITS[g.below(NBITS)], *rep2 = BITS[g.below(NBITS)];
    while (s.size() < n) {
        switch (style) {
            case 0: s += (char) g.below(256); break;
            case 1: s += (char) (1 + g.below(255)); break;
            case 2: s += BITS[g.below(NBITS)]; break;
            case 3: s += g.chance(1, 8) ? std::string(1, (char) g.below(256)) : std::string(BITS[g.below(NBITS)]); break;
            case 4: s += rep; break;
            case 5: s += g.chance(1, 2) ? rep : rep2; break;
            case 6: s += dict.strs.empty() ? "x" : g.pick(dict.strs); break;
            default: s += (char) (g.chance(1, 10) ? g.below(256) : 32 + g.below(95));
        }
    }
    if (s.size() > n && g.chance(1, 2))
        s.resize(n); // cut in the middle of a character
    if (!s.empty() && g.chance(1, 4)) {
        for (int k = g.below(4); k >= 0; k--) {
            size_t at = g.below(s.size());
            switch (g.below(4)) {
                case 0: s[at] ^= (char) (1 << g.below(8)); break;
                case 1: s[at] = (char) g.below(256); break;
                case 2: s.erase(at, 1); break;
                default: s.insert(at, 1, (char) g.below(256));
            }
            if (s.empty())
                break;
        }
    }
    return s;
}
std::string z(const std::string &s) { return s.substr(0, strlen(s.c_str())); }
#define SAME(x, what) CHECK((x).unchanged(), "hostile:input", "%s changed its input %s", what, hexdump((x).orig.data(), (x).orig.size()).c_str())

void free_list(list_t *l, const char *what)
{
    CHECK(l, "hostile:null", "%s returned NULL", what);
    while (!list_empty(l))
        fsfree((void *) list_pop_first(l));
    destroy_list(l);
}
// functions of a NUL-terminated string
int terminated(const std::string &str, Gen &g)
{
    ExactZ s(str);
    std::string ot = g.chance(1, 2) ? z(rnd_bytes(g, 50)) : str.substr(0, g.below(str.size() + 1));
    ExactZ o(ot);
    size_t n = g.below(str.size() + 4);
    charstr_case_cmp(s.p, o.p);
    charstr_case_cmp(o.p, s.p);
    charstr_ncase_cmp(s.p, o.p, n);
    charstr_ncase_cmp(s.p, o.p, SIZE_MAX);
    {
        // a bound inside both: nothing after it is read
        size_t m = g.below(str.size() + 1);
        Exact a(str.substr(0, m)), b(str.substr(0, m));
        charstr_ncase_cmp(a.p, b.p, m);
    }
    auto rest = [&](const char *p, const char *what) {
        CHECK(!p || (p >= s.p && p <= s.p + str.size()), "hostile:pointer", "%s returns a pointer outside the string", what);
    };
    rest(charstr_skip_prefix(s.p, o.p), "charstr_skip_prefix");
    rest(charstr_case_skip_prefix(s.p, o.p), "charstr_case_skip_prefix");
    rest(charstr_case_starts_with(s.p, o.p), "charstr_case_starts_with");
    rest(charstr_ncase_starts_with(s.p, o.p), "charstr_ncase_starts_with");
    charstr_ends_with(s.p, o.p);
    charstr_ends_with(o.p, s.p);
    { TakeStr r(charstr_dupstr(s.p)); }
    {
        size_t a = g.below(str.size() + 1);
        Exact b(str.substr(0, a));
        TakeStr r(charstr_dupsubstr(b.p, b.end()));
        SAME(b, "charstr_dupsubstr");
    }
    unsigned lim = g.chance(1, 3) ? (unsigned) -1 : g.below(12);
    char delim = str.empty() || g.chance(1, 4) ? (char) g.below(256) : str[g.below(str.size())];
    {
        free_list(charstr_split(s.p, delim, lim), "charstr_split");
        unsigned m = g.below(10);
        Exact arr(nullptr, (m + 1) * sizeof(char *));
        unsigned k = charstr_split_into_array(s.p, delim, (char **) arr.p, m);
        CHECK(k <= m, "hostile:split", "more splits than allowed");
        for (unsigned i = 0; i <= k; i++)
            fsfree(((char **) arr.p)[i]);
    }
    if (!ot.empty())
        free_list(charstr_split_str(s.p, o.p, lim), "charstr_split_str");
    free_list(charstr_split_atoms(s.p), "charstr_split_atoms");
    { TakeStr r(charstr_strip(s.p)); }
    charstr_valid_utf8(s.p);
    { TakeStr r(charstr_sanitize_utf8(s.p)); }
    { TakeStr r(charstr_url_encode(s.p)); }
    {
        size_t size = 77;
        TakeStr r(charstr_url_decode(s.p, g.chance(1, 2), g.chance(1, 5) ? nullptr : &size));
    }
    if (g.chance(1, 10)) {
        charstr_url_encoder_t *e = charstr_create_url_encoder(o.p, g.chance(1, 2) ? "!" : s.p);
        TakeStr r(charstr_url_custom_encode(e, s.p));
        charstr_destroy_url_encoder(e);
    }
    { TakeStr r(charstr_idna_encode(s.p)); }
    {
        size_t size = 5;
        void *p = base64_decode_simple(s.p, &size);
        fsfree(p);
    }
    base64_decode_buffer(s.p, (size_t) -1, nullptr, 0, -1, -1, g.chance(1, 2));
    {
        size_t m = g.below(str.size() + 2);
        Exact d(nullptr, m);
        ssize_t r = base64_decode_buffer(s.p, (size_t) -1, d.p, m, (char) g.below(256), (char) g.below(256), g.chance(1, 2));
        (void) r;
    }
    hash_string(s.p);
    const char *p = s.p;
    int cp;
    while (*p) { // no bound: the NUL is one
        const char *q = charstr_decode_utf8_codepoint(p, nullptr, &cp);
        CHECK(!q || (q > p && q <= s.p + str.size()), "hostile:pointer", "decoding steps outside the string");
        p = q ? q : p + 1;
    }
    SAME(s, "a string function");
    SAME(o, "a string function");
    ExactZ w(str);
    CHECK(charstr_lcase_str(w.p) == w.p, "hostile:inplace", "charstr_lcase_str");
    CHECK(charstr_ucase_str(w.p) == w.p, "hostile:inplace", "charstr_ucase_str");
    return 30;
}
void out_of(const char *what, const char *r, const Exact &out)
{
    CHECK(!r || (r >= out.p && r < out.end() && !*r), "hostile:output", "%s returns a pointer outside its output area or not to the NUL", what);
}
// functions of a bounded string
int bounded(const std::string &str, Gen &g, bool front)
{
    Exact s(str, front);
    int cp = 0, n = 12;
    charstr_valid_utf8_bounded(s.p, s.end());
    for (size_t i = 0; i < str.size() && i < 40; i++, n++) {
        size_t e = i + 1 + g.below(str.size() - i);
        Exact cut(str.substr(i, e - i));
        const char *r = charstr_decode_utf8_codepoint(cut.p, cut.end(), g.chance(1, 8) ? nullptr : &cp);
        CHECK(!r || (r > cut.p && r <= cut.end()), "hostile:pointer", "decoding steps outside the bounds");
    }
    charstr_detect_unicode_normal_form(s.p, s.end(), UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE);
    charstr_detect_unicode_normal_form(s.p, s.end(), UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE);
    charstr_unicode_canonically_composed(s.p, s.end());
    charstr_unicode_canonically_decomposed(s.p, s.end());
    for (int k = 0; k < 3; k++) {
        size_t m = k == 0 ? 3 * str.size() + 1 : k == 1 ? g.below(3 * str.size() + 2) : g.below(str.size() + 2);
        {
            Exact out(nullptr, m, g.chance(1, 2));
            out_of("charstr_unicode_decompose", charstr_unicode_decompose(s.p, s.end(), out.p, out.end()), out);
        }
        Exact out(nullptr, m, g.chance(1, 2));
        out_of("charstr_unicode_recompose", charstr_unicode_recompose(s.p, s.end(), out.p, out.end()), out);
    }
    {
        size_t m = g.below(str.size() + 2);
        Exact d(nullptr, m);
        base64_decode_buffer(s.p, s.n, d.p, m, -1, -1, g.chance(1, 2));
        Exact e(nullptr, m);
        base64_encode_buffer(s.p, s.n, e.p, m, -1, -1);
    }
    Exact w(str, front);
    size_t a = str.empty() ? 0 : g.below(str.size() + 1);
    if (str.find('\0') == std::string::npos) {
        Exact sub(str.substr(0, a));
        charstr_lcase_substr(sub.p, sub.end());
        charstr_ucase_substr(sub.p, sub.end());
        TakeStr r(charstr_dupsubstr(sub.p, sub.end()));
    }
    for (int k = 0; k < 4; k++) {
        Exact e(nullptr, g.below(6));
        int v = g.chance(1, 2) ? (int) g.below(0x110000) : g.chance(1, 2) ? (int) g.value() : 0x7ff + (int) g.below(3);
        const char *r = charstr_encode_utf8_codepoint(v, e.p, e.end());
        CHECK(!r || (r > e.p && r <= e.end()), "hostile:output", "encoding code point %d leaves the output area", v);
    }
    SAME(s, "a bounded string function");
    return n + 10;
}
void hostile_case(Case &c)
{
    Gen &g = c.g;
    std::string s = rnd_bytes(g, g.chance(1, 60) ? 40000 : 1200);
    c.mixs(s);
    TR("%s", hexdump(s.data(), s.size(), 100000).c_str());
    c.evals = terminated(z(s), g) + bounded(s, g, g.chance(1, 2));
    if (s.find('\0') != std::string::npos)
        EV("hostile.nul");
    if (s.size() > 5000)
        EV("hostile.long");
    EV("hostile.bytes");
    c.nontrivial = !s.empty();
    c.text = hexdump(s.data(), s.size(), 60);
}
// every string of up to two bytes, and of three and four from a choice
void hostile_sweep(Sweep &s)
{
    Gen g(opt.seed * 31 + s.shard);
    auto one = [&](const std::string &t) {
        if (t.find('\0') == std::string::npos)
            s.evals += terminated(t, g);
        s.evals += bounded(t, g, s.distinct & 1);
        s.distinct++;
        if (!(s.distinct & 255))
            s.tick();
    };
    if (s.mine(0))
        one("");
    for (unsigned a = 0; a < 256; a++) {
        if (!s.mine(a))
            continue;
        one(std::string(1, (char) a));
        for (unsigned b = 0; b < 256; b++)
            if (!opt.asan() || !opt.quick() || (b & 7) == (a & 7))
                one(std::string(1, (char) a) + (char) b);
    }
    static const u8 A[] = {0, '%', '=', '.', '-', 'A', 0x7f, 0x80, 0xbf, 0xcc, 0xc0, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xff};
    u64 i = 0;
    for (u8 a : A)
        for (u8 b : A)
            for (u8 x : A) {
                if (!s.mine(i++))
                    continue;
                std::string t = {(char) a, (char) b, (char) x};
                one(t);
                if (!opt.quick())
                    for (u8 y : A)
                        one(t + (char) y);
            }
    EV("hostile.sweep");
    s.sample("all strings of up to two bytes, strings of three from 17 bytes");
}
// very long inputs: nothing depends on the stack
void long_case(Case &c)
{
    Gen &g = c.g;
    size_t n = 100000 + g.below(opt.quick() ? 300000 : 3000000);
    std::string unit;
    int k = g.below(6);
    switch (k) {
        case 0: unit = "\xc3\xa5"; break;
        case 1: unit = "a\xcc\x81"; break;
        case 2: unit = "\xff"; break;
        case 3: unit = " x"; break;
        case 4: unit = "\xc2\xad"; break;
        default: unit = "%C3";
    }
    std::string s;
    while (s.size() < n)
        s += unit;
    if (g.chance(1, 2))
        s[g.below(s.size())] = (char) (1 + g.below(255));
    c.mix(n);
    c.mix(k);
    c.evals = terminated(s, g) + bounded(s, g, false);
    c.nontrivial = true;
    c.text = fmtstr("%zu bytes", s.size());
    EV("hostile.verylong");
}
// NULL where it is documented
void null_sweep(Sweep &s)
{
    int cp = 1;
    CHECK(!charstr_strip(nullptr), "hostile:nullarg", "charstr_strip(NULL)");
    CHECK(!charstr_decode_utf8_codepoint(nullptr, nullptr, &cp) && !charstr_decode_utf8_codepoint(nullptr, "x", nullptr), "hostile:nullarg",
          "decoding NULL");
    CHECK(!charstr_encode_utf8_codepoint(65, nullptr, nullptr), "hostile:nullarg", "encoding to NULL");
    charstr_destroy_url_encoder(charstr_create_url_encoder("", ""));
    s.evals = 5;
    s.distinct = 1;
    for (int x : {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1, -1, 0x110000, 0x7fffff00}) {
        Exact b(nullptr, 8);
        charstr_encode_utf8_codepoint(x, b.p, b.end());
        s.evals++;
    }
    EV("hostile.null");
}
} // namespace
REG_CASES("C11", hostile, hostile_case, 120000, 40000, 30, OWN | THR);
REG_CASES("C11", hostile_long, long_case, 160, 80, 10, 0);
REG_SWEEP("C11", hostile_sweep, hostile_sweep, 1, 1, 0);
REG_SWEEP("C11", hostile_null, null_sweep, 1, 1, 0);
