// C21, C22: splitting, stripping, duplicating; ASCII classes, case and
// comparison.
#include "core.h"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <clocale>

namespace {
bool ws(char c) { return c == '\t' || c == '\n' || c == '\f' || c == '\r' || c == ' '; }
char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char upp(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

typedef std::vector<std::string> Strs;
Strs ref_split(const std::string &s, const std::string &d, unsigned max)
{
    Strs v;
    size_t p = 0;
    while (max--) {
        size_t q = s.find(d, p);
        if (q == std::string::npos)
            break;
        v.push_back(s.substr(p, q - p));
        p = q + d.size();
    }
    v.push_back(s.substr(p));
    return v;
}
// takes the list over and compares
void judge_list(list_t *l, const Strs &w, const char *what, const std::string &s)
{
    CHECK(l, "str:split", "%s returned NULL", what);
    CHECK(list_size(l) == w.size(), "str:split", "%s of %s gives %zu pieces, expected %zu", what,
          hexdump(s.data(), s.size()).c_str(), (size_t) list_size(l), w.size());
    size_t i = 0;
    std::set<const void *> seen;
    for (list_elem_t *e = list_get_first(l); e; e = list_next(e), i++) {
        char *p = (char *) list_elem_get_value(e);
        CHECK(p && mem_is_live(p) && seen.insert(p).second, "str:fresh", "a piece of %s is not a fresh string", what);
        CHECK(w[i] == p, "str:split", "piece %zu of %s of %s is %s, expected %s", i, what, hexdump(s.data(), s.size()).c_str(),
              hexdump(p, strlen(p)).c_str(), hexdump(w[i].data(), w[i].size()).c_str());
    }
    CHECK(i == w.size(), "str:split", "%s: walked %zu pieces of %zu", what, i, w.size());
    while (!list_empty(l))
        fsfree((void *) list_pop_first(l));
    destroy_list(l);
}
std::string rnd_text(Gen &g, const std::string &alpha, unsigned max)
{
    std::string s;
    unsigned n = g.size(max);
    for (unsigned i = 0; i < n; i++)
        s += g.chance(1, 8) ? (char) (1 + g.below(255)) : alpha[g.below(alpha.size())];
    return s;
}
unsigned rnd_max(Gen &g, unsigned pieces)
{
    switch (g.below(8)) {
        case 0: return 0;
        case 1: return 1;
        case 2: return (unsigned) -1;
        case 3: return pieces;
        case 4: return pieces ? pieces - 1 : 0;
        case 5: return pieces + 1;
        case 6: return (unsigned) g.value();
        default: return g.below(pieces + 2);
    }
}
void split_into_array(const std::string &s, char d, unsigned max, size_t cap)
{
    Strs w = ref_split(s, std::string(1, d), max);
    std::vector<char *> arr(cap + 4, (char *) 0x5a5a);
    Exact mem_((const char *) arr.data(), cap * sizeof(char *));
    char **a = (char **) mem_.p;
    ExactZ z(s);
    unset(a, w.size() * sizeof *a);
    unsigned r = charstr_split_into_array(z.p, d, a, max);
    EV("str.split.array");
    CHECK(z.unchanged(), "str:source", "splitting modified its input");
    CHECK(r == w.size() - 1, "str:array", "splitting %s into an array reports %u splits, expected %zu",
          hexdump(s.data(), s.size()).c_str(), r, w.size() - 1);
    for (size_t i = 0; i < w.size(); i++) {
        CHECK(a[i] && mem_is_live(a[i]) && w[i] == a[i], "str:array", "piece %zu of the array is %s, expected %s", i,
              a[i] ? hexdump(a[i], strlen(a[i])).c_str() : "NULL", hexdump(w[i].data(), w[i].size()).c_str());
        fsfree(a[i]);
    }
    for (size_t i = w.size(); i < cap; i++)
        CHECK(a[i] == (char *) 0x5a5a, "str:arrayextra", "array element %zu was touched, %zu pieces", i, w.size());
}
void split_case(Case &c)
{
    Gen &g = c.g;
    static const char *const ALPHA[] = {"ab,", ",,,a", "aab", "ab \t\n", "\xff\x80,a", "a.b/c:"};
    std::string alpha = ALPHA[g.below(6)];
    std::string s = rnd_text(g, alpha, g.chance(1, 20) ? 3000 : 40);
    char d = g.chance(1, 6) ? (char) g.below(256) : alpha[g.below(alpha.size())];
    if (g.chance(1, 40))
        d = 0; // which no string contains
    std::string ds;
    unsigned dn = 1 + g.below(4);
    if (g.chance(1, 4) && s.size() > 3) {
        size_t at = g.below(s.size() - 1);
        ds = s.substr(at, 1 + g.below(6));
    } else
        for (unsigned i = 0; i < dn; i++)
            ds += d && g.chance(2, 3) ? d : alpha[g.below(alpha.size())];
    c.mixs(s);
    c.mixs(ds);
    unsigned full = ref_split(s, std::string(1, d), -1).size();
    unsigned max = rnd_max(g, full);
    c.mix(max);
    c.nontrivial = full > 1;
    c.text = fmtstr("split %s at %02x, limit %u", hexdump(s.data(), s.size()).c_str(), (u8) d, max);
    TR("%s and at %s", c.text.c_str(), hexdump(ds.data(), ds.size()).c_str());
    {
        ExactZ z(s);
        Strs w = ref_split(s, std::string(1, d), max);
        list_t *l = charstr_split(z.p, d, max);
        CHECK(z.unchanged(), "str:source", "splitting modified its input");
        judge_list(l, w, "split", s);
        EV("str.split");
        if (w.size() > 1)
            EV("str.split.several");
        if (max != (unsigned) -1 && w.size() == max + 1 && full > w.size())
            EV("str.split.limited");
    }
    {
        unsigned cap = max < 100000 ? max + 1 : full + 2;
        split_into_array(s, d, max < 100000 ? max : (unsigned) full + 1, cap);
    }
    {
        unsigned fs = ref_split(s, ds, -1).size(), m2 = rnd_max(g, fs);
        ExactZ z(s), zd(ds);
        list_t *l = charstr_split_str(z.p, zd.p, m2);
        CHECK(z.unchanged() && zd.unchanged(), "str:source", "splitting modified its input");
        judge_list(l, ref_split(s, ds, m2), "split at a string", s);
        EV("str.split.str");
        if (fs > 1)
            EV("str.split.str.several");
    }
    c.evals += 2;
}
void atoms_case(Case &c)
{
    Gen &g = c.g;
    static const char *const ALPHA[] = {"ab \t", " \t\n\f\r\v", "a b\x0b\x85\xa0", "\x1f\x1e\x1c !a "};
    std::string s = rnd_text(g, ALPHA[g.below(4)], g.chance(1, 20) ? 3000 : 30);
    c.mixs(s);
    c.nontrivial = !s.empty();
    c.text = "atoms and strip of " + hexdump(s.data(), s.size());
    TR("%s", c.text.c_str());
    Strs w;
    std::string cur;
    for (char ch : s) {
        if (ws(ch)) {
            if (!cur.empty())
                w.push_back(cur);
            cur.clear();
        } else
            cur += ch;
    }
    if (!cur.empty())
        w.push_back(cur);
    ExactZ z(s);
    judge_list(charstr_split_atoms(z.p), w, "split into atoms", s);
    EV("str.atoms");
    if (w.empty() && !s.empty())
        EV("str.atoms.none");
    size_t a = 0, b = s.size();
    while (a < b && ws(s[a]))
        a++;
    while (b > a && ws(s[b - 1]))
        b--;
    TakeStr r(charstr_strip(z.p));
    CHECK(r.p && mem_is_live(r.p) && r.str() == s.substr(a, b - a), "str:strip", "stripping %s gives %s",
          hexdump(s.data(), s.size()).c_str(), hexdump(r.p, r.p ? strlen(r.p) : 0).c_str());
    CHECK(z.unchanged(), "str:source", "stripping or splitting modified its input");
    EV("str.strip");
    if (a == b && !s.empty())
        EV("str.strip.all");
    c.evals++;
}
void dup_case(Case &c)
{
    Gen &g = c.g;
    std::string s;
    unsigned n = g.size(g.chance(1, 20) ? 70000 : 300);
    for (unsigned i = 0; i < n; i++)
        s += (char) g.below(256); // NULs included
    c.mixs(s);
    c.nontrivial = n > 0;
    c.text = fmtstr("duplicate %u bytes", n);
    {
        Exact e(s);
        size_t a = g.below(n + 1), b = a + g.below(n - a + 1);
        TakeStr r(charstr_dupsubstr(e.p + a, e.p + b));
        CHECK(r.p && mem_is_live(r.p) && !memcmp(r.p, s.data() + a, b - a) && !r.p[b - a], "str:dupsub",
              "duplicating bytes %zu..%zu", a, b);
        size_t sz;
        CHECK(!mem_is_live(r.p, &sz) || sz >= b - a + 1, "str:dupsub", "the duplicate's block is too small");
        EV("str.dupsub");
        CHECK(e.unchanged(), "str:source", "duplicating modified its input");
    }
    std::string t = s.c_str();
    ExactZ z(t);
    TakeStr r(charstr_dupstr(z.p)), r2(charstr_dupsubstr(z.p, nullptr));
    CHECK(r.p && mem_is_live(r.p) && t == r.p, "str:dup", "duplicating a string of %zu bytes", t.size());
    CHECK(r2.p && t == r2.p, "str:dup", "duplicating a string of %zu bytes without limit", t.size());
    CHECK(z.unchanged(), "str:source", "duplicating modified its input");
    CHECK(!charstr_dupstr(nullptr) && !charstr_strip(nullptr), "str:null", "NULL does not give NULL");
    EV("str.dup");
    c.evals += 2;
}
void split_sweep(Sweep &s)
{
    // all short strings, all limits
    static const char A[] = "a, ";
    unsigned L = opt.asan() ? 6 : opt.quick() ? 8 : 10;
    for (unsigned n = 0; n <= L; n++) {
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= 3;
        for (u64 v = 0; v < total; v++) {
            if (!s.mine(v >> 3))
                continue;
            s.tick();
            std::string t;
            u64 x = v;
            for (unsigned i = 0; i < n; i++) {
                t += A[x % 3];
                x /= 3;
            }
            for (unsigned max = 0; max <= n + 1; max += 1 + max / 3) {
                judge_list(charstr_split(t.c_str(), ',', max), ref_split(t, ",", max), "split", t);
                judge_list(charstr_split_str(t.c_str(), ",,", max), ref_split(t, ",,", max), "split at a string", t);
                judge_list(charstr_split_str(t.c_str(), ",a,", max), ref_split(t, ",a,", max), "split at a string", t);
                split_into_array(t, ',', max, max + 1);
                s.evals += 4;
            }
            size_t a = 0, b = t.size();
            while (a < b && ws(t[a]))
                a++;
            while (b > a && ws(t[b - 1]))
                b--;
            TakeStr r(charstr_strip(t.c_str()));
            CHECK(r.str() == t.substr(a, b - a), "str:strip", "stripping \"%s\" gives \"%s\"", t.c_str(), r.str().c_str());
            s.distinct++;
        }
    }
    // more pieces than 16 bits count, limits around that
    static const unsigned LIMITS[] = {65534, 65535, 65536, 65537, 69999, 70000, 70001, UINT_MAX};
    for (unsigned k = 0; k < 8; k++) {
        if (!s.mine(k) || opt.asan())
            continue;
        std::string t, u;
        for (unsigned i = 0; i < 70000; i++) {
            t += i % 7 ? "," : "ab,";
            u += i % 5 ? "x " : "yz\t";
        }
        s.tick();
        judge_list(charstr_split(t.c_str(), ',', LIMITS[k]), ref_split(t, ",", LIMITS[k]), "split", t);
        s.tick();
        judge_list(charstr_split_str(t.c_str(), ",", LIMITS[k]), ref_split(t, ",", LIMITS[k]), "split at a string", t);
        s.tick();
        if (k < 7)
            split_into_array(t, ',', LIMITS[k], LIMITS[k] + 1);
        s.tick();
        list_t *l = charstr_split_atoms(u.c_str());
        CHECK(list_size(l) == 70000, "str:atoms", "70000 words split into %zu atoms", (size_t) list_size(l));
        for (unsigned i = 0; !list_empty(l); i++) {
            TakeStr a((char *) list_pop_first(l));
            CHECK(a.str() == (i % 5 ? "x" : "yz"), "str:atoms", "atom %u of 70000 is %s", i, a.str().c_str());
        }
        destroy_list(l);
        EV("str.split.many");
        s.evals += 4;
        s.distinct++;
    }
    // every byte as delimiter, white space or not
    for (unsigned b = 0; b < 256; b++) {
        if (!s.mine(b))
            continue;
        std::string d(1, (char) b), t = "x" + d + d + "y" + d;
        if (!b) {
            for (const char *p : {"", "x", "xy, z"}) {
                ExactZ z(p);
                judge_list(charstr_split(z.p, 0, -1), Strs{p}, "split at NUL", p);
                split_into_array(p, 0, 5, 6);
                EV("str.split.nul");
            }
            continue;
        }
        judge_list(charstr_split(t.c_str(), (char) b, -1), ref_split(t, d, -1), "split", t);
        split_into_array(t, (char) b, 5, 6);
        TakeStr r(charstr_strip((d + "q" + d).c_str()));
        CHECK(r.str() == (ws((char) b) ? "q" : d + "q" + d), "str:strip", "stripping with byte %02x", b);
        Strs w = ws((char) b) ? Strs{"x", "y"} : Strs{t};
        judge_list(charstr_split_atoms(t.c_str()), w, "split into atoms", t);
        s.evals += 4;
        s.distinct++;
    }
    s.sample("every string of up to 8 characters over {a , space} with every limit; every byte as delimiter");
}

// ---------------------------------------------------------------- C22
u64 classes(unsigned b)
{
    u64 r = 0;
    if (b < 32 || b == 127) r |= 0x0001;
    if (b >= '0' && b <= '9') r |= 0x0002;
    if (b >= 'a' && b <= 'z') r |= 0x0004;
    if (b >= 'A' && b <= 'Z') r |= 0x0008;
    if (b == '\t') r |= 0x0010;
    if (b == '\n') r |= 0x0020;
    if (b == '\f') r |= 0x0040;
    if (b == '\r') r |= 0x0080;
    if (b == ' ') r |= 0x0100;
    if (b >= '0' && b <= '7') r |= 0x0200;
    if ((b >= '0' && b <= '9') || (b >= 'a' && b <= 'f') || (b >= 'A' && b <= 'F')) r |= 0x0400;
    if (b == '_') r |= 0x0800;
    if (b >= 32 && b < 127) r |= 0x1000;
    return r;
}
int ref_cmp(const std::string &a, const std::string &b)
{
    for (size_t i = 0;; i++) {
        bool ea = i >= a.size(), eb = i >= b.size();
        if (ea || eb)
            return ea && eb ? 0 : ea ? -1 : 1;
        u8 x = (u8) low(a[i]), y = (u8) low(b[i]);
        if (x != y)
            return x < y ? -1 : 1;
    }
}
int sign(int x) { return x < 0 ? -1 : x > 0; }
void bytes_sweep(Sweep &s)
{
    static const char *const LOC[] = {"C", "C.UTF-8", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "POSIX"};
    unsigned n = 0;
    std::string before = setlocale(LC_ALL, nullptr);
    for (const char *loc : LOC) {
        if (!setlocale(LC_ALL, loc))
            continue;
        n++;
        for (unsigned b = 0; b < 256; b++) {
            char ch = (char) b;
            CHECK(charstr_char_class(ch) == classes(b), "str:class", "class of byte %02x is %llx, expected %llx", b,
                  (unsigned long long) charstr_char_class(ch), (unsigned long long) classes(b));
            CHECK(charstr_lcase_char(ch) == low(ch), "str:lower", "lower case of byte %02x is %02x", b, (u8) charstr_lcase_char(ch));
            CHECK(charstr_ucase_char(ch) == upp(ch), "str:upper", "upper case of byte %02x is %02x", b, (u8) charstr_ucase_char(ch));
            if (classes(b) & 0x400) {
                unsigned w = b <= '9' ? b - '0' : (b | 32) - 'a' + 10;
                CHECK(charstr_digit_value(ch) == w, "str:digit", "value of digit %c is %u", b, charstr_digit_value(ch));
            }
            s.evals += 4;
            s.distinct++;
            EV("str.byte");
        }
    }
    setlocale(LC_ALL, before.c_str());
    EVN("str.locales", n);
    // every pair of bytes
    for (unsigned a = 0; a < 256; a++) {
        if (!s.mine(a))
            continue;
        s.tick();
        for (unsigned b = 0; b < 256; b++) {
            char x[4] = {'k', (char) a, 'A', 0}, y[4] = {'K', (char) b, 'a', 0};
            std::string sx = x, sy = y;
            int w = ref_cmp(sx, sy);
            CHECK(sign(charstr_case_cmp(x, y)) == w, "str:cmp", "comparison of bytes %02x and %02x is not %d", a, b, w);
            for (size_t k = 0; k < 5; k++) {
                int wn = ref_cmp(sx.substr(0, k), sy.substr(0, k));
                CHECK(sign(charstr_ncase_cmp(x, y, k)) == wn, "str:ncmp", "comparison of bytes %02x and %02x limited to %zu is not %d",
                      a, b, k, wn);
            }
            const char *r = charstr_case_skip_prefix(sx.c_str(), sy.c_str());
            bool pre = sy.size() <= sx.size() && ref_cmp(sx.substr(0, sy.size()), sy) == 0;
            CHECK(r == (pre ? sx.c_str() + sy.size() : nullptr), "str:caseprefix", "bytes %02x %02x", a, b);
            r = charstr_skip_prefix(sx.c_str(), sy.c_str());
            pre = sx.compare(0, sy.size(), sy) == 0;
            CHECK(r == (pre ? sx.c_str() + sy.size() : nullptr), "str:prefix", "bytes %02x %02x", a, b);
            s.evals += 8;
            s.distinct++;
        }
    }
    s.sample("every byte in every locale installed; every pair of bytes compared");
}
void cmp_case(Case &c)
{
    Gen &g = c.g;
    std::string a, b;
    unsigned n = g.size(g.chance(1, 20) ? 2000 : 24);
    bool nasty = g.chance(1, 3);
    for (unsigned i = 0; i < n; i++)
        a += nasty ? (char) (1 + g.below(255)) : "abAB[@`{zZ\xc1\xe1_^"[g.below(14)];
    b = a;
    for (auto &ch : b)
        if (g.chance(1, 3))
            ch = g.chance(1, 2) ? low(ch) : upp(ch);
    switch (g.below(5)) {
        case 0: break;
        case 1: b.resize(g.below(n + 1)); break;
        case 2: b += (char) (1 + g.below(255)); break;
        default:
            if (n) {
                size_t at = g.chance(1, 2) ? n - 1 - g.below(n < 3 ? n : 3) : g.below(n);
                b[at] = g.chance(1, 2) ? (char) (b[at] ^ 32) : (char) (1 + g.below(255));
                if (!b[at])
                    b[at] = 1;
            }
    }
    if (g.chance(1, 2))
        std::swap(a, b);
    c.mixs(a);
    c.mixs(b);
    c.nontrivial = n > 1;
    c.text = "compare " + hexdump(a.data(), a.size()) + " with " + hexdump(b.data(), b.size());
    TR("%s", c.text.c_str());
    ExactZ za(a), zb(b);
    int w = ref_cmp(a, b);
    int r = charstr_case_cmp(za.p, zb.p), q = charstr_case_cmp(zb.p, za.p);
    CHECK(sign(r) == w && sign(q) == -w, "str:cmp", "comparison of %s with %s is %d and %d, expected %d",
          hexdump(a.data(), a.size()).c_str(), hexdump(b.data(), b.size()).c_str(), r, q, w);
    EV("str.cmp");
    if (!w && a != b)
        EV("str.cmp.casediff");
    // limited: no byte beyond n exists
    size_t ks[] = {0, g.below(a.size() + 1), a.size(), b.size(), a.size() + 1, SIZE_MAX, g.below(b.size() + 1)};
    for (size_t k : ks) {
        std::string xa = a.substr(0, std::min(k, a.size())), xb = b.substr(0, std::min(k, b.size()));
        int wn = ref_cmp(xa, xb);
        Exact ea(k <= a.size() ? xa : a + std::string(1, 0)), eb(k <= b.size() ? xb : b + std::string(1, 0));
        int rn = charstr_ncase_cmp(ea.p, eb.p, k);
        CHECK(sign(rn) == wn, "str:ncmp", "comparison of %s with %s limited to %zu is %d, expected %d",
              hexdump(a.data(), a.size()).c_str(), hexdump(b.data(), b.size()).c_str(), k, rn, wn);
        EV("str.ncmp");
        c.evals++;
    }
    // prefixes and suffixes
    std::string p = g.chance(1, 2) ? b : a.substr(0, g.below(a.size() + 1));
    if (g.chance(1, 3) && !p.empty())
        p[p.size() - 1] ^= g.chance(1, 2) ? 32 : 1;
    p = p.c_str();
    ExactZ zp(p);
    bool pre = a.size() >= p.size() && a.compare(0, p.size(), p) == 0;
    bool cpre = a.size() >= p.size() && ref_cmp(a.substr(0, p.size()), p) == 0;
    const char *want = pre ? za.p + p.size() : nullptr, *cwant = cpre ? za.p + p.size() : nullptr;
    CHECK(charstr_skip_prefix(za.p, zp.p) == want && charstr_case_starts_with(za.p, zp.p) == want, "str:prefix",
          "prefix %s of %s", hexdump(p.data(), p.size()).c_str(), hexdump(a.data(), a.size()).c_str());
    CHECK(charstr_case_skip_prefix(za.p, zp.p) == cwant && charstr_ncase_starts_with(za.p, zp.p) == cwant, "str:caseprefix",
          "prefix %s of %s", hexdump(p.data(), p.size()).c_str(), hexdump(a.data(), a.size()).c_str());
    if (pre)
        EV("str.prefix.yes");
    else
        EV("str.prefix.no");
    std::string sf = g.chance(1, 2) ? a.substr(a.size() - g.below(a.size() + 1)) : b;
    if (g.chance(1, 3))
        sf = (char) (1 + g.below(255)) + sf;
    if (g.chance(1, 4) && !sf.empty() && (sf[0] ^ 1))
        sf[0] ^= 1;
    ExactZ zs(sf);
    bool suf = a.size() >= sf.size() && a.compare(a.size() - sf.size(), sf.size(), sf) == 0;
    CHECK(charstr_ends_with(za.p, zs.p) == suf, "str:suffix", "suffix %s of %s", hexdump(sf.data(), sf.size()).c_str(),
          hexdump(a.data(), a.size()).c_str());
    if (suf)
        EV("str.suffix.yes");
    else
        EV("str.suffix.no");
    CHECK(za.unchanged() && zb.unchanged() && zp.unchanged() && zs.unchanged(), "str:source", "comparison modified its input");
    c.evals += 6;
}
void inplace_case(Case &c)
{
    Gen &g = c.g;
    std::string s;
    unsigned n = g.size(g.chance(1, 20) ? 3000 : 40);
    for (unsigned i = 0; i < n; i++)
        s += g.chance(1, 2) ? (char) g.below(256) : "aAzZ@[`{mM"[g.below(10)];
    c.mixs(s);
    c.nontrivial = n > 0;
    c.text = "in-place case of " + hexdump(s.data(), s.size());
    TR("%s", c.text.c_str());
    for (int up = 0; up < 2; up++) {
        size_t a = g.below(n + 1), b = a + g.below(n - a + 1);
        std::string w = s;
        for (size_t i = a; i < b; i++)
            w[i] = up ? upp(w[i]) : low(w[i]);
        Exact e(s);
        char *r = up ? charstr_ucase_substr(e.p + a, e.p + b) : charstr_lcase_substr(e.p + a, e.p + b);
        CHECK(r == e.p + a && !memcmp(e.p, w.data(), n), "str:substr", "in-place %s case of %zu..%zu of %s", up ? "upper" : "lower",
              a, b, hexdump(s.data(), s.size()).c_str());
        if (b == n && a == 0 && n)
            EV("str.inplace.all");
        // NUL-terminated: nothing beyond the NUL changes
        std::string z = s + std::string("\0Aa", 3);
        size_t end = strlen(z.c_str());
        w = z;
        for (size_t i = 0; i < end; i++)
            w[i] = up ? upp(w[i]) : low(w[i]);
        Exact f(z);
        r = up ? charstr_ucase_str(f.p) : charstr_lcase_str(f.p);
        CHECK(r == f.p && !memcmp(f.p, w.data(), w.size()), "str:instr", "in-place %s case of %s", up ? "upper" : "lower",
              hexdump(s.data(), s.size()).c_str());
        EV("str.inplace");
        c.evals += 2;
    }
}
} // namespace
REG_CASES("C21", str_split, split_case, 40000, 10000, 30, OWN | THR);
REG_CASES("C21", str_atoms, atoms_case, 40000, 10000, 30, OWN | THR);
REG_CASES("C21", str_dup, dup_case, 20000, 5000, 30, OWN | THR);
REG_SWEEP("C21", str_split_sweep, split_sweep, 1, 1, 0);
REG_CASES("C22", str_cmp, cmp_case, 60000, 15000, 30, THR);
REG_CASES("C22", str_inplace, inplace_case, 40000, 10000, 30, THR);
REG_SWEEP("C22", str_bytes, bytes_sweep, 1, 1, 0);
