#include "udata.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

const u8 *ud_cat, *ud_ccc, *ud_nf, *ud_excl, *ud_idna;
std::map<int, int> ud_lower, ud_upper;
std::map<int, Pair> ud_dec;
std::map<std::pair<int, int>, int> ud_comp;
std::map<int, std::string> ud_map;
std::vector<int> ud_marks, ud_decs, ud_valid_letters, ud_mapped, ud_ignored, ud_disallowed, ud_nfc_maybe;
static std::vector<int> seconds; // second halves of compositions

void data_load(const char *path)
{
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st) < 0) {
        perror(path);
        exit(2);
    }
    const u8 *p = (const u8 *) mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (p == MAP_FAILED || memcmp(p, "FSDYNUCD", 8)) {
        fprintf(stderr, "bad reference data\n");
        exit(2);
    }
    const size_t N = 0x110000;
    ud_cat = p + 8;
    ud_ccc = ud_cat + N;
    ud_nf = ud_ccc + N;
    ud_excl = ud_nf + N;
    ud_idna = ud_excl + N;
    const u8 *q = ud_idna + N;
    auto u = [&]() {
        u32 v;
        memcpy(&v, q, 4);
        q += 4;
        return (int) v;
    };
    for (int n = u(); n--;) {
        int a = u();
        ud_lower[a] = u();
    }
    for (int n = u(); n--;) {
        int a = u();
        ud_upper[a] = u();
    }
    for (int n = u(); n--;) {
        int c = u(), a = u(), b = u();
        ud_dec[c] = {a, b};
        ud_decs.push_back(c);
        if (b && !ud_excl[c]) {
            ud_comp[{a, b}] = c;
            seconds.push_back(b);
        }
    }
    for (int n = u(); n--;) {
        int c = u(), l = u();
        ud_map[c] = std::string((const char *) q, l);
        q += l;
    }
    for (int c = 0; c < (int) N; c++) {
        if (ud_ccc[c])
            ud_marks.push_back(c);
        if (!scalar(c))
            continue;
        if (ud_nf[c] & 2)
            ud_nfc_maybe.push_back(c);
        switch (ud_idna[c]) {
            case 0:
                if (c >= 0x80 && !ud_ccc[c] && ud_cat[c] >= 5 && ud_cat[c] <= 9)
                    ud_valid_letters.push_back(c);
                break;
            case 1:
                ud_mapped.push_back(c);
                break;
            case 2:
                ud_ignored.push_back(c);
                break;
            case 4: case 5: case 6:
                if (c >= 0x80 && (ud_cat[c] || c % 97 == 0))
                    ud_disallowed.push_back(c);
        }
    }
}

unsigned ref_decode(const u8 *p, size_t n, int *cp)
{
    // Table 3-7 of the Unicode standard
    if (!n)
        return 0;
    unsigned a = p[0];
    if (a <= 0x7f) {
        if (cp) *cp = a;
        return 1;
    }
    unsigned lo = 0x80, hi = 0xbf, len;
    if (a < 0xc2) return 0;
    else if (a <= 0xdf) len = 2;
    else if (a <= 0xef) {
        len = 3;
        if (a == 0xe0) lo = 0xa0;
        if (a == 0xed) hi = 0x9f;
    } else if (a <= 0xf4) {
        len = 4;
        if (a == 0xf0) lo = 0x90;
        if (a == 0xf4) hi = 0x8f;
    } else return 0;
    if (n < len || p[1] < lo || p[1] > hi)
        return 0;
    for (unsigned i = 2; i < len; i++)
        if (p[i] < 0x80 || p[i] > 0xbf)
            return 0;
    if (cp) {
        if (len == 2) *cp = (a - 0xc0) * 64 + (p[1] - 0x80);
        else if (len == 3) *cp = (a - 0xe0) * 4096 + (p[1] - 0x80) * 64 + (p[2] - 0x80);
        else *cp = (a - 0xf0) * 262144 + (p[1] - 0x80) * 4096 + (p[2] - 0x80) * 64 + (p[3] - 0x80);
    }
    return len;
}
std::string ref_encode(int c)
{
    std::string s;
    if (c < 0x80)
        s += (char) c;
    else if (c < 0x800) {
        s += (char) (0xc0 + c / 64);
        s += (char) (0x80 + c % 64);
    } else if (c < 0x10000) {
        s += (char) (0xe0 + c / 4096);
        s += (char) (0x80 + c / 64 % 64);
        s += (char) (0x80 + c % 64);
    } else {
        s += (char) (0xf0 + c / 262144);
        s += (char) (0x80 + c / 4096 % 64);
        s += (char) (0x80 + c / 64 % 64);
        s += (char) (0x80 + c % 64);
    }
    return s;
}
bool ref_decode_all(const std::string &s, Cps &out)
{
    out.clear();
    for (size_t i = 0; i < s.size();) {
        int c;
        unsigned l = ref_decode((const u8 *) s.data() + i, s.size() - i, &c);
        if (!l)
            return false;
        out.push_back(c);
        i += l;
    }
    return true;
}
std::string ref_encode_all(const Cps &v)
{
    std::string s;
    for (int c : v)
        s += ref_encode(c);
    return s;
}
bool ref_valid(const std::string &s)
{
    Cps c;
    return ref_decode_all(s, c);
}
static void decomp(int c, Cps &out)
{
    if (c >= 0xac00 && c <= 0xd7a3) {
        int i = c - 0xac00;
        out.push_back(0x1100 + i / 588);
        out.push_back(0x1161 + i % 588 / 28);
        if (i % 28)
            out.push_back(0x11a7 + i % 28);
        return;
    }
    auto it = ud_dec.find(c);
    if (it == ud_dec.end()) {
        out.push_back(c);
        return;
    }
    decomp(it->second.a, out);
    if (it->second.b)
        decomp(it->second.b, out);
}
Cps ref_nfd(const Cps &in)
{
    Cps o;
    for (int c : in)
        decomp(c, o);
    // canonical ordering: stable sort of every run of non-starters
    for (size_t i = 0; i < o.size();) {
        if (!ud_ccc[o[i]]) {
            i++;
            continue;
        }
        size_t j = i;
        while (j < o.size() && ud_ccc[o[j]])
            j++;
        std::stable_sort(o.begin() + i, o.begin() + j, [](int a, int b) { return ud_ccc[a] < ud_ccc[b]; });
        i = j;
    }
    return o;
}
static int compose_pair(int a, int b)
{
    if (a >= 0x1100 && a <= 0x1112 && b >= 0x1161 && b <= 0x1175)
        return 0xac00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28;
    if (a >= 0xac00 && a <= 0xd7a3 && (a - 0xac00) % 28 == 0 && b >= 0x11a8 && b <= 0x11c2)
        return a + (b - 0x11a7);
    auto it = ud_comp.find({a, b});
    return it == ud_comp.end() ? -1 : it->second;
}
Cps ref_nfc(const Cps &in)
{
    Cps d = ref_nfd(in), o;
    size_t starter = SIZE_MAX;
    for (int c : d) {
        int cc = ud_ccc[c];
        if (starter != SIZE_MAX) {
            // D115: blocked by a character between with ccc 0 or >= cc
            int last = starter + 1 == o.size() ? -1 : ud_ccc[o.back()];
            bool blocked = last != -1 && (last == 0 || last >= cc);
            if (!blocked) {
                int p = compose_pair(o[starter], c);
                if (p >= 0) {
                    o[starter] = p;
                    continue;
                }
            }
        }
        if (!cc)
            starter = o.size();
        o.push_back(c);
    }
    return o;
}
int ref_quick(const Cps &in, int dis, int maybe)
{
    int last = 0, r = 0;
    for (int c : in) {
        int cc = ud_ccc[c];
        if (last > cc && cc)
            return 1;
        if (ud_nf[c] & dis)
            return 1;
        if (ud_nf[c] & maybe)
            r = 2;
        last = cc;
    }
    return r;
}
// RFC 3492, section 6.3, in 128-bit arithmetic
bool ref_punycode(const Cps &in, std::string &out)
{
    typedef __int128 big;
    out.clear();
    for (int c : in)
        if (c < 0x80)
            out += (char) c;
    size_t b = out.size(), h = b;
    if (b)
        out += '-';
    big n = 128, delta = 0, bias = 72;
    while (h < in.size()) {
        big m = 0x7fffffff;
        for (int c : in)
            if (c >= n && c < m)
                m = c;
        delta += (m - n) * (big) (h + 1);
        n = m;
        for (int c : in) {
            if (c < n)
                delta++;
            if (c == n) {
                big q = delta;
                for (big k = 36;; k += 36) {
                    big t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
                    if (q < t)
                        break;
                    int dgt = (int) (t + (q - t) % (36 - t));
                    out += (char) (dgt < 26 ? 'a' + dgt : '0' + dgt - 26);
                    q = (q - t) / (36 - t);
                }
                out += (char) (q < 26 ? 'a' + (int) q : '0' + (int) q - 26);
                big d = h == b ? delta / 700 : delta / 2;
                d += d / (big) (h + 1);
                big k = 0;
                while (d > 455) {
                    d /= 35;
                    k += 36;
                }
                bias = k + 36 * d / (d + 38);
                delta = 0;
                h++;
            }
        }
        delta++;
        n++;
    }
    return true;
}

int rnd_cp(Gen &g)
{
    for (;;) {
        int c;
        switch (g.below(12)) {
            case 0: case 1: c = 0x20 + g.below(0x5f); break;
            case 2: c = 0x80 + g.below(0x780); break;
            case 3: c = g.pick(ud_marks); break;
            case 4: c = g.pick(ud_decs); break;
            case 5: c = 0xac00 + g.below(11172); break;
            case 6: c = 0x1100 + g.below(0x100); break;
            case 7: c = g.pick(seconds); break;
            case 8: {
                static const int edge[] = {0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1,
                                           0xfffd, 0xfffe, 0xfeff, 0x3ffff, 0x40000, 0xfdd0};
                c = edge[g.below(16)];
                break;
            }
            case 9: c = (int) (g.pick(dict.ints) + g.below(5) - 2); break;
            case 10: c = g.below(0x10000); break;
            default: c = g.below(0x110000);
        }
        if (c > 0 && scalar(c))
            return c;
    }
}
Cps rnd_norm_text(Gen &g, unsigned max)
{
    Cps v;
    unsigned n = g.below(max + 1);
    while (v.size() < n) {
        switch (g.below(10)) {
            case 0: { // a full decomposition, perhaps with something in between
                Cps d = ref_nfd({g.pick(ud_decs)});
                for (int c : d) {
                    v.push_back(c);
                    if (g.chance(1, 4))
                        v.push_back(g.pick(ud_marks));
                }
                break;
            }
            case 1: { // a base and marks
                auto it = ud_comp.begin();
                std::advance(it, g.below(ud_comp.size()));
                v.push_back(it->first.first);
                unsigned k = g.below(5);
                for (unsigned i = 0; i < k; i++)
                    v.push_back(g.pick(ud_marks));
                v.push_back(it->first.second);
                break;
            }
            case 2: // Hangul
                v.push_back(0x1100 + g.below(21) - 1);
                if (g.chance(1, 6))
                    v.push_back(g.pick(ud_marks));
                v.push_back(0x1161 + g.below(23) - 1);
                if (g.chance(1, 6))
                    v.push_back(g.pick(ud_marks));
                v.push_back(0x11a7 + g.below(30) - 1);
                break;
            case 3:
                v.push_back(0xac00 + g.below(399) * 28);
                v.push_back(0x11a7 + g.below(30) - 1);
                break;
            case 4: { // a run of marks
                unsigned k = g.chance(1, 8) ? g.below(60) : g.below(8);
                for (unsigned i = 0; i < k; i++)
                    v.push_back(g.pick(ud_marks));
                break;
            }
            case 5:
                v.push_back(g.pick(ud_decs));
                break;
            case 6:
                v.push_back(g.pick(seconds));
                break;
            default:
                v.push_back(rnd_cp(g));
        }
    }
    return v;
}
