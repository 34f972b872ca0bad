// C18: IDNA encoding against an independent implementation of UTS #46 with
// RFC 3492.
#include "udata.h"
#include <fsdyn/charstr.h>
#include <algorithm>

namespace {
enum Kind { MUST_FAIL, EXACT_NAME, EITHER };
struct Verdict {
    Kind kind;
    std::string out, why;
};
bool rtl(int c)
{
    return (c >= 0x590 && c <= 0x8ff) || (c >= 0x200f && c <= 0x200f) || (c >= 0xfb1d && c <= 0xfdff) ||
        (c >= 0xfe70 && c <= 0xfeff) || (c >= 0x10800 && c <= 0x10fff) || (c >= 0x1e800 && c <= 0x1efff);
}
bool is_mark(int c) { return ud_cat[c] >= 10 && ud_cat[c] <= 12; }

Verdict ref_idna(const std::string &in)
{
    bool ascii = true;
    for (char c : in)
        ascii &= !(c & 0x80);
    if (ascii) {
        std::string o = in;
        for (auto &c : o)
            if (c >= 'A' && c <= 'Z')
                c += 32;
        return {EXACT_NAME, o, "ASCII"};
    }
    Cps v, m;
    if (!ref_decode_all(in, v))
        return {MUST_FAIL, "", "invalid UTF-8"};
    for (int c : v)
        switch (ud_idna[c]) {
            case 0: case 3:
                m.push_back(c);
                break;
            case 1: {
                Cps x;
                ref_decode_all(ud_map[c], x);
                m.insert(m.end(), x.begin(), x.end());
                break;
            }
            case 2:
                break;
            default:
                return {MUST_FAIL, "", "disallowed code point"};
        }
    Cps n = ref_nfc(m);
    if (n.empty())
        return {MUST_FAIL, "", "maps to nothing"};
    bool either = false;
    unsigned run = 0;
    for (int c : ref_nfd(m)) {
        run = ud_ccc[c] ? run + 1 : 0;
        either |= run > 100;
    }
    std::vector<Cps> labels(1);
    for (int c : n) {
        if (c == '.')
            labels.push_back({});
        else
            labels.back().push_back(c);
        if (ud_idna[c] != 0 && ud_idna[c] != 3)
            either = true;
        if (c == 0x200c || c == 0x200d)
            either = true;
    }
    bool dot = labels.size() > 1 && labels.back().empty();
    if (dot)
        labels.pop_back();
    std::string out;
    for (size_t i = 0; i < labels.size(); i++) {
        const Cps &l = labels[i];
        if (i)
            out += '.';
        if (l.empty()) {
            either = true;
            continue;
        }
        if (l[0] == '-')
            return {MUST_FAIL, "", "label begins with a hyphen"};
        if (l.back() == '-' || is_mark(l[0]))
            either = true;
        if (l.size() > 3 && l[2] == '-' && l[3] == '-')
            either = true;
        bool asc = true, r = false, other = false;
        for (int c : l) {
            asc &= c < 128;
            if (rtl(c) && ud_cat[c] == 7)
                r = true;
            else if (rtl(c))
                r = other = true;
            else
                other = true;
        }
        if (r && other)
            either = true;
        std::string e;
        if (asc)
            e = ref_encode_all(l);
        else {
            ref_punycode(l, e);
            e = "xn--" + e;
        }
        if (e.size() > 63)
            return {MUST_FAIL, "", "label too long"};
        out += e;
    }
    if (out.size() > 253)
        return {MUST_FAIL, "", "name too long"};
    if (dot)
        out += '.';
    return {either ? EITHER : EXACT_NAME, out, ""};
}
void check_name(const std::string &in)
{
    Verdict w = ref_idna(in);
    ExactZ z(in);
    char *r = charstr_idna_encode(z.p);
    CHECK(z.unchanged(), "idna:source", "encoding modified the hostname");
    EV("idna.encode");
    if (!r) {
        CHECK(w.kind != EXACT_NAME, "idna:refused", "hostname %s refused, expected %s", hexdump(in.data(), in.size()).c_str(),
              w.out.c_str());
        if (w.kind == MUST_FAIL) {
            EV("idna.fail");
            if (w.why == "invalid UTF-8") EV("idna.fail.utf8");
            else if (w.why == "disallowed code point") EV("idna.fail.disallowed");
            else if (w.why == "maps to nothing") EV("idna.fail.nothing");
            else if (w.why == "label begins with a hyphen") EV("idna.fail.hyphen");
            else if (w.why == "label too long") EV("idna.fail.label");
            else if (w.why == "name too long") EV("idna.fail.name");
        }
        return;
    }
    CHECK(w.kind != MUST_FAIL, "idna:accepted", "hostname %s encoded as \"%s\" although: %s",
          hexdump(in.data(), in.size()).c_str(), r, w.why.c_str());
    CHECK(w.out == r, "idna:wrong", "hostname %s encoded as \"%s\", expected \"%s\"", hexdump(in.data(), in.size()).c_str(),
          r, w.out.c_str());
    CHECK(r != z.p && mem_is_live(r), "idna:fresh", "the result is not a fresh string");
    TakeStr t(r);
    if (w.kind == EITHER)
        EV("idna.encode.lenient");
    else if (w.why == "ASCII")
        EV("idna.encode.ascii");
    else {
        EV("idna.encode.exact");
        if (w.out.size() >= 253)
            EV("idna.encode.longest");
        if (w.out.back() == '.')
            EV("idna.encode.finaldot");
    }
}
int ascii_ldh(Gen &g)
{
    return "abcdefghijklmnopqrstuvwxyz0123456789"[g.below(36)];
}
Cps rnd_label(Gen &g)
{
    Cps l;
    unsigned n = 1 + g.below(g.chance(1, 8) ? 70 : 12);
    int base = g.pick(ud_valid_letters);
    int style = g.below(7);
    for (unsigned i = 0; i < n; i++) {
        switch (style) {
            case 0: // ASCII
                l.push_back(g.chance(1, 5) ? 'A' + (int) g.below(26) : ascii_ldh(g));
                break;
            case 1: // one script
            case 2: {
                int c = base + (int) g.below(30) - 15;
                if (c < 0x80 || !scalar(c) || c > 0x10ffff || ud_idna[c] != 0)
                    c = base;
                l.push_back(g.chance(1, 4) ? ascii_ldh(g) : c);
                break;
            }
            case 3: // mapped
                l.push_back(g.chance(1, 2) ? g.pick(ud_mapped) : g.pick(ud_valid_letters));
                break;
            case 4: { // decomposed
                Cps d = ref_nfd({g.pick(ud_decs)});
                l.insert(l.end(), d.begin(), d.end());
                break;
            }
            case 5:
                l.push_back(g.chance(1, 6) ? g.pick(ud_ignored) : g.chance(1, 4) ? g.pick(ud_marks)
                                                                                : g.pick(ud_valid_letters));
                break;
            default: // repetitions
                l.push_back(g.chance(1, 10) ? g.pick(ud_valid_letters) : base);
        }
    }
    if (g.chance(1, 70)) { // more marks than can be composed
        unsigned run = 60 + g.below(90);
        int one = g.pick(ud_marks);
        bool same = g.chance(1, 2);
        for (unsigned i = 0; i < run; i++)
            l.push_back(same ? one : g.pick(ud_marks));
        EV("idna.marks");
    }
    if (g.chance(1, 12))
        l.insert(l.begin() + g.below(l.size() + 1), '-');
    if (g.chance(1, 25))
        l.insert(l.begin(), '-');
    if (g.chance(1, 15))
        l.insert(l.begin() + g.below(l.size() + 1), 0xdf); // a deviation
    if (g.chance(1, 40))
        l.insert(l.begin() + g.below(l.size() + 1), rnd_cp(g));
    if (g.chance(1, 60))
        l.insert(l.begin() + g.below(l.size() + 1), g.pick(ud_disallowed));
    return l;
}
int dot(Gen &g)
{
    static const int D[] = {'.', '.', '.', '.', 0x3002, 0xff0e, 0xff61};
    return D[g.below(7)];
}
void idna_case(Case &c)
{
    Gen &g = c.g;
    Cps v;
    unsigned n = 1 + g.below(g.chance(1, 20) ? 30 : 5);
    for (unsigned i = 0; i < n; i++) {
        if (i)
            v.push_back(dot(g));
        Cps l = rnd_label(g);
        v.insert(v.end(), l.begin(), l.end());
    }
    if (g.chance(1, 5))
        v.push_back(dot(g));
    if (g.chance(1, 40))
        v.insert(v.begin() + g.below(v.size() + 1), '.');
    if (g.chance(1, 25))
        v.insert(v.begin() + g.below(v.size() + 1), (int) (1 + g.below(127)));
    std::string t = ref_encode_all(v);
    if (g.chance(1, 25) && !t.empty()) {
        size_t at = g.below(t.size());
        if (g.chance(1, 2))
            t[at] = (char) (128 + g.below(128));
        else
            t.resize(at);
    }
    t = t.c_str();
    c.mixs(t);
    c.nontrivial = !t.empty();
    c.text = "encode " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    check_name(t);
}
// names and labels at the length limits
void idna_len_case(Case &c)
{
    Gen &g = c.g;
    // a label whose encoding has the wanted length, more or less
    auto label = [&](int want) {
        Cps l;
        if (want < 10 || g.chance(1, 3)) {
            for (int i = 0; i < want; i++)
                l.push_back(ascii_ldh(g));
            return l;
        }
        int x = g.pick(ud_valid_letters);
        unsigned lead = g.below(4);
        for (unsigned i = 0; i < lead; i++)
            l.push_back(ascii_ldh(g));
        for (int i = 0; i < 80; i++) {
            Cps t = l;
            t.push_back(g.chance(1, 15) ? g.pick(ud_valid_letters) : g.chance(1, 5) ? ascii_ldh(g) : x);
            std::string e;
            Cps nf = ref_nfc(t);
            ref_punycode(nf, e);
            if ((int) e.size() + 4 > want)
                break;
            l = t;
        }
        return l;
    };
    Cps v;
    int kind = g.below(3);
    if (kind == 0) { // one label at its limit
        Cps l = label(60 + g.below(7));
        v = l;
        if (g.chance(1, 2)) {
            v.push_back('.');
            Cps m = label(1 + g.below(65));
            v.insert(v.end(), m.begin(), m.end());
        }
        if (g.chance(1, 3))
            v.push_back('.');
        v.push_back('.');
        v.push_back(0xe4);
    } else { // names at their limit
        int target = 248 + (int) g.below(9);
        std::string soFar;
        bool first = true;
        while ((int) soFar.size() < target) {
            int left = target - (int) soFar.size() - (first ? 0 : 1);
            int want = left > 63 ? 20 + (int) g.below(44) : left;
            if (left - want < 2 && left != want)
                want = left > 63 ? 50 : left;
            if (want <= 0)
                break;
            Cps l = label(want);
            if (left <= 63) { // finish with exact ASCII
                l.clear();
                for (int i = 0; i < left; i++)
                    l.push_back(ascii_ldh(g));
            }
            if (!first)
                v.push_back('.');
            v.insert(v.end(), l.begin(), l.end());
            first = false;
            Verdict w = ref_idna(ref_encode_all(v));
            if (w.kind == MUST_FAIL)
                break;
            soFar = w.out;
        }
        if (kind == 2)
            v.push_back('.');
    }
    std::string t = ref_encode_all(v);
    c.mixs(t);
    c.nontrivial = true;
    c.text = "encode " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    check_name(t);
}
void idna_long_case(Case &c)
{
    // long names: far beyond the limits, or mostly ignored characters
    Gen &g = c.g;
    Cps v;
    unsigned n = g.size(6000);
    int style = g.below(5);
    int x = g.pick(ud_valid_letters), d = g.pick(ud_decs);
    Cps dd = ref_nfd({d});
    for (unsigned i = 0; i < n; i++) {
        if (style == 0)
            v.push_back(g.pick(ud_ignored));
        else if (style == 1)
            v.insert(v.end(), dd.begin(), dd.end());
        else if (style == 2)
            v.push_back(x);
        else if (style == 3)
            v.push_back(i % 50 == 49 ? '.' : 0xad);
        else
            v.push_back(g.chance(1, 40) ? '.' : rnd_cp(g));
    }
    if (g.chance(1, 2))
        v.insert(v.begin() + g.below(v.size() + 1), 0xe5);
    std::string t = ref_encode_all(v);
    c.mixs(t);
    c.nontrivial = n > 0;
    c.text = fmtstr("encode a long name, style %d, %u units", style, n);
    check_name(t);
    EV("idna.long");
}
void idna_sweep(Sweep &s)
{
    for (int c = 1; c < 0x110000; c++) {
        if (!s.mine(c >> 5) || !scalar(c))
            continue;
        if (opt.asan() && c % 37)
            continue;
        if (!(c & 0x1f))
            s.tick();
        if (ud_cat[c] == 0 && c % 16 && opt.quick() && c > 0x3000)
            continue;
        std::string e = ref_encode(c);
        check_name(e);
        check_name("a" + e + "b.c");
        check_name("\xc3\xa4." + e + "x.");
        s.evals += 3;
        s.distinct += 3;
    }
    // ASCII characters next to something encoded
    if (s.shard == 1)
        for (int a = 1; a < 128; a++)
            for (int b = 1; b < 128; b++) {
                s.tick();
                check_name(std::string{(char) a, (char) b} + "\xc3\xa4");
                check_name("\xc3\xa4" + std::string{(char) a, (char) b});
                check_name(std::string{(char) a, (char) b});
                s.evals += 3;
                s.distinct += 3;
            }
    s.sample("every code point alone and in labels; every pair of ASCII characters before and after a non-ASCII one");
}
} // namespace
REG_CASES("C18", idna, idna_case, 60000, 15000, 30, OWN | THR);
REG_CASES("C18", idna_len, idna_len_case, 12000, 3000, 20, OWN);
REG_CASES("C18", idna_long, idna_long_case, 3000, 600, 20, OWN);
REG_SWEEP("C18", idna_sweep, idna_sweep, 1, 1, 0);
