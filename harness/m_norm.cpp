// C14, C15, C16: canonical decomposition, recomposition, quick check.
#include "udata.h"
#include <fsdyn/charstr.h>
#include <algorithm>

namespace {
const u8 FILL = 0x5c;
struct Area { // output areas right before inaccessible memory, reused
    enum { MAX = 1 << 17 };
    Exact e;
    Area() : e(nullptr, MAX) {}
    char *at(size_t n)
    {
        char *p = e.end() - n;
        size_t f = n + 32 < MAX ? n + 32 : (size_t) MAX;
        memset(e.end() - f, FILL, f);
        return p;
    }
    bool before_intact(const char *p)
    {
        for (int i = 1; i <= 32 && p - i >= e.p; i++)
            if ((u8) p[-i] != FILL)
                return false;
        return true;
    }
};
Area &area()
{
    static thread_local Area *x = new Area;
    return *x;
}
Area &inarea()
{
    static thread_local Area *x = new Area;
    return *x;
}
enum Mode { BOUNDED, TERMINATED, BOTH, NUL_FIRST };
// places the input; returns [s, end)
const char *place(const std::string &t, Mode m, const char **end)
{
    char *p;
    switch (m) {
        case BOUNDED:
            p = inarea().at(t.size());
            memcpy(p, t.data(), t.size());
            *end = p + t.size();
            return p;
        case TERMINATED:
            p = inarea().at(t.size() + 1);
            memcpy(p, t.c_str(), t.size() + 1);
            *end = nullptr;
            return p;
        case BOTH:
            p = inarea().at(t.size() + 1);
            memcpy(p, t.c_str(), t.size() + 1);
            *end = p + t.size();
            return p;
        default: // the NUL comes before the limit, rubbish in between
            p = inarea().at(t.size() + 4);
            memcpy(p, t.c_str(), t.size() + 1);
            memcpy(p + t.size() + 1, "\xcc\xff\x80", 3);
            *end = p + t.size() + 4;
            return p;
    }
}
static const int ERRNOS[] = {0, EAGAIN, ENODATA, EILSEQ, EOVERFLOW, ENOBUFS};

typedef char *(*norm_fn)(const char *, const char *, char[], const char *);
// judges one call; want = nullptr: the input is invalid after a prefix whose
// result has prefix_len bytes
void judge(norm_fn fn, const char *name, const std::string &in, Mode m, const std::string *want, size_t prefix_len,
           size_t room, bool lenient_fail = false)
{
    const char *end, *s = place(in, m, &end);
    char *out = area().at(room);
    static thread_local unsigned rot;
    errno = ERRNOS[rot++ % 6];
    char *r = fn(s, end, out, out + room);
    int err = errno;
    CHECK(!in.size() || !memcmp(s, in.data(), in.size()), "norm:source", "%s modified its input", name);
    CHECK(area().before_intact(out), "norm:before", "%s wrote before its output area", name);
    if (!want) {
        CHECK(!r, "norm:illegal", "%s accepted the invalid text %s", name, hexdump(in.data(), in.size()).c_str());
        CHECK(err == EILSEQ || lenient_fail || (err == EOVERFLOW && room < prefix_len + 1), "norm:errno",
              "%s failed with errno %d for the invalid text %s (room for %zu)", name, err,
              hexdump(in.data(), in.size()).c_str(), room);
        return;
    }
    if (!r && lenient_fail)
        return;
    if (room < want->size() + 1) {
        CHECK(!r, "norm:noroom", "%s of %s with room for %zu bytes did not fail", name, hexdump(in.data(), in.size()).c_str(),
              room);
        CHECK(err == EOVERFLOW, "norm:errno", "%s of %s with room for %zu bytes failed with errno %d", name,
              hexdump(in.data(), in.size()).c_str(), room, err);
        return;
    }
    CHECK(r, "norm:refused", "%s of %s with room for %zu bytes failed (errno %d), %zu are needed", name,
          hexdump(in.data(), in.size()).c_str(), room, err, want->size() + 1);
    CHECK(r == out + want->size() && !memcmp(out, want->c_str(), want->size() + 1), "norm:text",
          "%s of %s gives %s (end at %td), expected %s", name, hexdump(in.data(), in.size()).c_str(),
          hexdump(out, std::min((size_t) room, want->size() + 4)).c_str(), r - out,
          hexdump(want->data(), want->size()).c_str());
}
void nfd(const std::string &in, Mode m, const std::string *want, size_t pl, size_t room)
{
    judge(charstr_unicode_decompose, "decomposition", in, m, want, pl, room);
}
void nfc(const std::string &in, Mode m, const std::string *want, size_t pl, size_t room, bool len = false)
{
    judge(charstr_unicode_recompose, "recomposition", in, m, want, pl, room, len);
}
// most non-starters following any starter
unsigned most_marks(const Cps &v)
{
    unsigned best = 0, n = 0;
    bool st = false;
    for (int c : v) {
        if (ud_ccc[c])
            n += st;
        else
            n = 0, st = true;
        best = std::max(best, n);
    }
    return best;
}
// flaws that make a text invalid; returns the valid prefix
size_t spoil(Gen &g, std::string &t)
{
    // cut at a character boundary and put something illegal there
    Cps v;
    ref_decode_all(t, v);
    size_t k = g.below(v.size() + 1);
    std::string pre = ref_encode_all(Cps(v.begin(), v.begin() + k));
    std::string post = ref_encode_all(Cps(v.begin() + k, v.end()));
    std::string bad;
    switch (g.below(6)) {
        case 0: bad = "\xff"; break;
        case 1: bad = "\x80"; break;
        case 2: bad = "\xed\xa0\x80"; break;
        case 3: bad = "\xc1\x81"; break;
        case 4: bad = "\xf4\x90\x80\x80"; break;
        default: { // truncated
            std::string e;
            do
                e = ref_encode(rnd_cp(g));
            while (e.size() < 2);
            bad = e.substr(0, 1 + g.below(e.size() - 1));
            if (g.chance(1, 2))
                post.clear();
            else
                post = "a" + post;
        }
    }
    t = pre + bad + post;
    return pre.size();
}
size_t pick_room(Gen &g, size_t need, size_t in, unsigned factor)
{
    switch (g.below(6)) {
        case 0: return need;
        case 1: return need ? need - 1 : 0;
        case 2: return g.below(need + 1);
        case 3: return need + g.below(10);
        case 4: return factor * in + 1;
        default: return need > 5 ? need - g.below(6) : need;
    }
}
Mode pick_mode(Gen &g)
{
    return (Mode) g.below(4);
}

// ---------------------------------------------------------------- C14
void nfd_case(Case &c)
{
    Gen &g = c.g;
    Cps v = rnd_norm_text(g, g.chance(1, 30) ? 600 : g.chance(1, 2) ? 6 : 40);
    std::string t = ref_encode_all(v), w = ref_encode_all(ref_nfd(v));
    c.mixs(t);
    c.nontrivial = v.size() > 1;
    c.text = "decompose " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    CHECK(w.size() <= 3 * t.size(), "norm:oracle", "the reference exceeds three times the size");
    for (int i = 0; i < 3; i++) {
        size_t room = pick_room(g, w.size() + 1, t.size(), 3);
        nfd(t, pick_mode(g), &w, 0, room);
        if (room <= w.size())
            EV("nfd.noroom");
        else
            EV("nfd.exact");
        c.evals++;
    }
    nfd(w, pick_mode(g), &w, 0, w.size() + 1 + g.below(3));
    EV("nfd.idempotent");
    if (g.chance(1, 3)) {
        std::string b = t;
        size_t k = spoil(g, b);
        Cps pv;
        ref_decode_all(b.substr(0, k), pv);
        nfd(b, pick_mode(g), nullptr, ref_encode_all(ref_nfd(pv)).size(), pick_room(g, 3 * b.size() + 1, b.size(), 3));
        EV("nfd.illegal");
    }
    // a limit in the middle of a character
    if (g.chance(1, 4) && !t.empty()) {
        size_t cut = g.below(t.size() + 1);
        std::string b = t.substr(0, cut);
        size_t k = cut;
        while (k && !ref_valid(b.substr(0, k)))
            k--;
        Cps pv;
        ref_decode_all(b.substr(0, k), pv);
        std::string pw = ref_encode_all(ref_nfd(pv));
        nfd(b, BOUNDED, k == cut ? &pw : nullptr, pw.size(), 3 * cut + 1);
        EV("nfd.cut");
    }
    c.evals += 2;
}
void nfd_sweep(Sweep &s)
{
    for (int c = 1; c < 0x110000; c++) {
        if (!s.mine(c >> 7) || !scalar(c))
            continue;
        if (opt.asan() && c % 7 && !ud_dec.count(c) && !ud_ccc[c])
            continue;
        if (!(c & 0xff))
            s.tick();
        std::string t = ref_encode(c), w = ref_encode_all(ref_nfd({c}));
        bool plain = t == w && !ud_ccc[c];
        for (size_t room = plain ? w.size() : 0; room <= w.size() + 2; room++) {
            nfd(t, BOUNDED, &w, 0, room);
            s.evals++;
        }
        nfd(t, TERMINATED, &w, 0, w.size() + 1);
        s.distinct++;
        if (!plain) {
            EV("nfd.decomposed");
            for (int k = 0; k < 3; k++) {
                static const int A[] = {0x61, 0x301, 0x323}, B[] = {0x323, 0x301, 0x1100};
                std::string t2 = ref_encode(A[k]) + t + ref_encode(B[k]);
                std::string w2 = ref_encode_all(ref_nfd({A[k], c, B[k]}));
                nfd(t2, NUL_FIRST, &w2, 0, w2.size() + 1);
                nfd(t2, BOTH, &w2, 0, w2.size());
                s.evals += 2;
                s.distinct++;
            }
        }
    }
    // every pair of marks, after a starter and before one
    size_t n = ud_marks.size();
    for (size_t i = 0; i < n; i++) {
        if (!s.mine(i) || (opt.asan() && i % 10))
            continue;
        s.tick();
        for (size_t j = 0; j < n; j++) {
            Cps v = {'x', ud_marks[i], ud_marks[j], 'y'};
            std::string t = ref_encode_all(v), w = ref_encode_all(ref_nfd(v));
            nfd(t, TERMINATED, &w, 0, w.size() + 1);
            s.evals++;
            s.distinct++;
        }
    }
    EVN("nfd.markpairs", 1);
    s.sample("every scalar value with every output size; every pair of combining marks");
}
void nfd_long(Case &c)
{
    // long runs of marks in the worst order
    Gen &g = c.g;
    Cps v;
    unsigned n = g.size(1200);
    v.push_back(rnd_cp(g));
    std::vector<int> pool;
    for (int i = 0; i < 12; i++)
        pool.push_back(g.pick(ud_marks));
    int style = g.below(3);
    if (style == 1)
        std::sort(pool.begin(), pool.end(), [](int a, int b) { return ud_ccc[a] > ud_ccc[b]; });
    for (unsigned i = 0; i < n; i++)
        v.push_back(style == 0 ? g.pick(pool) : style == 1 ? pool[i * pool.size() / n] : g.pick(ud_marks));
    std::string t = ref_encode_all(v), w = ref_encode_all(ref_nfd(v));
    c.mixs(t);
    c.nontrivial = true;
    c.text = fmtstr("decompose a character with %u marks", n);
    nfd(t, pick_mode(g), &w, 0, w.size() + 1);
    EV("nfd.long");
}

// ---------------------------------------------------------------- C15
void nfc_strict(const Cps &d, Mode m, size_t room, bool back)
{
    std::string t = ref_encode_all(d), w = ref_encode_all(ref_nfc(d));
    CHECK(w.size() <= t.size(), "norm:oracle", "the reference grows");
    unsigned marks = most_marks(d);
    nfc(t, m, &w, 0, room == SIZE_MAX ? t.size() + 1 : room, marks > 100);
    if (marks > 100)
        EV("nfc.toomany");
    if (back)
        nfd(w, m, &t, 0, t.size() + 1);
}
void nfc_case(Case &c)
{
    Gen &g = c.g;
    Cps v = ref_nfd(rnd_norm_text(g, g.chance(1, 30) ? 400 : g.chance(1, 2) ? 6 : 30));
    std::string t = ref_encode_all(v), w = ref_encode_all(ref_nfc(v));
    c.mixs(t);
    c.nontrivial = v.size() > 1;
    c.text = "recompose " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    for (int i = 0; i < 3; i++) {
        size_t room = pick_room(g, w.size() + 1, t.size(), 1);
        nfc_strict(v, pick_mode(g), room, i == 0);
        if (room <= w.size())
            EV("nfc.noroom");
        else if (w != t)
            EV("nfc.composed");
        else
            EV("nfc.same");
        c.evals++;
    }
    nfc_strict(v, pick_mode(g), SIZE_MAX, false);
    if (g.chance(1, 3)) {
        std::string b = t;
        size_t k = spoil(g, b);
        Cps pv;
        ref_decode_all(b.substr(0, k), pv);
        nfc(b, pick_mode(g), nullptr, ref_encode_all(ref_nfc(pv)).size(), pick_room(g, b.size() + 1, b.size(), 1),
            most_marks(pv) > 100);
        EV("nfc.illegal");
    }
    if (g.chance(1, 4) && !t.empty()) {
        size_t cut = g.below(t.size() + 1);
        std::string b = t.substr(0, cut);
        size_t k = cut;
        while (k && !ref_valid(b.substr(0, k)))
            k--;
        Cps pv;
        ref_decode_all(b.substr(0, k), pv);
        std::string pw = ref_encode_all(ref_nfc(pv));
        nfc(b, BOUNDED, k == cut ? &pw : nullptr, pw.size(), cut + 1, most_marks(pv) > 100);
        EV("nfc.cut");
    }
    c.evals += 3;
}
void nfc_marks(Case &c)
{
    // up to and beyond the supported number of marks
    Gen &g = c.g;
    unsigned n = g.chance(1, 2) ? 95 + g.below(8) : g.below(130);
    auto it = ud_comp.begin();
    std::advance(it, g.below(ud_comp.size()));
    Cps v;
    if (g.chance(1, 3))
        v.push_back(rnd_cp(g));
    int lead = g.chance(1, 5) ? (int) g.below(150) : 0; // marks without a starter
    if (lead)
        v.clear();
    for (int i = 0; i < lead; i++)
        v.push_back(g.pick(ud_marks));
    v.push_back(it->first.first);
    for (unsigned i = 0; i < n; i++)
        v.push_back(g.pick(ud_marks));
    if (ud_ccc[it->first.second] && n)
        v.back() = it->first.second;
    if (g.chance(1, 2))
        v.push_back(rnd_cp(g));
    v = ref_nfd(v);
    c.mixs(ref_encode_all(v));
    c.nontrivial = true;
    c.text = fmtstr("recompose a starter with %u marks after %d leading ones", n, lead);
    TR("%s: %s", c.text.c_str(), hexdump(ref_encode_all(v).data(), ref_encode_all(v).size(), 600).c_str());
    nfc_strict(v, pick_mode(g), SIZE_MAX, most_marks(v) <= 100);
    if (most_marks(v) == 100)
        EV("nfc.hundred");
}
void nfc_sweep(Sweep &s)
{
    // every code point, its decomposition and each pair in order
    for (int c = 1; c < 0x110000; c++) {
        if (!s.mine(c >> 7) || !scalar(c))
            continue;
        if (opt.asan() && c % 7 && !ud_dec.count(c) && !ud_ccc[c])
            continue;
        if (!(c & 0xff))
            s.tick();
        Cps d = ref_nfd({c});
        std::string w = ref_encode_all(ref_nfc(d));
        if (d.size() > 1 || ud_nf[c]) {
            for (size_t room = 0; room <= w.size() + 2; room++)
                nfc_strict(d, BOUNDED, room, false);
            for (int m : {0x300, 0x323, 0x61, 0x1161, 0x11a8, 0x338}) {
                Cps e = d;
                e.push_back(m);
                e = ref_nfd(e);
                nfc_strict(e, TERMINATED, SIZE_MAX, true);
                e = {m};
                e.insert(e.end(), d.begin(), d.end());
                e = ref_nfd(e);
                nfc_strict(e, TERMINATED, SIZE_MAX, true);
                s.evals += 2;
            }
            EV("nfc.composite");
        } else
            nfc_strict(d, TERMINATED, SIZE_MAX, true);
        s.evals++;
        s.distinct++;
    }
    // every first component with every second one
    std::set<int> firsts, secs;
    for (auto &x : ud_comp) {
        firsts.insert(x.first.first);
        secs.insert(x.first.second);
    }
    unsigned i = 0;
    for (int a : firsts) {
        if (!s.mine(i++) || (opt.asan() && i % 8))
            continue;
        s.tick();
        for (int b : secs) {
            nfc_strict(ref_nfd({a, b}), TERMINATED, SIZE_MAX, true);
            s.evals++;
            s.distinct++;
        }
    }
    EV("nfc.pairs");
    // Hangul: all combinations, the borders included
    for (int l = 0x10ff; l <= 0x1114; l++) {
        if (!s.mine(l))
            continue;
        s.tick();
        for (int v = 0x1160; v <= 0x1177; v++)
            for (int t = 0x11a6; t <= 0x11c4; t++) {
                nfc_strict({l, v, t}, TERMINATED, SIZE_MAX, true);
                if ((l + v + t) % 5 == 0) {
                    nfc_strict({l, v, t, t}, TERMINATED, SIZE_MAX, true);
                    nfc_strict({l, l, v, v, t}, TERMINATED, SIZE_MAX, true);
                    nfc_strict({l, 0x301, v, t}, TERMINATED, SIZE_MAX, true);
                    nfc_strict({l, v, 0x301, t}, TERMINATED, SIZE_MAX, true);
                }
                s.evals++;
                s.distinct++;
            }
    }
    EV("nfc.hangul");
    // every mark of a pair between a starter and its combining mark
    i = 0;
    for (auto &x : ud_comp) {
        if (!s.mine(i++) || (opt.asan() && i % 10))
            continue;
        s.tick();
        Cps base = ref_nfd({x.first.first});
        for (int k = 0; k < 60; k++) {
            int m = ud_marks[(k * 15 + i * 7) % ud_marks.size()];
            Cps v = base;
            v.push_back(m);
            v.push_back(x.first.second);
            nfc_strict(ref_nfd(v), TERMINATED, SIZE_MAX, true);
            s.evals++;
            s.distinct++;
        }
    }
    s.sample("every code point's decomposition; every pair of composition components; all Hangul combinations");
}

// ---------------------------------------------------------------- C16
const int FORMS[4][2] = {{UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE}, {UNICODE_NFD_DISALLOWED, UNICODE_NFD_MAYBE},
                         {UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE}, {UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE}};
const char *const FNAME[] = {"NFC", "NFD", "NFKC", "NFKD"};
// text up to its first flaw; bad: whether there is one
void judge_detect(const std::string &t, Mode m)
{
    Cps v;
    bool ok = ref_decode_all(t, v);
    for (int f = 0; f < 4; f++) {
        int q = ref_quick(v, FORMS[f][0], FORMS[f][1]);
        int want = q == 1 ? FORMS[f][0] : !ok ? -1 : q == 2 ? FORMS[f][1] : 0;
        const char *end, *s = place(t, m, &end);
        int r = charstr_detect_unicode_normal_form(s, end, FORMS[f][0], FORMS[f][1]);
        CHECK(r == want, "detect:verdict", "quick check %s of %s is %d, expected %d", FNAME[f],
              hexdump(t.data(), t.size()).c_str(), r, want);
        if (f < 2) {
            bool b = f == 0 ? charstr_unicode_canonically_composed(s, end) : charstr_unicode_canonically_decomposed(s, end);
            CHECK(b == (want == 0), "detect:bool", "%s of %s is %d, quick check %d", f ? "decomposed" : "composed",
                  hexdump(t.data(), t.size()).c_str(), b, want);
            if (b) {
                Cps n = f == 0 ? ref_nfc(v) : ref_nfd(v);
                CHECK(ok && n == v, "detect:wrong", "%s reported as being in %s", hexdump(t.data(), t.size()).c_str(),
                      FNAME[f]);
                EV("detect.allowed");
            }
        }
        CHECK(!memcmp(s, t.data(), t.size()), "detect:source", "the input was modified");
        if (want == -1)
            EV("detect.error");
        else if (q == 1)
            EV("detect.disallowed");
        else if (q == 2)
            EV("detect.maybe");
        if (q == 1 && !ok)
            EV("detect.disallowed.flawed");
    }
}
void detect_case(Case &c)
{
    Gen &g = c.g;
    Cps v;
    if (g.chance(1, 2))
        v = rnd_norm_text(g, g.chance(1, 30) ? 500 : 12);
    else {
        unsigned n = g.below(10);
        for (unsigned i = 0; i < n; i++)
            v.push_back(rnd_cp(g));
    }
    if (g.chance(1, 4))
        v = ref_nfd(v);
    else if (g.chance(1, 3))
        v = ref_nfc(v);
    std::string t = ref_encode_all(v);
    if (g.chance(1, 4))
        spoil(g, t);
    c.mixs(t);
    c.nontrivial = !v.empty();
    c.text = "quick check of " + hexdump(t.data(), t.size());
    TR("%s", c.text.c_str());
    for (int m = 0; m < 4; m++)
        judge_detect(t, (Mode) m);
    c.evals += 23;
    for (int i = 0; i < 4; i++)
        judge_detect(t.substr(0, g.below(t.size() + 1)), BOUNDED);
}
void detect_sweep(Sweep &s)
{
    for (int c = 1; c < 0x110000; c++) {
        if (!s.mine(c >> 7) || !scalar(c))
            continue;
        if (opt.asan() && c % 7 && !ud_nf[c] && !ud_ccc[c])
            continue;
        if (!(c & 0xff))
            s.tick();
        std::string t = ref_encode(c);
        judge_detect(t, BOUNDED);
        if (ud_ccc[c] || ud_nf[c]) {
            judge_detect("a" + t + "b", TERMINATED);
            judge_detect(t + "\xcc\xa3", TERMINATED);
            judge_detect("\xcc\x81" + t, TERMINATED);
            judge_detect(t + "\xff", TERMINATED);
            judge_detect("\xff" + t, TERMINATED);
            judge_detect(t + t, NUL_FIRST);
            s.evals += 36;
        }
        s.evals += 6;
        s.distinct++;
    }
    size_t n = ud_marks.size();
    for (size_t i = 0; i < n; i++) {
        if (!s.mine(i) || (opt.asan() && i % 10))
            continue;
        s.tick();
        for (size_t j = 0; j < n; j++) {
            judge_detect("x" + ref_encode(ud_marks[i]) + ref_encode(ud_marks[j]), BOUNDED);
            s.evals += 6;
            s.distinct++;
        }
    }
    EV("detect.markpairs");
    s.sample("every scalar value alone, and all with data in context; every pair of combining marks");
}
} // namespace
REG_CASES("C14", nfd, nfd_case, 100000, 20000, 30, THR);
REG_CASES("C14", nfd_long, nfd_long, 600, 100, 20, 0);
REG_SWEEP("C14", nfd_sweep, nfd_sweep, 1, 1, 0);
REG_CASES("C15", nfc, nfc_case, 100000, 20000, 30, THR);
REG_CASES("C15", nfc_marks, nfc_marks, 20000, 3000, 20, 0);
REG_SWEEP("C15", nfc_sweep, nfc_sweep, 1, 1, 0);
REG_CASES("C16", detect, detect_case, 60000, 15000, 30, THR);
REG_SWEEP("C16", detect_sweep, detect_sweep, 1, 1, 0);
