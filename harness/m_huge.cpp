// Texts of more than 4 GiB: sizes, offsets and counts that do not fit in 32
// bits. Input, output and the library's own block are periodic memory (the
// same physical pages mapped over and over), so they cost next to nothing.
#include "core.h"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <sys/mman.h>
#include <unistd.h>

namespace {
const size_t PAGE = 4096, UNIT = (size_t) 12 << 20; // a multiple of 3 and 4
const size_t OVER = ((size_t) 1 << 32) + 2 * PAGE; // bytes, terminator included

// n bytes, all but the last two pages (which are private) periodic in UNIT,
// the bytes beyond n inaccessible or 0xa7
struct Periodic {
    char *map = nullptr, *p = nullptr;
    size_t n, body;
    explicit Periodic(size_t n_, const std::string &pat = "") : n(n_)
    {
        body = (n + PAGE - 1) / PAGE * PAGE;
        map = (char *) mmap(nullptr, body + PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED)
            fail();
        p = map;
        int fd = memfd_create("periodic", 0);
        if (fd < 0 || ftruncate(fd, UNIT) < 0)
            fail();
        size_t aliased = body - 2 * PAGE;
        for (size_t o = 0; o < aliased; o += UNIT) {
            size_t k = aliased - o < UNIT ? aliased - o : UNIT;
            if (mmap(map + o, k, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED)
                fail();
        }
        if (mprotect(map + aliased, 2 * PAGE, PROT_READ | PROT_WRITE) < 0)
            fail();
        memset(map + aliased, 0xa7, 2 * PAGE);
        close(fd);
        if (!pat.empty()) {
            for (size_t i = 0; i < UNIT; i++)
                p[i] = pat[i % pat.size()];
            for (size_t i = aliased; i < n; i++)
                p[i] = pat[i % pat.size()];
            p[n - 1] = 0;
        }
    }
    ~Periodic()
    {
        if (map)
            munmap(map, body + PAGE);
    }
    Periodic(const Periodic &) = delete;
    [[noreturn]] static void fail()
    {
        perror("periodic memory");
        _exit(12);
    }
    // the writable rest of the last page must be as it was
    bool intact() const
    {
        for (size_t i = n; i < body; i++)
            if ((u8) map[i] != 0xa7)
                return false;
        return true;
    }
    // the text is the pattern, looking at one period at the start, one
    // across the 4 GiB line and the end
    bool holds(const std::string &pat, size_t len, const std::string &tail = "") const
    {
        size_t from[] = {0, len > ((size_t) 1 << 32) ? ((size_t) 1 << 32) - PAGE : 0, len > PAGE ? len - PAGE : 0};
        size_t plain = len - tail.size();
        for (size_t f : from)
            for (size_t i = f; i < len && i < f + 2 * PAGE; i++)
                if (p[i] != (i < plain ? pat[i % pat.size()] : tail[i - plain]))
                    return false;
        return p[len] == 0;
    }
};

// The reallocator: big blocks are periodic memory, small ones malloc's.
std::map<void *, Periodic *> *blocks;
std::map<void *, size_t> *smalls;
size_t largest;
void *big_realloc(void *ptr, size_t size)
{
    Periodic *old = nullptr;
    if (ptr) {
        auto it = blocks->find(ptr);
        if (it != blocks->end()) {
            old = it->second;
            if (!old->intact())
                violate_now("mem:overrun", "a block of %zu bytes was written past its end", old->n);
        } else if (!smalls->count(ptr))
            violate_now("mem:foreign-free", "%p given to the reallocator is not a live block", ptr);
    }
    if (!size) {
        if (old) {
            blocks->erase(ptr);
            delete old;
        } else if (ptr) {
            smalls->erase(ptr);
            free(ptr);
        }
        return nullptr;
    }
    if (size > largest)
        largest = size;
    if (size > (size_t) 40 << 30)
        violate_now("mem:runaway", "the library asked for a block of %zu bytes", size);
    if (size < (size_t) 256 << 20) {
        if (old)
            violate_now("huge:shrink", "a block of %zu bytes was cut to %zu", old->n, size);
        if (ptr)
            smalls->erase(ptr);
        void *q = realloc(ptr, size);
        if (!q)
            _exit(12);
        (*smalls)[q] = size;
        return q;
    }
    Periodic *b = new Periodic(size);
    if (ptr) {
        size_t keep = old ? std::min(old->n, size) : std::min((*smalls)[ptr], size);
        // what is periodic need not be copied over and over
        size_t head = std::min(keep, 2 * UNIT), tail = std::min(keep - head, 2 * PAGE);
        memcpy(b->p, ptr, head);
        memcpy(b->p + keep - tail, (char *) ptr + keep - tail, tail);
        if (old) {
            blocks->erase(ptr);
            delete old;
        } else {
            smalls->erase(ptr);
            free(ptr);
        }
    }
    (*blocks)[b->p] = b;
    return b->p;
}
struct Install {
    Install()
    {
        blocks = new std::map<void *, Periodic *>;
        smalls = new std::map<void *, size_t>;
        largest = 0;
        fs_set_reallocator(big_realloc);
    }
    ~Install() { install_monitor(); }
    // every block was given back
    void empty(const char *what)
    {
        CHECK(blocks->empty() && smalls->empty(), "huge:leak", "%zu blocks left behind by %s", blocks->size() + smalls->size(), what);
    }
};
Periodic *block_of(void *p, const char *what)
{
    auto it = blocks->find(p);
    CHECK(it != blocks->end(), "huge:block", "the result of %s is not a block of its own", what);
    return it->second;
}
struct Task {
    const char *name;
    std::function<void()> f;
};
void run_tasks(Sweep &s, std::vector<Task> tasks)
{
    s.exhaustive = false;
    unsigned i = 0;
    for (auto &t : tasks) {
        if (!s.mine(i++))
            continue;
        s.tick(3);
        s.where(i);
        TR("huge: %s", t.name);
        {
            Install in;
            t.f();
            in.empty(t.name);
        }
        note_event("huge.text", 1);
        s.evals++;
        s.distinct++;
        s.sample(fmtstr("texts beyond 4 GiB: %s", t.name));
    }
}
// a text of OVER-1 bytes of the pattern; the end is cut by the terminator
const size_t LEN = OVER - 1;

// ---------------------------------------------------------------- C12
void valid_tasks(Sweep &s)
{
    run_tasks(s, {
        {"validity of a valid text",
         [] {
             Periodic t(OVER, "ab\xc3\xa9");
             t.p[LEN - 1] = 'x'; // the cut character
             CHECK(charstr_valid_utf8(t.p), "utf8:valid", "a valid text of %zu bytes is called invalid", LEN);
         }},
        {"validity of a text whose flaw is near the end",
         [] {
             Periodic t(OVER, "ab\xc3\xa9");
             t.p[LEN - 1] = 'x';
             t.p[LEN - 5] = 'y'; // behind a lead byte
             t.p[LEN - 3] = (char) 0x80;
             CHECK(!charstr_valid_utf8(t.p), "utf8:valid", "a text of %zu bytes with a flaw near the end is called valid", LEN);
         }},
        {"validity of a bounded text",
         [] {
             Periodic t(OVER, "ab\xc3\xa9");
             t.p[LEN - 1] = 'x';
             t.p[LEN] = 'y';
             CHECK(charstr_valid_utf8_bounded(t.p, t.p + OVER), "utf8:valid", "a valid text of %zu bytes is called invalid", OVER);
         }},
        {"validity of a flawed bounded text",
         [] {
             Periodic t(OVER, "ab\xc3\xa9");
             t.p[LEN - 1] = 'x';
             t.p[LEN] = (char) 0xc3;
             CHECK(!charstr_valid_utf8_bounded(t.p, t.p + OVER), "utf8:valid", "a text of %zu bytes with its last character cut is called valid", OVER);
         }},
    });
}
// ---------------------------------------------------------------- C13
void sane_tasks(Sweep &s)
{
    run_tasks(s, {
        {"sanitizing nothing but bad bytes",
         [] {
             size_t n = LEN / 3 + 4000;
             Periodic t(n + 1, "\xff");
             char *r = charstr_sanitize_utf8(t.p);
             Periodic *b = block_of(r, "sanitizing");
             CHECK(b->n >= 3 * n + 1 && b->holds("\xef\xbf\xbd", 3 * n), "sane:result", "%zu bad bytes do not become %zu bytes of replacement characters", n, 3 * n);
             fsfree(r);
         }},
        {"sanitizing a text with one flaw at its end",
         [] {
             Periodic t(OVER, "abcd");
             t.p[LEN - 1] = (char) 0x80;
             char *r = charstr_sanitize_utf8(t.p);
             Periodic *b = block_of(r, "sanitizing");
             CHECK(b->n >= LEN + 3 && b->holds("abcd", LEN + 2, "\xef\xbf\xbd"), "sane:result", "a text of %zu bytes with one flaw is sanitized wrongly", LEN);
             fsfree(r);
         }},
        {"sanitizing a valid text",
         [] {
             Periodic t(OVER, "a\xe2\x82\xac");
             t.p[LEN - 1] = t.p[LEN - 2] = t.p[LEN - 3] = 'x';
             char *r = charstr_sanitize_utf8(t.p);
             Periodic *b = block_of(r, "sanitizing");
             CHECK(b->n >= OVER && b->holds("a\xe2\x82\xac", LEN, "xxx"), "sane:result", "a valid text of %zu bytes is changed by sanitizing", LEN);
             fsfree(r);
         }},
    });
}
// ---------------------------------------------------------------- C14, C15, C16
#define CJK "\xf0\xa0\x80\x80" // four bytes a character: fewer steps
void norm_task(bool compose, size_t room, bool terminated)
{
    Periodic t(OVER, CJK);
    Periodic out(OVER + 10);
    // e + acute, or the same composed
    memcpy(t.p + LEN - 3, compose ? "e\xcc\x81" : "x\xc3\xa9", 3);
    memset(out.p, 'z', UNIT);
    errno = 0;
    char *q = compose ? charstr_unicode_recompose(t.p, terminated ? nullptr : t.p + LEN, out.p, out.p + room)
                      : charstr_unicode_decompose(t.p, terminated ? nullptr : t.p + LEN, out.p, out.p + room);
    size_t want = compose ? LEN - 1 : LEN + 1;
    if (room > want) {
        CHECK(q == out.p + want, "norm:end", "normalizing %zu bytes ends at %zd, expected %zu", LEN, q ? q - out.p : (ssize_t) -1, want);
        CHECK(out.holds(CJK, want, compose ? "\xc3\xa9" : "xe\xcc\x81"), "norm:text", "normalizing %zu bytes gives another text", LEN);
    } else
        CHECK(!q && errno == EOVERFLOW, "norm:room", "normalizing %zu bytes into %zu is not refused", LEN, room);
    CHECK(out.intact(), "norm:overrun", "normalizing %zu bytes wrote behind the output", LEN);
}
void nfd_tasks(Sweep &s)
{
    run_tasks(s, {{"decomposing", [] { norm_task(false, OVER + 1, true); }},
                  {"decomposing without room", [] { norm_task(false, LEN + 1, false); }}});
}
void nfc_tasks(Sweep &s)
{
    run_tasks(s, {{"recomposing", [] { norm_task(true, LEN, true); }},
                  {"recomposing without room", [] { norm_task(true, LEN - 1, false); }}});
}
void detect_tasks(Sweep &s)
{
    run_tasks(s, {
        {"quick check of a bounded text with a composite at its end",
         [] {
             Periodic t(OVER, CJK);
             memcpy(t.p + LEN - 3, "x\xc3\xa9", 3);
             t.p[LEN] = (char) 0xff; // beyond the limit
             CHECK(!charstr_unicode_canonically_decomposed(t.p, t.p + LEN), "detect:bool", "%zu bytes with a composite at the end called decomposed", LEN);
         }},
        {"quick check of a terminated text",
         [] {
             Periodic t(OVER, CJK);
             memcpy(t.p + LEN - 3, "x\xc3\xa9", 3);
             CHECK(charstr_unicode_canonically_composed(t.p, nullptr), "detect:bool", "%zu composed bytes not called so", LEN);
         }},
        {"quick check of a text with a flaw at its end",
         [] {
             Periodic t(OVER, CJK);
             // the terminator cuts the last character
             int r = charstr_detect_unicode_normal_form(t.p, nullptr, UNICODE_NFC_DISALLOWED, UNICODE_NFC_MAYBE);
             CHECK(r == -1, "detect:verdict", "quick check of %zu bytes with a flaw at the end is %d", LEN, r);
         }},
    });
}
// ---------------------------------------------------------------- C18
void idna_tasks(Sweep &s)
{
    auto refuse = [](const char *pat) {
        Periodic t(OVER, pat);
        char *r = charstr_idna_encode(t.p);
        CHECK(!r, "idna:long", "a hostname of %zu bytes is encoded", LEN);
    };
    auto copy = [](const char *pat, const char *res) {
        // all-ASCII names are not validated
        Periodic t(OVER, pat);
        char *r = charstr_idna_encode(t.p);
        Periodic *b = block_of(r, "encoding");
        CHECK(b->n >= OVER && b->holds(res, LEN), "idna:ascii", "an ASCII hostname of %zu bytes is not copied", LEN);
        fsfree(r);
    };
    run_tasks(s, {{"an endless ASCII label", [=] { copy("abCD", "abcd"); }},
                  {"an endless ASCII name", [=] { copy("aBc.", "abc."); }},
                  {"an endless label", [=] { refuse("ab\xc3\xa9"); }},
                  {"an endless name", [=] { refuse(".a\xc3\xa9."); }}});
}
// ---------------------------------------------------------------- C20
void url_tasks(Sweep &s)
{
    auto enc = [](size_t n, const std::string &pat, const std::string &res, bool custom) {
        Periodic t(n + 1, pat);
        charstr_url_encoder_t *e = custom ? charstr_create_url_encoder("a", "%") : nullptr;
        char *r = custom ? charstr_url_custom_encode(e, t.p) : charstr_url_encode(t.p);
        Periodic *b = block_of(r, "encoding");
        size_t w = n / pat.size() * res.size();
        CHECK(b->n >= w + 1 && b->holds(res, w), "url:encode", "the encoding of %zu times %s is wrong", n / pat.size(), pat.c_str());
        fsfree(r);
        if (custom)
            charstr_destroy_url_encoder(e);
    };
    auto dec = [](const std::string &pat, const std::string &res, bool plus) {
        size_t n = LEN / pat.size() * pat.size();
        Periodic t(n + 1, pat);
        size_t size = 12345;
        char *r = charstr_url_decode(t.p, plus, &size);
        size_t w = n / pat.size() * res.size();
        CHECK(r && size == w, "url:decode", "%zu times %s decodes into %zu bytes, expected %zu", n / pat.size(), pat.c_str(), r ? size : 0, w);
        Periodic *b = block_of(r, "decoding");
        CHECK(b->n >= w + 1 && b->holds(res, w), "url:decode", "the decoding of %zu times %s is wrong", n / pat.size(), pat.c_str());
        fsfree(r);
    };
    run_tasks(s, {
        {"encoding percent signs", [=] { enc(LEN / 3 + 4000, "%", "%25", false); }},
        {"encoding letters", [=] { enc(LEN, "a", "a", false); }},
        {"custom encoding of reserved letters", [=] { enc(LEN / 3 + 4000, "a", "%61", true); }},
        {"decoding escapes", [=] { dec("%41b", "Ab", false); }},
        {"decoding letters and pluses", [=] { dec("ab+d", "ab d", true); }},
        {"decoding with a flaw at the end",
         [] {
             Periodic t(OVER, "abcd");
             memcpy(t.p + LEN - 2, "%4", 2);
             size_t size;
             CHECK(!charstr_url_decode(t.p, false, &size), "url:decode", "%zu bytes ending in half an escape are decoded", LEN);
         }},
    });
}
// ---------------------------------------------------------------- C21
void judge_pieces(list_t *l, const std::vector<std::pair<size_t, std::string>> &want, const std::string &pat, const char *what)
{
    CHECK(l && list_size(l) == want.size(), "str:split", "%s gives %zu pieces, expected %zu", what, l ? (size_t) list_size(l) : 0, want.size());
    for (auto &w : want) {
        char *p = (char *) list_pop_first(l);
        if (w.first > (size_t) 256 << 20) {
            Periodic *b = block_of(p, what);
            CHECK(b->n >= w.first + 1 && b->holds(pat, w.first, w.second), "str:split", "%s: the piece of %zu bytes is wrong", what, w.first);
        } else
            CHECK(w.second == p, "str:split", "%s: a short piece is wrong", what);
        fsfree(p);
    }
    destroy_list(l);
}
void text_tasks(Sweep &s)
{
    run_tasks(s, {
        {"duplicating",
         [] {
             Periodic t(OVER, "abcd");
             char *r = charstr_dupstr(t.p);
             Periodic *b = block_of(r, "duplicating");
             CHECK(b->n >= OVER && b->holds("abcd", LEN), "str:dup", "%zu bytes are duplicated wrongly", LEN);
             fsfree(r);
             r = charstr_dupsubstr(t.p, t.p + LEN - 3);
             b = block_of(r, "duplicating");
             CHECK(b->n >= OVER - 3 && b->holds("abcd", LEN - 3), "str:dupsub", "%zu bytes are duplicated wrongly", LEN - 3);
             fsfree(r);
         }},
        {"splitting at a character near the end",
         [] {
             Periodic t(OVER, "abcd");
             memcpy(t.p + LEN - 5, ",xy,z", 5);
             judge_pieces(charstr_split(t.p, ',', 7), {{LEN - 5, ""}, {2, "xy"}, {1, "z"}}, "abcd", "splitting");
             judge_pieces(charstr_split(t.p, '!', 7), {{LEN, ",xy,z"}}, "abcd", "splitting");
             char *a[9] = {};
             unsigned n = charstr_split_into_array(t.p, ',', a, 1);
             CHECK(n == 1 && !strcmp(a[1], "xy,z"), "str:array", "splitting %zu bytes into an array", LEN);
             Periodic *b = block_of(a[0], "splitting into an array");
             CHECK(b->holds("abcd", LEN - 5), "str:array", "splitting %zu bytes into an array", LEN);
             fsfree(a[0]);
             fsfree(a[1]);
         }},
        {"splitting at a string near the end",
         [] {
             Periodic t(OVER, "abcd");
             memcpy(t.p + LEN - 5, "!,xyz", 5);
             judge_pieces(charstr_split_str(t.p, "!,", 7), {{LEN - 5, ""}, {3, "xyz"}}, "abcd", "splitting at a string");
         }},
        {"splitting at a long string",
         [] {
             // the delimiter is longer than 4 GiB
             Periodic t(OVER, "abcd"), d(OVER - 4, "abcd");
             memcpy(t.p + LEN - 3, "xyz", 3);
             d.p[d.n - 2] = t.p[d.n - 2];
             judge_pieces(charstr_split_str(t.p, d.p, 7), {{0, ""}, {4, std::string(1, t.p[LEN - 4]) + "xyz"}}, "abcd", "splitting at a long string");
         }},
        {"splitting into atoms",
         [] {
             Periodic t(OVER, "abcd");
             memcpy(t.p + LEN - 5, " xy z", 5);
             judge_pieces(charstr_split_atoms(t.p), {{LEN - 5, ""}, {2, "xy"}, {1, "z"}}, "abcd", "splitting into atoms");
             Periodic w(OVER, " \n\t\r");
             w.p[LEN - 1] = 'z';
             judge_pieces(charstr_split_atoms(w.p), {{1, "z"}}, "", "splitting into atoms");
         }},
        {"stripping",
         [] {
             Periodic t(OVER, "abcd");
             memcpy(t.p + LEN - 4, "z \n ", 4);
             char *r = charstr_strip(t.p);
             Periodic *b = block_of(r, "stripping");
             CHECK(b->holds("abcd", LEN - 3, "z"), "str:strip", "stripping %zu bytes", LEN);
             fsfree(r);
             Periodic w(OVER, " \n\t\r");
             r = charstr_strip(w.p);
             CHECK(r && !*r, "str:strip", "stripping %zu blanks", LEN);
             fsfree(r);
             w.p[LEN - 1] = 'z';
             r = charstr_strip(w.p);
             CHECK(r && !strcmp(r, "z"), "str:strip", "stripping %zu blanks before a letter", LEN);
             fsfree(r);
         }},
    });
}
// ---------------------------------------------------------------- C22
int sgn(int x) { return x < 0 ? -1 : x > 0; }
void ascii_tasks(Sweep &s)
{
    run_tasks(s, {
        {"comparing",
         [] {
             Periodic a(OVER, "abCD"), b(OVER, "ABcd");
             CHECK(charstr_case_cmp(a.p, b.p) == 0, "str:cmp", "%zu equal bytes are not", LEN);
             b.p[LEN - 1] = '~';
             CHECK(sgn(charstr_case_cmp(a.p, b.p)) < 0 && sgn(charstr_case_cmp(b.p, a.p)) > 0, "str:cmp", "%zu bytes that differ in the last", LEN);
         }},
        {"comparing up to a limit",
         [] {
             Periodic a(OVER, "abCD"), b(OVER, "ABcd");
             b.p[LEN - 1] = '~';
             CHECK(charstr_ncase_cmp(a.p, b.p, LEN - 1) == 0, "str:ncmp", "%zu equal bytes are not", LEN - 1);
             CHECK(sgn(charstr_ncase_cmp(a.p, b.p, LEN)) < 0 && sgn(charstr_ncase_cmp(b.p, a.p, (size_t) -1)) > 0, "str:ncmp", "%zu bytes that differ in the last", LEN);
         }},
        {"comparing with a huge limit",
         [] {
             CHECK(sgn(charstr_ncase_cmp("abc", "abd", (size_t) 1 << 32)) < 0, "str:ncmp", "limit 2^32");
             CHECK(sgn(charstr_ncase_cmp("b", "a", (size_t) 1 << 63)) > 0, "str:ncmp", "limit 2^63");
             CHECK(sgn(charstr_ncase_cmp("b", "ba", ((size_t) 1 << 32) + 1)) < 0, "str:ncmp", "limit 2^32+1");
         }},
        {"prefixes",
         [] {
             Periodic a(OVER, "abCD"), b(OVER - 1, "abCD");
             CHECK(charstr_skip_prefix(a.p, b.p) == a.p + LEN - 1 && charstr_case_starts_with(a.p, b.p) == a.p + LEN - 1, "str:prefix", "a prefix of %zu bytes", LEN - 1);
             CHECK(!charstr_skip_prefix(b.p, a.p), "str:prefix", "a prefix longer than the text, %zu bytes", LEN);
         }},
        {"prefixes in any case",
         [] {
             Periodic a(OVER, "abCD"), c(OVER - 1, "ABcd");
             CHECK(charstr_case_skip_prefix(a.p, c.p) == a.p + LEN - 1, "str:prefix", "a prefix of %zu bytes", LEN - 1);
         }},
        {"suffixes",
         [] {
             Periodic a(OVER, "abCD"), b(OVER - 4, "abCD");
             CHECK(charstr_ends_with(a.p, a.p + LEN - 10) && charstr_ends_with(a.p, b.p), "str:suffix", "suffix of %zu bytes", LEN);
             CHECK(!charstr_ends_with(b.p, a.p) && !charstr_ends_with(a.p + LEN - 9, a.p + 5) , "str:suffix", "suffix longer than the text, %zu bytes", LEN);
             b.p[b.n - 2] = '~';
             CHECK(!charstr_ends_with(a.p, b.p), "str:suffix", "suffix of %zu bytes that differs in the last", b.n - 1);
         }},
        {"converting in place",
         [] {
             Periodic a(OVER, "aBcD");
             CHECK(charstr_lcase_str(a.p) == a.p && a.holds("abcd", LEN), "str:inplace", "lower case of %zu bytes", LEN);
             CHECK(charstr_ucase_str(a.p) == a.p && a.holds("ABCD", LEN), "str:inplace", "upper case of %zu bytes", LEN);
             std::string tail(a.p + LEN - 2, 2);
             CHECK(charstr_lcase_substr(a.p, a.p + LEN - 2) == a.p && a.holds("abcd", LEN, tail), "str:inplace", "lower case of %zu bytes and not more", LEN - 2);
         }},
        {"converting a part in place",
         [] {
             Periodic a(OVER, "aBcD");
             std::string tail(a.p + LEN - 2, 2);
             CHECK(charstr_ucase_substr(a.p, a.p + LEN - 2) == a.p && a.holds("ABCD", LEN, tail), "str:inplace", "upper case of %zu bytes and not more", LEN - 2);
         }},
    });
}
} // namespace
REG_SWEEP("C12", huge_valid, valid_tasks, 1, 0, 0);
REG_SWEEP("C13", huge_sane, sane_tasks, 1, 0, 0);
REG_SWEEP("C14", huge_nfd, nfd_tasks, 1, 0, 0);
REG_SWEEP("C15", huge_nfc, nfc_tasks, 1, 0, 0);
REG_SWEEP("C16", huge_detect, detect_tasks, 1, 0, 0);
REG_SWEEP("C18", huge_idna, idna_tasks, 1, 0, 0);
REG_SWEEP("C20", huge_url, url_tasks, 1, 0, 0);
REG_SWEEP("C21", huge_text, text_tasks, 1, 0, 0);
REG_SWEEP("C22", huge_ascii, ascii_tasks, 1, 0, 0);
