// C32: comparisons a hash table needs; C33: bytes requested while growing.
#include "core.h"
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>
#include <algorithm>
#include <memory>

namespace {
// ------------------------------------------------------------ hash tables
thread_local u64 cmps;
u64 key_hash(const void *p) { return mix64(*(const u64 *) p); }
int key_cmp(const void *a, const void *b)
{
    cmps++;
    return *(const u64 *) a != *(const u64 *) b;
}
struct Rec {
    u64 head[4], n;
};
u64 rec_hash(const void *p) { return hash_blob(p, sizeof(Rec)); }
int rec_cmp(const void *a, const void *b)
{
    cmps++;
    return memcmp(a, b, sizeof(Rec));
}
int counting_strcmp(const void *a, const void *b)
{
    cmps++;
    return strcmp((const char *) a, (const char *) b);
}
int counting_int(const void *a, const void *b)
{
    cmps++;
    return integer_cmp(a, b);
}
int counting_uns(const void *a, const void *b)
{
    cmps++;
    return unsigned_cmp(a, b);
}

struct T {
    int type; // 0: scrambled by the caller, 1: strings, 2: integers, 3: unsigned, 4: blobs
    size_t hint;
    hash_table_t *t;
    std::vector<u64> nums;
    std::vector<std::string> names;
    std::vector<Rec> recs;
    std::string prefix;
    u64 base, stride;

    T(Gen &g, size_t cap, size_t keys) : hint(cap)
    {
        type = g.chance(1, 2) ? 0 : 1 + g.below(4);
        base = g.chance(1, 2) ? g.below(100000) : g.prng() >> 1;
        stride = type == 0 ? (u64) 1 << g.below(40) : 1;
        prefix = g.chance(1, 2) ? "" : g.chance(1, 2) ? "/usr/share/item-" : std::string(g.size(300), 'k');
        switch (type) {
            case 0: t = make_hash_table(cap, key_hash, key_cmp); break;
            case 1: t = make_hash_table(cap, (u64 (*)(const void *)) hash_string, counting_strcmp); break;
            case 2: t = make_hash_table(cap, (u64 (*)(const void *)) hash_integer, counting_int); break;
            case 3: t = make_hash_table(cap, (u64 (*)(const void *)) hash_unsigned, counting_uns); break;
            default: t = make_hash_table(cap, rec_hash, rec_cmp);
        }
        if (type == 0) {
            nums.resize(keys);
            for (size_t i = 0; i < keys; i++)
                nums[i] = base + i * stride;
        } else if (type == 4) {
            u64 x = g.prng();
            for (size_t i = 0; i < keys; i++)
                recs.push_back(Rec{{x, 0, x >> 7, 1}, base + i});
        } else if (type == 1) {
            names.resize(keys);
            for (size_t i = 0; i < keys; i++)
                names[i] = prefix + std::to_string(base % 100000 + i);
        }
    }
    const void *key(size_t i)
    {
        switch (type) {
            case 0: return &nums[i];
            case 1: return names[i].c_str();
            case 2: return as_integer((intptr_t) (base + i));
            case 3: return as_unsigned((uintptr_t) (base + i));
            default: return &recs[i];
        }
    }
    const char *kind() const
    {
        static const char *const k[] = {"scrambled", "string", "integer", "unsigned", "record"};
        return k[type];
    }
    // n operations with n0 keys in the table at most: three comparisons each
    // on average, or in proportion to the ratio of keys and hint
    void judge(const char *what, u64 c0, size_t n, size_t n0)
    {
        double load = std::max(1.0, (double) n0 / std::max<size_t>(hint, 1));
        double limit = 3.0 * n * load + 100 + 8 * load;
        EV("cost.table");
        if (n0 <= hint)
            EV("cost.within");
        else
            EV("cost.beyond");
        CHECK(cmps - c0 <= limit, "cost:table",
              "%zu %s calls made %llu comparisons in a table for %zu elements that held %zu (%s keys)", n, what,
              (unsigned long long) (cmps - c0), hint, n0, kind());
    }
};
void table_history(Gen &g, size_t hint, size_t n, Sweep *s, std::string *text)
{
    T h(g, hint, 2 * n);
    u64 c0 = cmps;
    auto tick = [&](size_t i) {
        if (s && i % 5000 == 0)
            s->tick();
    };
    for (size_t i = 0; i < n; i++) {
        tick(i);
        hash_elem_t *old = hash_table_put(h.t, h.key(i), &h);
        CHECK(!old, "hash:result", "put of a new key returned an element");
    }
    h.judge("put", c0, n, n);
    size_t at = 0; // the keys at..at+n-1 are in the table
    int rounds = g.below(3);
    for (int r = 0; r <= rounds; r++) {
        c0 = cmps;
        for (size_t i = 0; i < n; i++) {
            tick(i);
            hash_elem_t *e = hash_table_get(h.t, h.key(at + i));
            CHECK(e && hash_elem_get_value(e) == &h, "hash:result", "a key was not found");
        }
        h.judge("successful get", c0, n, n);
        c0 = cmps;
        for (size_t i = 0; i < 2 * n; i++) {
            if (i >= at && i < at + n)
                continue;
            tick(i);
            CHECK(!hash_table_get(h.t, h.key(i)), "hash:result", "a key was found that is not there");
        }
        h.judge("failing get", c0, n, n);
        if (r == rounds)
            break;
        // every key leaves, another comes
        int how = g.below(3);
        c0 = cmps;
        for (size_t i = 0; i < n; i++) {
            tick(i);
            const void *k = h.key(at + i);
            if (how == 0)
                destroy_hash_element(hash_table_pop(h.t, k));
            else {
                hash_elem_t *e = hash_table_get(h.t, k);
                if (how == 1)
                    hash_table_remove(h.t, e);
                else {
                    hash_table_detach(h.t, e);
                    destroy_hash_element(e);
                }
            }
            hash_table_put(h.t, h.key(at ? i : n + i), &h);
        }
        h.judge("removal and put", c0, 2 * n, n);
        EV("cost.churn");
        at = at ? 0 : n;
    }
    c0 = cmps;
    for (size_t i = 0; i < n; i++) {
        hash_elem_t *old = hash_table_put(h.t, h.key(at + i), &g);
        CHECK(old, "hash:result", "replacing did not return the element");
        destroy_hash_element(old);
    }
    h.judge("replacing put", c0, n, n);
    if (text)
        *text = fmtstr("a table for %zu elements with %zu %s keys, %d rounds of replacement", hint, n, h.kind(), rounds);
    destroy_hash_table(h.t);
}
void table(Case &c)
{
    Gen &g = c.g;
    size_t hint = g.chance(1, 3) ? g.below(200) : g.size(opt.asan() ? 3000 : 20000);
    size_t n = hint;
    switch (g.below(4)) {
        case 0: n = hint + g.below(2 * hint + 20); break;
        case 1: n = g.below(hint + 1); break;
    }
    if (!hint)
        n = g.below(60);
    c.mix(hint);
    c.mix(n);
    c.mix(g.prng());
    c.nontrivial = n > 20;
    table_history(g, hint, n, nullptr, &c.text);
}
void tables_big(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned j = 0; j < 8; j++) {
        if (!s.mine(j))
            continue;
        Gen g(mix64(j * 977 + opt.seed));
        unsigned bits = opt.asan() ? 12 : opt.quick() ? 16 + j % 4 : 18 + j % 4;
        size_t hint = ((size_t) 1 << bits) + g.below((size_t) 1 << (bits - 1));
        std::string text;
        table_history(g, hint, j % 4 == 1 ? hint * 3 : hint, &s, &text);
        EV("cost.big");
        s.evals += 4 * hint;
        s.distinct++;
        s.sample(text);
    }
}

// ------------------------------------------------------------ growth
thread_local u64 requested, requests;
void *counting_realloc(void *p, size_t n)
{
    if (n == 0) {
        free(p);
        return nullptr;
    }
    requested += n;
    requests++;
    void *q = realloc(p, n);
    if (!q)
        _exit(12);
    return q;
}
struct Counting {
    Counting()
    {
        requested = requests = 0;
        fs_set_reallocator(counting_realloc);
    }
    ~Counting() { install_monitor(); }
};
void growth(const char *what, u64 put, u64 peak)
{
    EV("cost.growth");
    u64 limit = 16 * (put + peak) + 65536;
    CHECK(requested <= limit, "cost:growth", "%s: %llu bytes were requested in %llu calls for %llu bytes of contents",
          what, (unsigned long long) requested, (unsigned long long) requests, (unsigned long long) (put + peak));
}
struct Feed {
    size_t most;
    int fail;
};
ssize_t feed(void *obj, void *buf, size_t count)
{
    Feed *f = (Feed *) obj;
    size_t n = std::min(count, f->most);
    memset(buf, 'x', n);
    return n;
}
void grow_array(Gen &g, u64 top, Sweep *s, std::string *text)
{
    Counting cn;
    size_t max = g.chance(1, 2) ? SIZE_MAX : g.chance(1, 2) ? top + 1 : top + 1 + g.below(top);
    byte_array_t *a = make_byte_array(max);
    static const char block[12000] = {1};
    size_t chunk = g.chance(1, 2) ? 1 + g.below(10) : 1 + g.below(4900);
    if (top > ((u64) 16 << 20) && chunk < 16)
        chunk = 16;
    unsigned how = g.below(5);
    u64 calls = 0;
    while (byte_array_size(a) < top) {
        size_t now = byte_array_size(a), n = std::min<u64>(1 + g.below(2 * chunk), top - now);
        unsigned h = how == 4 ? g.below(4) : how;
        bool ok = true;
        Feed f{n, 0};
        switch (h) {
            case 0: ok = byte_array_append(a, block, n); break;
            case 1: ok = byte_array_resize(a, now + n, 'y'); break;
            case 2: ok = byte_array_append_stream(a, feed, &f, n) == (ssize_t) n; break;
            default: {
                size_t back = std::min<size_t>(now, g.below(1000));
                ok = byte_array_copy(a, now - back, block, back + n);
            }
        }
        CHECK(ok, "ba:result", "growing from %zu bytes by %zu failed", now, n);
        if (s && ++calls % 100000 == 0)
            s->tick();
        if (calls % 4096 == 0)
            growth("a byte array", byte_array_size(a), byte_array_size(a) + 5000);
    }
    growth("a byte array", byte_array_size(a), byte_array_size(a));
    static const char *const ways[] = {"appending", "resizing", "streaming", "copying", "all means"};
    if (text)
        *text = fmtstr("a byte array grown to %llu bytes by %s, %zu at a time, maximum %zu", (unsigned long long) top,
                       ways[how], chunk, max);
    destroy_byte_array(a);
    EV("cost.array");
}
int ptr_cmp(const void *a, const void *b) { return (uintptr_t) a < (uintptr_t) b ? -1 : a != b; }
void grow_queue(Gen &g, u64 top, Sweep *s, std::string *text)
{
    Counting cn;
    priorq_t *q = make_priority_queue(ptr_cmp, nullptr);
    int order = g.below(3);
    unsigned back = g.chance(1, 2) ? 0 : g.below(45); // percent of removals
    u64 put = 0, peak = 0, n = 0, ops = 0;
    while (n < top) {
        if (g.below(100) < back && n) {
            if (g.chance(1, 2))
                priorq_pop(q);
            else
                priorq_dequeue(q);
            n--;
        } else {
            put++;
            n++;
            uintptr_t v = order == 0 ? put : order == 1 ? ~put : g.prng() | 1;
            priorq_enqueue(q, (void *) (v | 1));
        }
        peak = std::max(peak, n);
        if (++ops % 4096 == 0) {
            growth("a priority queue", put * sizeof(void *), peak * sizeof(void *));
            if (s)
                s->tick();
        }
    }
    // hover at a power of two
    u64 p2 = 1;
    while (p2 * 2 <= n)
        p2 *= 2;
    while (n > p2) {
        priorq_pop(q);
        n--;
    }
    for (int i = 0; i < 3000; i++) {
        for (int k = 0; k < 2; k++)
            priorq_enqueue(q, &cn);
        for (int k = 0; k < 2; k++)
            if (g.chance(1, 2))
                priorq_pop(q);
            else
                priorq_dequeue(q);
        put += 2;
    }
    growth("a priority queue", put * sizeof(void *), peak * sizeof(void *));
    destroy_priority_queue(q);
    if (text)
        *text = fmtstr("a priority queue grown to %llu elements, %u%% of the steps removals", (unsigned long long) top, back);
    EV("cost.queue");
}
// strings and lists made in one call
void grow_string(Gen &g, u64 n, std::string *text)
{
    std::string src(n, 'a');
    static const char *const alpha[] = {"a", "ab,", "\xc3\xa9x", "%41", " ,", "/?&"};
    std::string unit = alpha[g.below(6)];
    for (u64 i = 0; i < n; i++)
        src[i] = unit[i % unit.size()];
    while (!src.empty() && (n % unit.size())) {
        src.pop_back();
        n--;
    }
    u64 out = 0, pieces = 0;
    size_t got = 0;
    int what = g.below(10);
    static const char *const names[] = {"charstr_url_encode", "charstr_url_custom_encode", "charstr_url_decode",
                                        "charstr_split", "charstr_split_atoms", "charstr_printf", "charstr_strip",
                                        "base64_encode_simple", "base64_decode_simple", "charstr_sanitize_utf8"};
    charstr_url_encoder_t *enc = what == 1 ? charstr_create_url_encoder("a", "/") : nullptr;
    char *b64 = what == 8 ? base64_encode_simple(src.data(), n) : nullptr;
    char *r = nullptr;
    list_t *l = nullptr;
    {
        Counting cn;
        switch (what) {
            case 0: r = charstr_url_encode(src.c_str()); break;
            case 1: r = charstr_url_custom_encode(enc, src.c_str()); break;
            case 2: r = charstr_url_decode(src.c_str(), true, nullptr); break;
            case 3: l = charstr_split(src.c_str(), unit.back(), g.chance(1, 2) ? UINT_MAX : g.below(1000)); break;
            case 4: l = charstr_split_atoms(src.c_str()); break;
            case 5: r = charstr_printf("%s%s", src.c_str(), src.c_str()); break;
            case 6: r = charstr_strip(src.c_str()); break;
            case 7: r = base64_encode_simple(src.data(), n); break;
            case 8: r = (char *) base64_decode_simple(b64, &got); break;
            default: r = charstr_sanitize_utf8(src.c_str());
        }
        if (r)
            out = strlen(r);
        if (l) {
            for (list_elem_t *e = list_get_first(l); e; e = list_next(e)) {
                out += strlen((const char *) list_elem_get_value(e));
                pieces++;
            }
            while (!list_empty(l))
                fsfree((void *) list_pop_first(l));
            destroy_list(l);
        }
        fsfree(r);
        // a list element and a block for every piece
        growth(names[what], n + pieces * 64, out);
    }
    if (enc)
        charstr_destroy_url_encoder(enc);
    fsfree(b64);
    EV("cost.string");
    if (text)
        *text = fmtstr("%s of %llu bytes", names[what], (unsigned long long) n);
}
void grow(Case &c)
{
    Gen &g = c.g;
    u64 n = (u64) 1 << g.below(opt.asan() ? 18 : 20);
    n += g.below(n);
    c.mix(n);
    c.mix(g.prng());
    c.nontrivial = n > 1000;
    switch (g.below(3)) {
        case 0: grow_array(g, n, nullptr, &c.text); break;
        case 1: grow_queue(g, n / 8 + 1, nullptr, &c.text); break;
        default: grow_string(g, n, &c.text);
    }
}
void grow_big(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned j = 0; j < 8; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        Gen g(mix64(j * 31 + opt.seed));
        std::string text;
        u64 top = (u64) 1 << (opt.quick() ? 26 : 28);
        if (j % 2)
            grow_array(g, top + g.below(top / 2), &s, &text);
        else
            grow_queue(g, top / 32 + g.below(top / 64), &s, &text);
        s.evals++;
        s.distinct++;
        s.sample(text);
        EV("cost.grown");
    }
}
} // namespace
REG_CASES("C32", cost_table, table, 3000, 600, 20, 0);
REG_SWEEP("C32", cost_tables_big, tables_big, 1, 1, 0);
REG_CASES("C33", cost_grow, grow, 3000, 300, 20, 0);
REG_SWEEP("C33", cost_grow_big, grow_big, 1, 0, 0);
