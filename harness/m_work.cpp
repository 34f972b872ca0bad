// C35: work of container operations; C36: work of text functions;
// C37: stack they need.  C35 and C36 run in the "work" build, where every
// basic block of the library counts one and the C library's string functions
// count what they pass over.
#include "core.h"
#include <fsdyn/avltree.h>
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/date.h>
#include <fsdyn/float.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/intset.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <strings.h>
#include <wchar.h>
#include <algorithm>
#include <memory>

// ------------------------------------------------------------ the counter
namespace {
u64 work, work_limit = ~(u64) 0;
const char *work_what = "";
u64 work_size;
[[noreturn]] void exceeded()
{
    u64 l = work_limit;
    work_limit = ~(u64) 0;
    violate_now("work:limit", "%s (size %llu): more than %llu steps", work_what, (unsigned long long) work_size,
                (unsigned long long) l);
}
inline void pass(u64 bytes)
{
    work += 1 + bytes / 8;
    if (work > work_limit)
        exceeded();
}
} // namespace
extern "C" {
void __sanitizer_cov_trace_pc(void)
{
    if (++work > work_limit)
        exceeded();
}
size_t wk_strlen(const char *s) { size_t n = strlen(s); pass(n); return n; }
size_t wk_strnlen(const char *s, size_t m) { size_t n = strnlen(s, m); pass(n); return n; }
char *wk_strchr(const char *s, int c)
{
    const char *p = strchr(s, c);
    pass(p ? p - s : strlen(s));
    return (char *) p;
}
char *wk_strchrnul(const char *s, int c)
{
    const char *p = strchrnul(s, c);
    pass(p - s);
    return (char *) p;
}
char *wk_strrchr(const char *s, int c) { pass(strlen(s)); return (char *) strrchr(s, c); }
char *wk_strstr(const char *s, const char *d)
{
    const char *p = strstr(s, d);
    pass(strlen(d) + (p ? p - s : strlen(s)));
    return (char *) p;
}
void *wk_memmem(const void *s, size_t n, const void *d, size_t m)
{
    void *p = memmem(s, n, d, m);
    pass(m + (p ? (char *) p - (char *) s : n));
    return p;
}
static size_t common(const char *a, const char *b, size_t n)
{
    size_t i = 0;
    while (i < n && a[i] && a[i] == b[i])
        i++;
    return i;
}
int wk_strcmp(const char *a, const char *b) { pass(common(a, b, SIZE_MAX)); return strcmp(a, b); }
int wk_strncmp(const char *a, const char *b, size_t n) { pass(common(a, b, n)); return strncmp(a, b, n); }
int wk_strcasecmp(const char *a, const char *b) { pass(common(a, b, SIZE_MAX)); return strcasecmp(a, b); }
int wk_strncasecmp(const char *a, const char *b, size_t n) { pass(common(a, b, n)); return strncasecmp(a, b, n); }
int wk_memcmp(const void *a, const void *b, size_t n) { pass(n); return memcmp(a, b, n); }
void *wk_memchr(const void *s, int c, size_t n)
{
    const void *p = memchr(s, c, n);
    pass(p ? (char *) p - (char *) s : n);
    return (void *) p;
}
void *wk_memrchr(const void *s, int c, size_t n) { pass(n); return (void *) memrchr(s, c, n); }
void *wk_rawmemchr(const void *s, int c)
{
    void *p = (void *) rawmemchr(s, c);
    pass((char *) p - (char *) s);
    return p;
}
void *wk_memcpy(void *d, const void *s, size_t n) { pass(n); return memcpy(d, s, n); }
void *wk_mempcpy(void *d, const void *s, size_t n) { pass(n); return mempcpy(d, s, n); }
void *wk_memmove(void *d, const void *s, size_t n) { pass(n); return memmove(d, s, n); }
void *wk_memset(void *d, int c, size_t n) { pass(n); return memset(d, c, n); }
char *wk_strcpy(char *d, const char *s) { pass(strlen(s)); return strcpy(d, s); }
char *wk_stpcpy(char *d, const char *s) { pass(strlen(s)); return stpcpy(d, s); }
char *wk_strncpy(char *d, const char *s, size_t n) { pass(n); return strncpy(d, s, n); }
char *wk_strcat(char *d, const char *s) { pass(strlen(d) + strlen(s)); return strcat(d, s); }
char *wk_strncat(char *d, const char *s, size_t n) { pass(strlen(d) + strnlen(s, n)); return strncat(d, s, n); }
size_t wk_strspn(const char *s, const char *a) { size_t n = strspn(s, a); pass(n + strlen(a)); return n; }
size_t wk_strcspn(const char *s, const char *a) { size_t n = strcspn(s, a); pass(n + strlen(a)); return n; }
char *wk_strpbrk(const char *s, const char *a)
{
    size_t n = strcspn(s, a);
    pass(n + strlen(a));
    return s[n] ? (char *) s + n : nullptr;
}
int wk_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    int r = vsnprintf(d, n, f, ap);
    pass((r > 0 ? r : 0) + strlen(f));
    return r;
}
int wk_vsprintf(char *d, const char *f, va_list ap)
{
    int r = vsprintf(d, f, ap);
    pass((r > 0 ? r : 0) + strlen(f));
    return r;
}
int wk_snprintf(char *d, size_t n, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = wk_vsnprintf(d, n, f, ap);
    va_end(ap);
    return r;
}
int wk_sprintf(char *d, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = wk_vsprintf(d, f, ap);
    va_end(ap);
    return r;
}
}

namespace {
struct Limit { // the steps of what runs in its scope
    u64 start = work;
    Limit(const char *what, u64 size, u64 limit)
    {
        work_what = what;
        work_size = size;
        work_limit = work + limit;
    }
    u64 steps() const { return work - start; }
    ~Limit() { work_limit = ~(u64) 0; }
};
unsigned log2up(u64 n)
{
    unsigned k = 0;
    while (n >> k)
        k++;
    return k;
}
enum { STEP = 150 }; // allowed per unit
#define CONSTANT(what, n, expr)                                   \
    ({                                                            \
        Limit l_(what, n, 2 * STEP);                              \
        EV("work.constant");                                      \
        expr;                                                     \
    })
#define LOGARITHMIC(what, n, expr)                                \
    ({                                                            \
        Limit l_(what, n, STEP * (log2up(n) + 2));                \
        EV("work.logarithmic");                                   \
        expr;                                                     \
    })
#define LINEAR(what, n, expr)                                     \
    ({                                                            \
        Limit l_(what, n, STEP * ((u64) (n) + 2));                \
        EV("work.linear");                                        \
        expr;                                                     \
    })
void judge(const char *what, u64 n, u64 steps, u64 limit)
{
    CHECK(steps <= limit, "work:limit", "%s (size %llu): %llu steps instead of at most %llu", what,
          (unsigned long long) n, (unsigned long long) steps, (unsigned long long) limit);
}

// ------------------------------------------------------------ C35: lists
void count_value(const void *, void *arg) { ++*(u64 *) arg; }
void list_work(Gen &g, u64 top, Sweep *s)
{
    list_t *l = CONSTANT("make_list", 0, make_list());
    std::vector<list_elem_t *> h; // any order
    u64 ops = 3 * top + 20;
    unsigned grow = 60;
    for (u64 i = 0; i < ops; i++) {
        u64 n = h.size();
        if (s && i % 65536 == 0)
            s->tick();
        if (i == ops * 2 / 3)
            grow = 30;
        const void *v = (void *) (uintptr_t) (1 + g.below(100));
        if (n == 0 || g.below(100) < grow) {
            switch (g.below(3)) {
                case 0: h.push_back(CONSTANT("list_append", n, list_append(l, v))); break;
                case 1: h.push_back(CONSTANT("list_prepend", n, list_prepend(l, v))); break;
                default:
                    if (n) {
                        list_elem_t *at = g.pick(h);
                        h.push_back(CONSTANT("list_insert_before", n, list_insert_before(l, v, at)));
                    }
            }
            continue;
        }
        size_t k = g.below(n);
        switch (g.below(10)) {
            case 0: CONSTANT("list_size", n, list_size(l)); break;
            case 1: CONSTANT("list_empty", n, list_empty(l)); break;
            case 2: CONSTANT("list_next", n, list_next(h[k])); break;
            case 3: CONSTANT("list_previous", n, list_previous(h[k])); break;
            case 4: CONSTANT("list_get_first", n, list_get_first(l)); break;
            case 5: CONSTANT("list_get_last", n, list_get_last(l)); break;
            case 6: CONSTANT("list_elem_get_value", n, list_elem_get_value(h[k])); break;
            default:
                CONSTANT("list_remove", n, list_remove(l, h[k]));
                h[k] = h.back();
                h.pop_back();
        }
    }
    u64 n = h.size();
    u64 seen = 0;
    LINEAR("list_foreach", n, list_foreach(l, count_value, &seen));
    LINEAR("list_get", n, list_get(l, (void *) 1000));
    LINEAR("list_get_by_index", n, list_get_by_index(l, n ? n - 1 : 0));
    list_t *c = LINEAR("list_copy", n, list_copy(l));
    LINEAR("destroy_list", n, destroy_list(c));
    for (u64 i = n / 2; i; i--)
        if (g.chance(1, 2))
            CONSTANT("list_pop_first", i, list_pop_first(l));
        else
            CONSTANT("list_pop_last", i, list_pop_last(l));
    LINEAR("destroy_list", n, destroy_list(l));
}

// ------------------------------------------------------------ C35: trees
int cmp_ptr(const void *a, const void *b)
{
    return (uintptr_t) a < (uintptr_t) b ? -1 : a != b;
}
void tree_work(Gen &g, u64 top, Sweep *s)
{
    avl_tree_t *t = CONSTANT("make_avl_tree", 0, make_avl_tree(cmp_ptr));
    unsigned order = g.below(4);
    u64 span = order == 3 ? top : (u64) 1 << 40;
    uintptr_t seq = 1 << 20;
    for (u64 i = 0; i < top; i++) {
        if (s && i % 65536 == 0)
            s->tick();
        uintptr_t k = order == 0 ? ++seq : order == 1 ? ~++seq : 1 + g.below(span);
        u64 n = avl_tree_size(t);
        avl_elem_t *old = LOGARITHMIC("avl_tree_put", n, avl_tree_put(t, (void *) k, (void *) (uintptr_t) i));
        if (old)
            CONSTANT("destroy_avl_element", n, destroy_avl_element(old));
    }
    for (u64 i = 0; i < top; i++) {
        if (s && i % 65536 == 0)
            s->tick();
        u64 n = avl_tree_size(t);
        uintptr_t k = order == 0 ? (1 << 20) + g.below(top) : order == 1 ? ~((1 << 20) + g.below(top)) : g.below(span);
        void *key = (void *) k;
        avl_elem_t *e = nullptr;
        switch (g.below(16)) {
            case 0: CONSTANT("avl_tree_size", n, avl_tree_size(t)); break;
            case 1: CONSTANT("avl_tree_empty", n, avl_tree_empty(t)); break;
            case 2: LOGARITHMIC("avl_tree_get", n, avl_tree_get(t, key)); break;
            case 3: LOGARITHMIC("avl_tree_get_before", n, avl_tree_get_before(t, key)); break;
            case 4: LOGARITHMIC("avl_tree_get_on_or_before", n, avl_tree_get_on_or_before(t, key)); break;
            case 5: LOGARITHMIC("avl_tree_get_after", n, avl_tree_get_after(t, key)); break;
            case 6: LOGARITHMIC("avl_tree_get_on_or_after", n, avl_tree_get_on_or_after(t, key)); break;
            case 7: LOGARITHMIC("avl_tree_get_first", n, avl_tree_get_first(t)); break;
            case 8: LOGARITHMIC("avl_tree_get_last", n, avl_tree_get_last(t)); break;
            case 9: e = avl_tree_get_on_or_after(t, key);
                if (e)
                    LOGARITHMIC("avl_tree_next", n, avl_tree_next(e));
                e = nullptr;
                break;
            case 10: e = avl_tree_get_on_or_before(t, key);
                if (e)
                    LOGARITHMIC("avl_tree_previous", n, avl_tree_previous(e));
                e = nullptr;
                break;
            case 11: e = LOGARITHMIC("avl_tree_pop_first", n, avl_tree_pop_first(t)); break;
            case 12: e = LOGARITHMIC("avl_tree_pop_last", n, avl_tree_pop_last(t)); break;
            case 13: e = LOGARITHMIC("avl_tree_pop", n, avl_tree_pop(t, key)); break;
            case 14: e = avl_tree_get_on_or_after(t, key);
                if (e)
                    LOGARITHMIC("avl_tree_detach", n, avl_tree_detach(t, e));
                break;
            default: e = avl_tree_get_on_or_before(t, key);
                if (e)
                    LOGARITHMIC("avl_tree_remove", n, avl_tree_remove(t, e));
                e = nullptr;
        }
        if (e)
            destroy_avl_element(e);
    }
    u64 n = avl_tree_size(t);
    LINEAR("a traversal of a tree", n, ({
        for (avl_elem_t *e = avl_tree_get_first(t); e; e = avl_tree_next(e))
            ;
    }));
    LINEAR("a backward traversal of a tree", n, ({
        for (avl_elem_t *e = avl_tree_get_last(t); e; e = avl_tree_previous(e))
            ;
    }));
    avl_tree_t *c = LINEAR("avl_tree_copy", n, avl_tree_copy(t));
    LINEAR("destroy_avl_tree", n, destroy_avl_tree(c));
    LINEAR("destroy_avl_tree", n, destroy_avl_tree(t));
}

// ------------------------------------------------------------ C35: tables
uint64_t hash_ptr(const void *p) { return mix64((uintptr_t) p); }
void table_work(Gen &g, u64 top, Sweep *s)
{
    hash_table_t *t = LINEAR("make_hash_table", top, make_hash_table(top, hash_ptr, cmp_ptr));
    CONSTANT("hash_table_empty", 0, hash_table_empty(t));
    u64 base = g.prng() | 1;
    auto key = [&](u64 i) { return (void *) (uintptr_t) (base + i * 2); };
    static const char *const phases[] = {"insertions", "lookups", "replacements", "failing lookups", "removals"};
    for (int phase = 0; phase < 5; phase++) {
        u64 before = work;
        for (u64 i = 0; i < top; i++) {
            if (s && i % 65536 == 0)
                s->tick();
            void *k = key(phase == 3 ? i + top : i);
            hash_elem_t *e;
            switch (phase) {
                case 0:
                    hash_table_put(t, k, k);
                    CONSTANT("hash_table_size", i, hash_table_size(t));
                    CONSTANT("hash_table_empty", i, hash_table_empty(t));
                    break;
                case 1:
                    e = hash_table_get(t, k);
                    if (e && hash_elem_get_key(e) != k)
                        violate("work:value", "another key was found");
                    CONSTANT("hash_table_empty", i, hash_table_empty(t));
                    break;
                case 2:
                    e = hash_table_put(t, k, &work);
                    if (e)
                        destroy_hash_element(e);
                    break;
                case 3:
                    hash_table_get(t, k);
                    break;
                default:
                    if (i % 3 == 0) {
                        e = hash_table_pop(t, k);
                        if (e)
                            destroy_hash_element(e);
                    } else {
                        e = hash_table_get(t, k);
                        if (e && i % 3 == 1)
                            hash_table_remove(t, e);
                    }
                    CONSTANT("hash_table_size", i, hash_table_size(t));
                    CONSTANT("hash_table_empty", i, hash_table_empty(t));
            }
        }
        judge(phases[phase], top, work - before, 4 * STEP * (top + 20));
        EV("work.average");
        if (phase == 3)
            LINEAR("a traversal of a table", 2 * top + 20, ({
                for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e))
                    ;
            }));
    }
    LINEAR("destroy_hash_table", 2 * top + 20, destroy_hash_table(t));
}

// ------------------------------------------------------------ C35: queues
std::map<const void *, void *> *locs;
void keep_loc(const void *e, void *loc) { (*locs)[e] = loc; }
void queue_work(Gen &g, u64 top, Sweep *s)
{
    std::map<const void *, void *> where;
    locs = &where;
    bool reloc = top <= 30000 && g.chance(1, 2);
    priorq_t *q = CONSTANT("make_priority_queue", 0, make_priority_queue(cmp_ptr, reloc ? keep_loc : nullptr));
    unsigned order = g.below(3);
    uintptr_t seq = 0;
    u64 ops = 3 * top;
    for (u64 i = 0; i < ops; i++) {
        if (s && i % 65536 == 0)
            s->tick();
        u64 n = priorq_size(q);
        if (g.below(100) < (i < ops * 2 / 3 ? 60 : 30)) {
            seq++;
            void *v = (void *) (order == 0 ? seq : order == 1 ? ~seq : (uintptr_t) mix64(seq));
            LOGARITHMIC("priorq_enqueue", n, priorq_enqueue(q, v));
            continue;
        }
        const void *v = nullptr;
        switch (g.below(6)) {
            case 0: CONSTANT("priorq_size", n, priorq_size(q)); break;
            case 1: CONSTANT("priorq_empty", n, priorq_empty(q)); break;
            case 2: CONSTANT("priorq_peek", n, priorq_peek(q)); break;
            case 3: v = LOGARITHMIC("priorq_dequeue", n, priorq_dequeue(q)); break;
            case 4: v = LOGARITHMIC("priorq_pop", n, priorq_pop(q)); break;
            default:
                if (reloc && !where.empty()) {
                    auto it = where.lower_bound((void *) (uintptr_t) g.prng());
                    if (it == where.end())
                        it = where.begin();
                    void *loc = it->second;
                    v = LOGARITHMIC("priorq_remove", n, priorq_remove(q, loc));
                }
        }
        if (reloc && v)
            where.erase(v);
    }
    LINEAR("destroy_priority_queue", priorq_size(q), destroy_priority_queue(q));
    locs = nullptr;
}

// ------------------------------------------------------------ C35: sets
void set_work(Gen &g, u64 top, Sweep *s)
{
    intset_t *t = LINEAR("make_intset", top, make_intset(top));
    if (g.chance(1, 2))
        LINEAR("intset_fill", top, intset_fill(t));
    unsigned density = g.below(101);
    for (u64 i = 0; i < 20000; i++) {
        if (s && i % 65536 == 0)
            s->tick();
        unsigned e = g.below(top + 10);
        if (g.below(100) < density)
            CONSTANT("intset_add", top, intset_add(t, e));
        else
            CONSTANT("intset_remove", top, intset_remove(t, e));
        CONSTANT("intset_has", top, intset_has(t, e));
        if (i % 16)
            continue;
        bool hit = g.chance(1, 2);
        Limit l("intset_find_next_hit/miss", top, ~(u64) 0 >> 1);
        int r = hit ? intset_find_next_hit(t, e) : intset_find_next_miss(t, e);
        u64 steps = l.steps(), far = r < 0 ? (e < top ? top - e : 0) : r - e;
        judge("intset_find_next_hit/miss", far, steps, 2 * STEP + 40 * far);
        EV("work.search");
    }
    CONSTANT("destroy_intset", top, destroy_intset(t));
}

// ------------------------------------------------------------ C35: arrays
struct Reader {
    size_t most;
};
ssize_t reader(void *obj, void *buf, size_t count)
{
    size_t n = std::min(count, ((Reader *) obj)->most);
    memset(buf, 'r', n);
    return n;
}
#define PER_BYTES(what, n, bytes, expr)                           \
    ({                                                            \
        Limit l_(what, n, 4 * STEP + 4 * (u64) (bytes));          \
        EV("work.bytes");                                         \
        expr;                                                     \
    })
void array_work(Gen &g, u64 top, Sweep *s)
{
    size_t max = g.chance(1, 2) ? SIZE_MAX : top + 1 + g.below(top);
    byte_array_t *a = CONSTANT("make_byte_array", 0, make_byte_array(max));
    std::string block(5000, 'b');
    u64 ops = 0;
    size_t step = 1 + top / (opt.quick() ? 5000 : 20000);
    while (byte_array_size(a) < top && ops++ < 100000) {
        if (s && ops % 8192 == 0)
            s->tick();
        size_t n = byte_array_size(a), k = g.below(std::min<size_t>(2 * step, 4999) + 1);
        std::string text = block.substr(0, k);
        switch (g.below(10)) {
            case 0: PER_BYTES("byte_array_append", n, k, byte_array_append(a, block.data(), k)); break;
            case 1: PER_BYTES("byte_array_append_string", n, k, byte_array_append_string(a, text.c_str())); break;
            case 2: {
                Reader r{k};
                PER_BYTES("byte_array_append_stream", n, k, byte_array_append_stream(a, reader, &r, g.chance(1, 2) ? k : 5000));
                break;
            }
            case 3: PER_BYTES("byte_array_resize", n, k, byte_array_resize(a, n + k, 'z')); break;
            case 4: PER_BYTES("byte_array_copy", n, k, byte_array_copy(a, g.below(n + 1), block.data(), k)); break;
            case 5: PER_BYTES("byte_array_copy_string", n, k, byte_array_copy_string(a, g.below(n + 1), text.c_str())); break;
            case 6: CONSTANT("byte_array_size", n, byte_array_size(a)); break;
            case 7: CONSTANT("byte_array_data", n, byte_array_data(a)); break;
            case 8: {
                size_t back = g.below(std::min<size_t>(n, step / 2) + 1);
                PER_BYTES("byte_array_resize", n, back, byte_array_resize(a, n - back, 'z'));
                break;
            }
            default: {
                byte_array_t *b = CONSTANT("share_byte_array", n, share_byte_array(a));
                CONSTANT("destroy_byte_array", n, destroy_byte_array(b));
            }
        }
    }
    size_t n = byte_array_size(a);
    PER_BYTES("byte_array_clear", n, n, byte_array_clear(a));
    PER_BYTES("destroy_byte_array", n, n, destroy_byte_array(a));
}

void containers(Gen &g, unsigned kind, u64 top, Sweep *s)
{
    switch (kind) {
        case 0: list_work(g, top, s); break;
        case 1: tree_work(g, top, s); break;
        case 2: table_work(g, top, s); break;
        case 3: queue_work(g, top, s); break;
        case 4: set_work(g, top * 8, s); break;
        default: array_work(g, top * 8, s);
    }
}
const char *const kinds[] = {"list", "tree", "table", "priority queue", "integer set", "byte array"};
void container_case(Case &c)
{
    Gen &g = c.g;
    u64 top = 2 + ((u64) 1 << g.below(14));
    top += g.below(top);
    unsigned kind = g.below(6);
    c.mix(kind);
    c.mix(top);
    c.mix(g.prng());
    c.nontrivial = top > 64;
    containers(g, kind, top, nullptr);
    c.text = fmtstr("a %s of up to %llu elements, every operation's steps counted", kinds[kind],
                    (unsigned long long) (kind < 4 ? top : top * 8));
}
void containers_big(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned j = 0; j < 24; j++) {
        if (!s.mine(j))
            continue;
        Gen g(mix64(j * 331 + opt.seed));
        u64 top = (u64) 1 << (opt.quick() ? 17 : 20);
        top += g.below(top);
        containers(g, j % 6, top, &s);
        EV("work.big");
        s.evals += top;
        s.distinct++;
        s.sample(fmtstr("a %s of %llu elements", kinds[j % 6], (unsigned long long) top));
    }
}

// ------------------------------------------------------------ texts
const char *const units[] = {
    "a", "Z", ",", " ", "\t", "-", "%41", "+", ".", "ab,", "a b", "/?&=", "0", "\xc3\xa9", "\xe1\x84\x80\xe1\x85\xa1\xe1\x86\xa8",
    "\xea\xb0\x80", "e\xcc\x81", "a\xcc\x81\xcc\xa3", "\xcc\x81", "\xf0\x9f\x98\x80", "\xff", "\xe2\x82", "\xc2\xad", "\xe2\x80\x8b", "\xc3\x9f", "QUJD", "QQ==",
    "aab", "xn--", "a.", "\xe6\xbc\xa2", "\xed\xa0\x80", "\x80", "%", "%4", "A\xcc\x8a", "\xcd\x84", "\xe0\xa5\x98", "\xf0\x9d\x85\x9f"};
struct Text {
    std::string s;
    std::string what;
    std::string other; // equal up to case, with a difference at the end
    std::string delim;
    char sep;
    bool mixed_marks = false;
};
bool is_mark(const char *u)
{
    return !strcmp(u, "\xcc\x81") || !strcmp(u, "a\xcc\x81\xcc\xa3") || !strcmp(u, "\xcd\x84");
}
// the same kind of text for all sizes
struct Kind {
    std::vector<std::string> parts; // repeated
    std::string sep_str;
    char sep;
    std::string head, tail;
    std::string what() const
    {
        std::string r;
        for (auto &p : parts)
            r += p;
        return r.size() > 40 ? hexdump(r.data(), r.size(), 40) : hexdump(r.data(), r.size());
    }
};
Kind make_kind(Gen &g)
{
    Kind k;
    unsigned n = g.chance(1, 2) ? 1 : 1 + g.below(6);
    unsigned marks = 0;
    for (unsigned i = 0; i < n; i++) {
        const char *u = units[g.below(sizeof units / sizeof *units)];
        unsigned rep = g.chance(2, 3) ? 1 : 1 + g.below(20);
        for (unsigned j = 0; j < rep; j++) {
            k.parts.push_back(u);
            if (is_mark(u) && ++marks % 8 == 0)
                k.parts.push_back("o");
        }
    }
    // no endless run of marks: their sorting is documented as slow
    bool starter = false;
    for (auto &p : k.parts)
        starter |= !is_mark(p.c_str()) || p[0] == 'a';
    if (!starter)
        k.parts.push_back("o");
    static const char *const seps[] = {",", " ", "a", "ab", "aa", "aab", ".", "%", "\xc3\xa9", "zzz", "a,"};
    k.sep_str = seps[g.below(11)];
    k.sep = k.sep_str[0];
    if (g.chance(1, 8))
        k.head = "\xc3\xa9";
    if (g.chance(1, 4))
        k.tail = units[g.below(sizeof units / sizeof *units)];
    return k;
}
Text make_text(const Kind &k, size_t n)
{
    Text t;
    t.sep = k.sep;
    t.delim = k.sep_str;
    t.s = k.head;
    std::string period;
    for (auto &p : k.parts)
        period += p;
    while (t.s.size() < n)
        t.s += period;
    t.s += k.tail;
    t.other = t.s;
    for (size_t i = 0; i < t.other.size(); i += 3)
        if (t.other[i] >= 'a' && t.other[i] <= 'z')
            t.other[i] -= 32;
    t.what = k.what();
    return t;
}

// what a function works on
struct Bench {
    const Text &t;
    std::string z, z2;      // writable copies
    std::string b64;
    std::vector<char> out, out2;
    std::vector<char *> pieces;
    list_t *l = nullptr;
    char *r = nullptr;
    charstr_url_encoder_t *enc = nullptr;
    size_t n;
    explicit Bench(const Text &t_) : t(t_), z(t_.s), z2(t_.other), n(t_.s.size()) {}
};
struct Fn {
    const char *name;
    unsigned flags;
    void (*prep)(Bench &);
    void (*run)(Bench &);
};
enum { FIXED = 1 }; // work does not depend on the length at all
void no_prep(Bench &) {}
void need_out(Bench &b)
{
    b.out.resize(4 * b.n + 64);
}
void need_b64(Bench &b)
{
    char *p = base64_encode_simple(b.z.data(), b.n);
    b.b64 = p;
    fsfree(p);
    need_out(b);
}
void need_nfd(Bench &b)
{
    // recomposition wants decomposed input
    need_out(b);
    b.out2.resize(4 * b.n + 64);
    char *q = charstr_unicode_decompose(b.z.c_str(), nullptr, b.out2.data(), b.out2.data() + b.out2.size());
    if (!q)
        memcpy(b.out2.data(), b.z.c_str(), b.n + 1);
}
void need_pieces(Bench &b)
{
    b.pieces.assign(b.n + 2, nullptr);
}
void need_encoder(Bench &b)
{
    b.enc = charstr_create_url_encoder("abc", "%/? ");
}
void free_list(Bench &b)
{
    if (!b.l)
        return;
    list_foreach(b.l, (void (*)(const void *, void *)) (void *) fsfree, nullptr);
    destroy_list(b.l);
    b.l = nullptr;
}
u64 sink;
size_t few; // how much a function is to look at
const Fn functions[] = {
    {"charstr_case_cmp", 0, no_prep, [](Bench &b) { sink += charstr_case_cmp(b.z.c_str(), b.z2.c_str()); }},
    {"charstr_ncase_cmp", 0, no_prep, [](Bench &b) { sink += charstr_ncase_cmp(b.z.c_str(), b.z2.c_str(), SIZE_MAX); }},
    {"charstr_ncase_cmp of a few bytes", FIXED, no_prep, [](Bench &b) { sink += charstr_ncase_cmp(b.z.c_str(), b.z2.c_str(), few); }},
    {"charstr_skip_prefix", 0, no_prep, [](Bench &b) { sink += charstr_skip_prefix(b.z.c_str(), b.t.s.c_str()) != nullptr; }},
    {"charstr_skip_prefix of a short one", FIXED, no_prep, [](Bench &b) { sink += charstr_skip_prefix(b.z.c_str(), "ab") != nullptr; }},
    {"charstr_skip_prefix of a long one", 0, no_prep, [](Bench &b) { sink += charstr_skip_prefix("ab", b.z.c_str()) != nullptr; }},
    {"charstr_case_skip_prefix", 0, no_prep, [](Bench &b) { sink += charstr_case_skip_prefix(b.z.c_str(), b.z2.c_str()) != nullptr; }},
    {"charstr_case_skip_prefix of a short one", FIXED, no_prep, [](Bench &b) { sink += charstr_case_skip_prefix(b.z.c_str(), "AB") != nullptr; }},
    {"charstr_case_starts_with", FIXED, no_prep, [](Bench &b) { sink += charstr_case_starts_with(b.z.c_str(), "ab") != nullptr; }},
    {"charstr_ncase_starts_with", FIXED, no_prep, [](Bench &b) { sink += charstr_ncase_starts_with(b.z.c_str(), "ab") != nullptr; }},
    {"charstr_ends_with", 0, no_prep, [](Bench &b) { sink += charstr_ends_with(b.z.c_str(), b.t.s.c_str() + b.n / 2); }},
    {"charstr_dupstr", 0, no_prep, [](Bench &b) { b.r = charstr_dupstr(b.z.c_str()); }},
    {"charstr_dupsubstr", 0, no_prep, [](Bench &b) { b.r = charstr_dupsubstr(b.z.c_str(), b.z.c_str() + b.n); }},
    {"charstr_dupsubstr of a few bytes", FIXED, no_prep, [](Bench &b) { b.r = charstr_dupsubstr(b.z.c_str(), b.z.c_str() + few); }},
    {"charstr_lcase_str", 0, no_prep, [](Bench &b) { charstr_lcase_str(&b.z[0]); }},
    {"charstr_lcase_substr", 0, no_prep, [](Bench &b) { charstr_lcase_substr(&b.z[0], b.z.data() + b.n); }},
    {"charstr_lcase_substr of a few bytes", FIXED, no_prep, [](Bench &b) { charstr_lcase_substr(&b.z[0], b.z.data() + few); }},
    {"charstr_ucase_str", 0, no_prep, [](Bench &b) { charstr_ucase_str(&b.z[0]); }},
    {"charstr_ucase_substr", 0, no_prep, [](Bench &b) { charstr_ucase_substr(&b.z[0], b.z.data() + b.n); }},
    {"charstr_ucase_substr of a few bytes", FIXED, no_prep, [](Bench &b) { charstr_ucase_substr(&b.z[0], b.z.data() + few); }},
    {"charstr_split", 0, no_prep, [](Bench &b) { b.l = charstr_split(b.z.c_str(), b.t.sep, -1); free_list(b); }},
    {"charstr_split once", 0, no_prep, [](Bench &b) { b.l = charstr_split(b.z.c_str(), b.t.sep, 1); free_list(b); }},
    {"charstr_split_into_array", 0, need_pieces, [](Bench &b) { charstr_split_into_array(b.z.c_str(), b.t.sep, b.pieces.data(), b.n + 1); }},
    {"charstr_split_atoms", 0, no_prep, [](Bench &b) { b.l = charstr_split_atoms(b.z.c_str()); free_list(b); }},
    {"charstr_split_str", 0, no_prep, [](Bench &b) { b.l = charstr_split_str(b.z.c_str(), b.t.delim.c_str(), -1); free_list(b); }},
    {"charstr_strip", 0, no_prep, [](Bench &b) { b.r = charstr_strip(b.z.c_str()); }},
    {"charstr_decode_utf8_codepoint", FIXED, no_prep, [](Bench &b) { int cp; sink += charstr_decode_utf8_codepoint(b.z.c_str(), nullptr, &cp) != nullptr; }},
    {"charstr_decode_utf8_codepoint, bounded", FIXED, no_prep, [](Bench &b) { int cp; sink += charstr_decode_utf8_codepoint(b.z.c_str(), b.z.c_str() + b.n, &cp) != nullptr; }},
    {"charstr_valid_utf8", 0, no_prep, [](Bench &b) { sink += charstr_valid_utf8(b.z.c_str()); }},
    {"charstr_valid_utf8_bounded", 0, no_prep, [](Bench &b) { sink += charstr_valid_utf8_bounded(b.z.c_str(), b.z.c_str() + b.n); }},
    {"charstr_valid_utf8_bounded of a few bytes", FIXED, no_prep, [](Bench &b) { sink += charstr_valid_utf8_bounded(b.z.c_str(), b.z.c_str() + few); }},
    {"charstr_sanitize_utf8", 0, no_prep, [](Bench &b) { b.r = charstr_sanitize_utf8(b.z.c_str()); }},
    {"charstr_detect_unicode_normal_form", 0, no_prep, [](Bench &b) { sink += charstr_detect_unicode_normal_form(b.z.c_str(), nullptr, UNICODE_NFKC_DISALLOWED, UNICODE_NFKC_MAYBE); }},
    {"charstr_detect_unicode_normal_form of a few bytes", FIXED, no_prep, [](Bench &b) { sink += charstr_detect_unicode_normal_form(b.z.c_str(), b.z.c_str() + few, UNICODE_NFKD_DISALLOWED, UNICODE_NFKD_MAYBE); }},
    {"charstr_unicode_canonically_composed", 0, no_prep, [](Bench &b) { sink += charstr_unicode_canonically_composed(b.z.c_str(), nullptr); }},
    {"charstr_unicode_canonically_decomposed", 0, no_prep, [](Bench &b) { sink += charstr_unicode_canonically_decomposed(b.z.c_str(), b.z.c_str() + b.n); }},
    {"charstr_unicode_decompose", 0, need_out, [](Bench &b) { sink += charstr_unicode_decompose(b.z.c_str(), nullptr, b.out.data(), b.out.data() + b.out.size()) != nullptr; }},
    {"charstr_unicode_decompose of a few bytes", FIXED, need_out, [](Bench &b) { sink += charstr_unicode_decompose(b.z.c_str(), b.z.c_str() + few, b.out.data(), b.out.data() + b.out.size()) != nullptr; }},
    {"charstr_unicode_recompose", 0, need_nfd, [](Bench &b) { sink += charstr_unicode_recompose(b.out2.data(), nullptr, b.out.data(), b.out.data() + b.out.size()) != nullptr; }},
    {"charstr_unicode_recompose of a few bytes", FIXED, need_nfd, [](Bench &b) { sink += charstr_unicode_recompose(b.out2.data(), b.out2.data() + few, b.out.data(), b.out.data() + b.out.size()) != nullptr; }},
    {"charstr_url_encode", 0, no_prep, [](Bench &b) { b.r = charstr_url_encode(b.z.c_str()); }},
    {"charstr_url_custom_encode", 0, need_encoder, [](Bench &b) { b.r = charstr_url_custom_encode(b.enc, b.z.c_str()); }},
    {"charstr_create_url_encoder", 0, no_prep, [](Bench &b) { b.enc = charstr_create_url_encoder(b.z.c_str(), b.z2.c_str()); }},
    {"charstr_url_decode", 0, no_prep, [](Bench &b) { b.r = charstr_url_decode(b.z.c_str(), true, nullptr); }},
    {"charstr_printf", 0, no_prep, [](Bench &b) { b.r = charstr_printf("<%s|%s>", b.z.c_str(), b.z2.c_str()); }},
    {"charstr_idna_encode", 0, no_prep, [](Bench &b) { b.r = charstr_idna_encode(b.z.c_str()); }},
    {"base64_encode_simple", 0, no_prep, [](Bench &b) { b.r = base64_encode_simple(b.z.data(), b.n); }},
    {"base64_encode_buffer", 0, need_out, [](Bench &b) { sink += base64_encode_buffer(b.z.data(), b.n, b.out.data(), b.out.size(), -1, -1); }},
    {"base64_decode_simple", 0, need_b64, [](Bench &b) { size_t k; b.r = (char *) base64_decode_simple(b.b64.c_str(), &k); }},
    {"base64_decode_simple of anything", 0, no_prep, [](Bench &b) { size_t k; b.r = (char *) base64_decode_simple(b.z.c_str(), &k); }},
    {"base64_decode_buffer", 0, need_b64, [](Bench &b) { sink += base64_decode_buffer(b.b64.data(), b.b64.size(), b.out.data(), b.out.size(), -1, -1, true); }},
    {"hash_string", 0, no_prep, [](Bench &b) { sink += hash_string(b.z.c_str()); }},
    {"hash_blob", 0, no_prep, [](Bench &b) { sink += hash_blob(b.z.data(), b.n); }},
    {"hash_blob of a few bytes", FIXED, no_prep, [](Bench &b) { sink += hash_blob(b.z.data(), few); }},
};
enum { NFN = sizeof functions / sizeof *functions };
void finish(Bench &b)
{
    free_list(b);
    fsfree(b.r);
    for (char *p : b.pieces)
        if (p)
            fsfree(p);
    if (b.enc)
        charstr_destroy_url_encoder(b.enc);
}
bool idna(const Fn &f) { return !strcmp(f.name, "charstr_idna_encode"); }
u64 measured(const Fn &f, const Text &t, u64 limit)
{
    Bench b(t);
    f.prep(b);
    u64 steps;
    {
        std::string what = std::string(f.name) + " on repetitions of " + t.what;
        Limit l(what.c_str(), b.n, limit);
        f.run(b);
        steps = l.steps();
    }
    finish(b);
    return steps;
}
void text_work(Gen &g, const Fn &f, size_t n, std::string *text)
{
    Kind k = make_kind(g);
    // a hostname may be as long as names get, and takes its time
    u64 base = idna(f) ? 60000000 : 2000;
    u64 small, large;
    size_t n2 = n * 16;
    few = std::min<size_t>(n, g.chance(1, 2) ? g.below(20) : g.below(600));
    {
        Text t = make_text(k, n);
        small = measured(f, t, base + 4000 * (u64) (f.flags & FIXED ? few + 100 : t.s.size()));
    }
    {
        Text t = make_text(k, n2);
        // another way for long texts is all right, if it is no more than
        // four times as slow
        double ratio = (double) t.s.size() / n;
        large = measured(f, t, base + (f.flags & FIXED ? 4 * small : (u64) (4 * ratio * small) + 16 * t.s.size()));
        n2 = t.s.size();
    }
    if (f.flags & FIXED)
        EV("text.fixed");
    else if (large > 4 * small)
        EV("text.grown");
    else
        EV("text.short"); // ended early
    if (text)
        *text = fmtstr("%s: %llu steps for %zu bytes, %llu for %zu (repetitions of %s)", f.name, (unsigned long long) small, n,
                       (unsigned long long) large, n2, k.what().c_str());
}
void text_case(Case &c)
{
    Gen &g = c.g;
    unsigned i = g.below(NFN);
    size_t n = 256 << g.below(6);
    c.mix(i);
    c.mix(n);
    c.mix(g.prng());
    c.nontrivial = true;
    text_work(g, functions[i], n, &c.text);
}
void text_all(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned i = 0; i < NFN; i++) {
        if (!s.mine(i))
            continue;
        for (unsigned r = 0; r < 40; r++) {
            Gen g(mix64(i * 8191 + r * 31 + opt.seed));
            std::string text;
            text_work(g, functions[i], r % 4 ? 4096 : 16384, &text);
            s.tick();
            s.evals++;
            s.distinct++;
            if (r == 0)
                s.sample(text);
        }
        EV("text.function");
    }
}

// ------------------------------------------------------------ C37: stack
enum { STACK = 16 << 20, GUARD = 1 << 30, ALLOWED = 256 << 10 };
char *stack_base; // lowest usable address
ucontext_t here, there;
const std::function<void()> *to_run;
void on_stack()
{
    (*to_run)();
}
size_t stack_of(const std::function<void()> &f)
{
    if (!stack_base) {
        char *p = (char *) mmap(nullptr, (size_t) STACK + GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED || mprotect(p + GUARD, STACK, PROT_READ | PROT_WRITE))
            _exit(12);
        stack_base = p + GUARD;
    }
    madvise(stack_base, STACK, MADV_DONTNEED); // all zero again
    to_run = &f;
    getcontext(&there);
    there.uc_stack.ss_sp = stack_base;
    there.uc_stack.ss_size = STACK;
    there.uc_link = &here;
    makecontext(&there, on_stack, 0);
    swapcontext(&here, &there);
    const u64 *w = (const u64 *) stack_base, *e = (const u64 *) (stack_base + STACK);
    while (w != e && !*w)
        w++;
    return (char *) e - (char *) w;
}
void shallow(const char *what, u64 n, const std::function<void()> &f)
{
    size_t used = stack_of(f);
    EV("stack.judged");
    if (n >= 1 << 20)
        EV("stack.large");
    CHECK(used <= ALLOWED, "stack:depth", "%s (size %llu) used %zu bytes of stack", what, (unsigned long long) n, used);
}
void deep_text(Gen &g, const Fn &f, size_t n, std::string *text)
{
    Kind k = make_kind(g);
    if (g.chance(1, 3)) // a run of marks however long is no matter here
        k.parts.assign(1, "\xcc\x81");
    Text t = make_text(k, n);
    Bench b(t);
    f.prep(b);
    shallow(f.name, b.n, [&] { f.run(b); });
    finish(b);
    if (text)
        *text = fmtstr("the stack of %s on %zu bytes, repetitions of %s", f.name, b.n, t.what.c_str());
}
void deep_containers(Gen &g, unsigned kind, u64 n)
{
    switch (kind) {
        case 0: {
            list_t *l, *c;
            shallow("filling a list", n, [&] {
                l = make_list();
                for (u64 i = 0; i < n; i++)
                    list_append(l, &n);
            });
            u64 seen = 0;
            shallow("list_foreach", n, [&] { list_foreach(l, count_value, &seen); });
            shallow("list_copy", n, [&] { c = list_copy(l); });
            shallow("list_get", n, [&] { list_get(l, &g); });
            shallow("list_get_by_index", n, [&] { list_get_by_index(l, n - 1); });
            shallow("destroy_list", n, [&] { destroy_list(l); });
            shallow("emptying a list", n, [&] {
                while (!list_empty(c))
                    list_pop_last(c);
                destroy_list(c);
            });
            break;
        }
        case 1: {
            avl_tree_t *t, *c;
            unsigned order = g.below(3);
            shallow("filling a tree", n, [&] {
                t = make_avl_tree(cmp_ptr);
                for (u64 i = 0; i < n; i++) {
                    avl_elem_t *e = avl_tree_put(t, (void *) (uintptr_t) (order == 0 ? i : order == 1 ? ~i : mix64(i)), nullptr);
                    if (e)
                        destroy_avl_element(e);
                }
            });
            shallow("avl_tree_copy", n, [&] { c = avl_tree_copy(t); });
            shallow("traversing a tree", n, [&] {
                for (avl_elem_t *e = avl_tree_get_first(t); e; e = avl_tree_next(e))
                    ;
            });
            shallow("destroy_avl_tree", n, [&] { destroy_avl_tree(t); });
            shallow("emptying a tree", n, [&] {
                while (avl_elem_t *e = order & 1 ? avl_tree_pop_first(c) : avl_tree_pop_last(c))
                    destroy_avl_element(e);
                destroy_avl_tree(c);
            });
            break;
        }
        case 2: {
            hash_table_t *t;
            size_t hint = g.chance(1, 3) ? 1 + n / 64 : n;
            shallow("filling a table", n, [&] {
                t = make_hash_table(hint, hash_ptr, cmp_ptr);
                for (u64 i = 1; i <= n; i++)
                    hash_table_put(t, (void *) (uintptr_t) i, &n);
            });
            shallow("traversing a table", n, [&] {
                for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e))
                    ;
            });
            shallow("destroy_hash_table", n, [&] { destroy_hash_table(t); });
            // a chain of thousands
            u64 m = std::min<u64>(n, 1500);
            shallow("a table of one chain", m, [&] {
                t = make_hash_table(1, [](const void *) { return (uint64_t) 7; }, cmp_ptr);
                for (u64 i = 1; i <= m; i++)
                    hash_table_put(t, (void *) (uintptr_t) i, &n);
                hash_table_get(t, (void *) (uintptr_t) (m + 1));
                destroy_hash_table(t);
            });
            // a sparse one
            shallow("hash_table_get_any in a sparse table", n, [&] {
                t = make_hash_table(n, [](const void *p) { return (uint64_t) (uintptr_t) p; }, cmp_ptr);
                hash_table_put(t, (void *) (uintptr_t) n, &n);
                hash_table_get_any(t);
                destroy_hash_element(hash_table_pop(t, (void *) (uintptr_t) n));
                destroy_hash_table(t);
            });
            break;
        }
        case 3: {
            priorq_t *q;
            unsigned order = g.below(3);
            shallow("filling a queue", n, [&] {
                q = make_priority_queue(cmp_ptr, nullptr);
                for (u64 i = 1; i <= n; i++)
                    priorq_enqueue(q, (void *) (uintptr_t) (order == 0 ? i : order == 1 ? ~i : mix64(i)));
            });
            shallow("emptying a queue", n, [&] {
                for (u64 i = 0; i < n / 2; i++)
                    priorq_dequeue(q);
            });
            shallow("destroy_priority_queue", n, [&] { destroy_priority_queue(q); });
            break;
        }
        case 4: {
            intset_t *t;
            shallow("an integer set", n, [&] {
                t = make_intset(8 * n);
                intset_find_next_hit(t, 0);
                intset_fill(t);
                intset_find_next_miss(t, 0);
                destroy_intset(t);
            });
            break;
        }
        default: {
            byte_array_t *a;
            std::string block(8 * n, 'x');
            shallow("filling a byte array at once", 8 * n, [&] {
                a = make_byte_array(SIZE_MAX);
                byte_array_append(a, block.data(), block.size());
                byte_array_append_string(a, block.c_str());
                byte_array_append(a, byte_array_data(a), byte_array_size(a));
            });
            shallow("byte_array_copy", 8 * n, [&] {
                byte_array_copy(a, 1, block.data(), block.size());
                byte_array_copy_string(a, 3, block.c_str());
                byte_array_copy(a, 5, byte_array_data(a), byte_array_size(a));
            });
            shallow("byte_array_resize", 8 * n, [&] {
                byte_array_resize(a, 60 * n, 'y');
                byte_array_resize(a, 3, 'y');
                byte_array_clear(a);
            });
            Reader r{SIZE_MAX};
            shallow("byte_array_append_stream", 8 * n, [&] { byte_array_append_stream(a, reader, &r, 8 * n); });
            shallow("destroy_byte_array", 8 * n, [&] { destroy_byte_array(a); });
        }
    }
}
void stack_case(Case &c)
{
    Gen &g = c.g;
    size_t n = (size_t) 1024 << g.below(9);
    n += g.below(n);
    unsigned i = g.below(NFN + 6);
    c.mix(i);
    c.mix(n);
    c.mix(g.prng());
    c.nontrivial = true;
    if (i < NFN) {
        // runs of marks are sorted one by one
        bool slow = strstr(functions[i].name, "compose") || idna(functions[i]);
        deep_text(g, functions[i], slow ? std::min<size_t>(n, 20000) : n, &c.text);
    } else {
        deep_containers(g, i - NFN, n / 8);
        c.text = fmtstr("the stack of operations on a %s of %zu elements", kinds[i - NFN], n / 8);
    }
}
void stack_all(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned i = 0; i < NFN + 6; i++) {
        if (!s.mine(i))
            continue;
        for (unsigned r = 0; r < (opt.quick() ? 4 : 30); r++) {
            Gen g(mix64(i * 8191 + r * 31 + opt.seed));
            std::string text;
            if (i < NFN) {
                Kind k = make_kind(g);
                Text t = make_text(k, 2 << 20);
                Bench b(t);
                functions[i].prep(b);
                shallow(functions[i].name, b.n, [&] { functions[i].run(b); });
                finish(b);
                text = fmtstr("the stack of %s on %zu bytes, repetitions of %s", functions[i].name, b.n, t.what.c_str());
            } else {
                deep_containers(g, i - NFN, opt.quick() ? 200000 : 1000000);
                text = fmtstr("the stack of operations on a large %s", kinds[i - NFN]);
            }
            s.tick();
            s.evals++;
            s.distinct++;
            if (r == 0)
                s.sample(text);
        }
    }
    // long runs of marks
    for (size_t n : {300, 3000, 6000}) {
        if (!s.mine(n / 300))
            continue;
        std::string t = "a";
        for (size_t i = 0; i < n; i++)
            t += i % 2 ? "\xcc\xa3" : "\xcc\x81";
        std::vector<char> out(4 * t.size());
        shallow("charstr_unicode_decompose of a run of marks", n, [&] {
            charstr_unicode_decompose(t.c_str(), nullptr, out.data(), out.data() + out.size());
        });
        s.tick();
        s.evals++;
        s.distinct++;
        EV("stack.marks");
    }
}
REG_CASES("C35", work_containers, container_case, 1200, 0, 20, 0);
REG_SWEEP("C35", work_containers_big, containers_big, 1, 0, 0);
REG_CASES("C36", work_texts, text_case, 12000, 0, 20, 0);
REG_SWEEP("C36", work_texts_all, text_all, 1, 0, 0);
REG_CASES("C37", stack_cases, stack_case, 2000, 0, 20, 0);
REG_SWEEP("C37", stack_all_functions, stack_all, 1, 0, 0);
} // namespace
