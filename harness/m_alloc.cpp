// C26: the allocation gateway under recording, failing and changing
// reallocators, and the default one.
#include "core.h"
#include <fsdyn/avltree.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/list.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
// as the library starts, before the harness installs anything
const fs_realloc_t default_realloc = fs_get_reallocator();
const fs_reallocator_counter_t default_counter = fs_get_reallocator_counter();

struct Call {
    int who;
    void *ptr;
    size_t size;
    void *ret;
};
std::vector<Call> calls;
std::map<void *, size_t> live;
bool fail_next;
u8 garbage = 1;
size_t big_limit = (size_t) 1 << 30;
enum { PAD = 32 };
void *block_new(size_t n)
{
    char *p = (char *) malloc(n + 2 * PAD);
    memset(p, 0xe1, n + 2 * PAD);
    memset(p + PAD, garbage ? garbage : 0x77, n);
    garbage += 37;
    live[p + PAD] = n;
    return p + PAD;
}
void block_end(void *q)
{
    auto it = live.find(q);
    if (it == live.end())
        violate_now("alloc:foreign", "a block that is not live was passed to the reallocator");
    u8 *p = (u8 *) q - PAD;
    size_t n = it->second;
    for (int i = 0; i < PAD; i++)
        if (p[i] != 0xe1 || p[PAD + n + i] != 0xe1)
            violate_now("alloc:overrun", "memory around a block of %zu bytes was overwritten", n);
    live.erase(it);
    free(p);
}
void *serve(void *ptr, size_t size)
{
    if (fail_next && size) {
        fail_next = false;
        return nullptr;
    }
    if (size > big_limit)
        return nullptr;
    if (!size) {
        if (ptr)
            block_end(ptr);
        return nullptr;
    }
    void *q = block_new(size);
    if (ptr) {
        auto it = live.find(ptr);
        if (it == live.end())
            violate_now("alloc:foreign", "a block that is not live was passed to the reallocator");
        memcpy(q, ptr, it->second < size ? it->second : size);
        block_end(ptr);
    }
    return q;
}
template <int K> void *recorder(void *ptr, size_t size)
{
    calls.push_back({K, ptr, size, nullptr});
    size_t at = calls.size() - 1;
    void *r = serve(ptr, size);
    calls[at].ret = r;
    return r;
}
const fs_realloc_t R[4] = {recorder<0>, recorder<1>, recorder<2>, recorder<3>};
struct Count {
    int who, arg;
};
std::vector<Count> counts;
template <int K> void counter(int n) { counts.push_back({K, n}); }
const fs_reallocator_counter_t C[3] = {counter<0>, counter<1>, counter<2>};

size_t rnd_size(Gen &g)
{
    switch (g.below(8)) {
        case 0: return 0;
        case 1: return g.size(100000);
        case 2: return g.chance(1, 3) ? g.size(3000000) : 1;
        default: return g.below(300);
    }
}
std::string say(const std::vector<Call> &v)
{
    std::string s;
    for (auto &c : v)
        s += fmtstr(" reallocator %d(%p, %zu)", c.who, c.ptr, c.size);
    return s.empty() ? " no call" : s;
}
void gateway_case(Case &c)
{
    Gen &g = c.g;
    std::vector<std::pair<void *, std::string>> mine; // live, and what they hold
    int r = g.below(4), k = g.below(3);
    fs_set_reallocator(R[r]);
    fs_set_reallocator_counter(C[k]);
    int n = 5 + g.below(60);
    for (int i = 0; i < n; i++) {
        calls.clear();
        counts.clear();
        fail_next = false;
        int op = g.below(12);
        c.mix(op);
        c.evals++;
        auto one = [&](const char *what, void *ptr, size_t size) {
            CHECK(calls.size() == 1 && calls[0].who == r && calls[0].ptr == ptr && calls[0].size == size, "alloc:call",
                  "%s made%s instead of one call of reallocator %d(%p, %zu)", what, say(calls).c_str(), r, ptr, size);
            CHECK(counts.empty(), "alloc:counter", "%s called the counter", what);
        };
        auto keep = [&](void *p, size_t size) {
            if (!p)
                return;
            std::string s(size, 0);
            u8 x = g.raw();
            for (size_t j = 0; j < size; j++)
                s[j] = (char) (x += 13);
            memcpy(p, s.data(), size);
            mine.push_back({p, s});
        };
        switch (op) {
            case 0: { // replace the reallocator
                r = g.below(4);
                fs_set_reallocator(R[r]);
                CHECK(calls.empty(), "alloc:set", "setting the reallocator called one");
                EV("alloc.replace");
                break;
            }
            case 1: {
                k = g.below(3);
                fs_set_reallocator_counter(C[k]);
                CHECK(counts.empty(), "alloc:set", "setting the counter called one");
                EV("alloc.replace.counter");
                break;
            }
            case 2: {
                int x = (int) g.value();
                fs_reallocator_skew(x);
                CHECK(counts.size() == 1 && counts[0].who == k && counts[0].arg == x && calls.empty(), "alloc:skew",
                      "the skew of %d made %zu calls, the first of counter %d(%d), expected counter %d", x, counts.size(),
                      counts.empty() ? -1 : counts[0].who, counts.empty() ? 0 : counts[0].arg, k);
                EV("alloc.skew");
                break;
            }
            case 3: case 4: {
                size_t size = rnd_size(g);
                bool fail = fail_next = g.chance(1, 10);
                if (g.chance(1, 40))
                    size = SIZE_MAX - g.below(1000);
                TR("fsalloc(%zu)%s", size, fail ? " failing" : "");
                void *p = fsalloc(size);
                one("fsalloc", nullptr, size);
                CHECK(p == calls[0].ret, "alloc:result", "fsalloc returned something else than the reallocator");
                keep(p, size);
                if (!p && size)
                    EV("alloc.fail");
                EV("alloc.alloc");
                break;
            }
            case 5: case 6: {
                size_t a, b;
                bool over = g.chance(1, 4);
                if (over) {
                    a = g.chance(1, 2) ? g.value() : (size_t) 1 << g.below(64);
                    b = g.chance(1, 2) ? g.value() : (size_t) 1 << g.below(64);
                    if (g.chance(1, 2)) { // product just above 2^64
                        b = b ? b : 3;
                        a = SIZE_MAX / b + 1 + g.below(4);
                    }
                } else {
                    b = 1 + g.below(40);
                    if (g.chance(1, 2))
                        std::swap(a = rnd_size(g) / 40, b);
                    else
                        a = rnd_size(g) / b;
                }
                unsigned __int128 want = (unsigned __int128) a * b;
                if (want > 8000000 && want <= big_limit)
                    break;
                bool fail = fail_next = g.chance(1, 10);
                TR("fscalloc(%zu, %zu)%s", a, b, fail ? " failing" : "");
                char *p = (char *) fscalloc(a, b);
                if (want > SIZE_MAX) {
                    CHECK(!p, "alloc:overflow", "fscalloc(%zu, %zu) gave a block:%s", a, b, say(calls).c_str());
                    CHECK(calls.size() <= 1, "alloc:call", "fscalloc(%zu, %zu) made%s", a, b, say(calls).c_str());
                    EV("alloc.calloc.overflow");
                    break;
                }
                one("fscalloc", nullptr, (size_t) want);
                CHECK(p == calls[0].ret, "alloc:result", "fscalloc returned something else than the reallocator");
                if (p) {
                    size_t j = 0;
                    while (j < want && !p[j])
                        j++;
                    CHECK(j == want, "alloc:zero", "byte %zu of fscalloc(%zu, %zu) is not zero", j, a, b);
                    EV("alloc.calloc.zero");
                    keep(p, (size_t) want);
                } else if (want)
                    EV("alloc.fail");
                EV("alloc.calloc");
                break;
            }
            case 7: {
                TR("fsfree(NULL)");
                fsfree(nullptr);
                CHECK(calls.empty() && counts.empty(), "alloc:freenull", "fsfree(NULL) made%s", say(calls).c_str());
                EV("alloc.free.null");
                break;
            }
            case 8: {
                size_t size = g.chance(1, 6) ? 0 : rnd_size(g);
                fail_next = size && g.chance(1, 10);
                TR("fsrealloc(NULL, %zu)", size);
                void *p = fsrealloc(nullptr, size);
                if (!size && calls.empty()) {
                    CHECK(!p, "alloc:result", "fsrealloc(NULL, 0) invented a block");
                    break;
                }
                one("fsrealloc", nullptr, size);
                CHECK(p == calls[0].ret, "alloc:result", "fsrealloc returned something else than the reallocator");
                keep(p, size);
                break;
            }
            default: {
                if (mine.empty())
                    break;
                size_t j = g.below(mine.size());
                void *p = mine[j].first;
                std::string was = mine[j].second;
                CHECK(!memcmp(p, was.data(), was.size()), "alloc:content", "a live block changed");
                if (op == 9) {
                    TR("fsfree(%p)", p);
                    fsfree(p);
                    one("fsfree", p, 0);
                    mine.erase(mine.begin() + j);
                    EV("alloc.free");
                } else {
                    size_t size = g.chance(1, 6) ? 0 : rnd_size(g);
                    bool fail = fail_next = size && g.chance(1, 8);
                    TR("fsrealloc(%p, %zu)%s", p, size, fail ? " failing" : "");
                    void *q = fsrealloc(p, size);
                    one("fsrealloc", p, size);
                    CHECK(q == calls[0].ret, "alloc:result", "fsrealloc returned something else than the reallocator");
                    if (!size) {
                        mine.erase(mine.begin() + j);
                        EV("alloc.realloc.zero");
                    } else if (fail)
                        EV("alloc.realloc.fail"); // the old block lives on
                    else {
                        size_t m = was.size() < size ? was.size() : size;
                        CHECK(!memcmp(q, was.data(), m), "alloc:content", "reallocation lost contents");
                        mine.erase(mine.begin() + j);
                        keep(q, size);
                        EV("alloc.realloc");
                    }
                }
            }
        }
        CHECK(fs_get_reallocator() == R[r], "alloc:get", "fs_get_reallocator() is not what was set");
        CHECK(fs_get_reallocator_counter() == C[k], "alloc:get", "fs_get_reallocator_counter() is not what was set");
    }
    fail_next = false;
    for (auto &m : mine) {
        CHECK(!memcmp(m.first, m.second.data(), m.second.size()), "alloc:content", "a live block changed");
        fsfree(m.first);
    }
    CHECK(live.empty(), "alloc:left", "%zu blocks are left", live.size());
    install_monitor();
    c.nontrivial = true;
    c.text = fmtstr("%d operations under changing recording reallocators", n);
}

// the rest of the library goes through the reallocator in force at each moment
void users_case(Case &c)
{
    Gen &g = c.g;
    fail_next = false;
    int r = g.below(4);
    auto swap = [&] {
        for (auto &x : calls)
            CHECK(x.who == r, "alloc:stale", "reallocator %d was called while %d was in force", x.who, r);
        EVN("alloc.users.calls", calls.size());
        calls.clear();
        r = g.below(4);
        fs_set_reallocator(R[r]);
    };
    calls.clear();
    counts.clear();
    fs_set_reallocator(R[r]);
    list_t *l = make_list();
    swap();
    hash_table_t *h = make_hash_table(1 + g.below(20), (uint64_t (*)(const void *)) hash_unsigned, (int (*)(const void *, const void *)) unsigned_cmp);
    swap();
    avl_tree_t *t = make_avl_tree((int (*)(const void *, const void *)) unsigned_cmp);
    swap();
    byte_array_t *b = make_byte_array(100000);
    swap();
    int n = g.below(40);
    c.mix(n);
    for (int i = 0; i < n; i++) {
        u64 x = 1 + g.below(20);
        c.mix(x);
        switch (g.below(6)) {
            case 0: list_append(l, (void *) x); break;
            case 1: if (!list_empty(l)) (void) list_pop_first(l); break;
            case 2: {
                hash_elem_t *e = hash_table_put(h, as_unsigned(x), (void *) x);
                swap();
                if (e)
                    destroy_hash_element(e);
                break;
            }
            case 3: {
                avl_elem_t *e = avl_tree_put(t, as_unsigned(x), (void *) x);
                swap();
                if (e)
                    destroy_avl_element(e);
                break;
            }
            case 4: byte_array_append(b, "hello, world", x % 12); break;
            default: {
                char *s = charstr_printf("%d-%s", i, "abc");
                swap();
                char *u = charstr_url_encode(s);
                swap();
                fsfree(s);
                swap();
                fsfree(u);
            }
        }
        swap();
    }
    destroy_list(l);
    swap();
    destroy_hash_table(h);
    swap();
    destroy_avl_tree(t);
    swap();
    destroy_byte_array(b);
    swap();
    CHECK(live.empty(), "alloc:left", "%zu blocks are left", live.size());
    install_monitor();
    c.nontrivial = n > 0;
    c.text = fmtstr("%d uses of containers and strings, the reallocator changed between calls", n);
}

// the default reallocator: contents, release, abort
void default_case(Case &c)
{
    Gen &g = c.g;
    fs_set_reallocator(default_realloc);
    fs_set_reallocator_counter(default_counter);
    CHECK(fs_get_reallocator() == default_realloc && fs_get_reallocator_counter() == default_counter, "alloc:get",
          "the default reallocator or counter cannot be put back");
    fs_reallocator_skew((int) g.raw());
    std::vector<std::pair<char *, std::string>> mine;
    int n = 5 + g.below(80);
    for (int i = 0; i < n; i++) {
        size_t size = 1 + rnd_size(g);
        c.mix(size);
        c.evals++;
        auto store = [&](char *p, size_t from, std::string s) {
            for (size_t j = from; j < size; j++)
                s += (char) (i * 7 + j * 3);
            memcpy(p + from, s.data() + from, size - from);
            mine.push_back({p, s});
        };
        size_t j = mine.empty() ? 0 : g.below(mine.size());
        switch (g.below(mine.empty() ? 3 : 6)) {
            case 0: {
                char *p = (char *) fsalloc(size);
                CHECK(p, "alloc:default", "fsalloc(%zu) gave %p", size, p);
                store(p, 0, "");
                break;
            }
            case 1: {
                size_t b = 1 + g.below(20), a = size / b + 1;
                size = a * b;
                char *p = (char *) fscalloc(a, b);
                CHECK(p, "alloc:default", "fscalloc gave NULL");
                for (size_t x = 0; x < size; x++)
                    CHECK(!p[x], "alloc:zero", "fscalloc(%zu, %zu) byte %zu is not zero", a, b, x);
                store(p, 0, "");
                break;
            }
            case 2: {
                char *p = (char *) fsrealloc(nullptr, size);
                CHECK(p, "alloc:default", "fsrealloc(NULL, %zu) gave NULL", size);
                store(p, 0, "");
                break;
            }
            case 3: {
                fsfree(mine[j].first);
                mine.erase(mine.begin() + j);
                fsfree(nullptr);
                break;
            }
            case 4: {
                CHECK(!fsrealloc(mine[j].first, 0), "alloc:default", "fsrealloc(p, 0) returned a block");
                mine.erase(mine.begin() + j);
                break;
            }
            default: {
                auto m = mine[j];
                mine.erase(mine.begin() + j);
                char *q = (char *) fsrealloc(m.first, size);
                CHECK(q, "alloc:default", "fsrealloc(p, %zu) gave NULL", size);
                std::string keep = m.second.substr(0, size);
                CHECK(!memcmp(q, keep.data(), keep.size()), "alloc:content", "reallocation from %zu to %zu lost contents",
                      m.second.size(), size);
                store(q, keep.size(), keep);
                EV("alloc.default.realloc");
            }
        }
    }
    for (auto &m : mine) {
        CHECK(!memcmp(m.first, m.second.data(), m.second.size()), "alloc:content", "a live block changed");
        fsfree(m.first);
    }
    install_monitor();
    c.nontrivial = true;
    c.text = fmtstr("%d allocations of the default reallocator", n);
}
// in a child: 3 = NULL came back, 4 = a block came back
template <class F> int in_child(F f)
{
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        signal(SIGABRT, SIG_DFL);
        int fd = dup(2);
        freopen("/dev/null", "w", stderr);
        (void) fd;
        fs_set_reallocator(default_realloc);
        _exit(f() ? 4 : 3);
    }
    int st = 0;
    if (pid < 0 || waitpid(pid, &st, 0) != pid) {
        fprintf(stderr, "fork failed\n");
        _exit(12);
    }
    return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}
void abort_case(Case &c)
{
    Gen &g = c.g;
    size_t size;
    switch (g.below(4)) {
        case 0: size = SIZE_MAX - g.below(5000); break;
        case 1: size = SIZE_MAX / 2 + 1 + g.raw() / 2; break;
        case 2: size = (size_t) 1 << (49 + g.below(15)); break;
        default: size = ((size_t) 1 << 62) + g.raw() % ((size_t) 1 << 62);
    }
    c.mix(size);
    int how = g.below(4);
    c.mix(how);
    int r = in_child([&]() -> bool {
        switch (how) {
            case 0: return fsalloc(size) != nullptr;
            case 1: return fsrealloc(nullptr, size) != nullptr;
            case 2: return fsrealloc(fsalloc(10), size) != nullptr;
            default: return fscalloc(1, size) != nullptr;
        }
    });
    CHECK(r == -SIGABRT, "alloc:noabort", "an impossible request for %zu bytes (%d) with the default reallocator did not abort "
          "but ended with %d", size, how, r);
    EV("alloc.default.abort");
    // the product overflows
    size_t b = 2 + g.below(1000), a = SIZE_MAX / b + 1 + g.below(5);
    r = in_child([&]() -> bool { return fscalloc(a, b) != nullptr; });
    CHECK(r != 4, "alloc:overflow", "fscalloc(%zu, %zu) gave a block", a, b);
    CHECK(r == -SIGABRT || r == 3, "alloc:overflow", "fscalloc(%zu, %zu) ended with %d", a, b, r);
    c.evals++;
    c.nontrivial = true;
    c.text = fmtstr("impossible requests (%zu bytes) in child processes", size);
}
void release_sweep(Sweep &s)
{
    if (s.shard)
        return;
    // what is freed is really given back
    fs_set_reallocator(default_realloc);
    static void *p[2000];
    for (int how = 0; how < 2; how++) {
        auto used = [] {
            struct mallinfo2 m = mallinfo2();
            return m.uordblks + m.hblkhd;
        };
        size_t before = used();
        for (int round = 0; round < 5; round++) {
            for (int i = 0; i < 2000; i++)
                p[i] = fsalloc(1000 + i * 20);
            for (int i = 0; i < 2000; i++) {
                if (how)
                    p[i] = fsrealloc(p[i], 0);
                else
                    fsfree(p[i]);
            }
        }
        size_t after = used();
        CHECK(after < before + 2000000, "alloc:release", "freed blocks are not released (%zu bytes in use before, %zu after)", before,
              after);
        s.evals += 10000;
        s.distinct++;
    }
    EV("alloc.default.release");
    install_monitor();
    s.sample("10000 blocks allocated and freed with the default reallocator");
}
// element counts and sizes whose product needs more than 32 bits
char *huge;
size_t huge_size, huge_calls;
void *huge_realloc(void *ptr, size_t size)
{
    huge_calls++;
    if (size != huge_size)
        return nullptr;
    return ptr ? nullptr : huge;
}
void huge_sweep(Sweep &s)
{
    if (s.shard)
        return;
    static const size_t AB[][2] = {{65536, 65537}, {(((size_t) 1 << 32) + 4096) / 8, 8}};
    for (auto &ab : AB) {
        s.tick();
        huge_size = ab[0] * ab[1];
        huge_calls = 0;
        huge = (char *) mmap(nullptr, huge_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (huge == MAP_FAILED)
            _exit(12);
        madvise(huge, huge_size, MADV_HUGEPAGE);
        for (size_t at = 0; at < huge_size; at += (size_t) 64 << 20)
            huge[at] = 1;
        huge[huge_size - 1] = 1;
        memset(huge + ((size_t) 1 << 32), 1, 4096);
        fs_set_reallocator(huge_realloc);
        char *p = (char *) fscalloc(ab[0], ab[1]);
        install_monitor();
        CHECK(p == huge && huge_calls == 1, "alloc:huge", "fscalloc(%zu, %zu) did not ask for %zu bytes", ab[0], ab[1], huge_size);
        for (size_t at = 0; at < huge_size; at += (size_t) 64 << 20)
            CHECK(!huge[at], "alloc:zero", "fscalloc(%zu, %zu) byte %zu is not zero", ab[0], ab[1], at);
        CHECK(!huge[huge_size - 1], "alloc:zero", "fscalloc(%zu, %zu): the last byte is not zero", ab[0], ab[1]);
        for (size_t j = 0; j < 4096; j++)
            CHECK(!huge[((size_t) 1 << 32) + j], "alloc:zero", "fscalloc(%zu, %zu): byte 2^32+%zu is not zero", ab[0], ab[1], j);
        munmap(huge, huge_size);
        s.evals++;
        s.distinct++;
        EV("alloc.huge");
    }
    s.sample("zeroed blocks of more than 4 GiB");
}
} // namespace
REG_CASES("C26", alloc_gateway, gateway_case, 24000, 6000, 30, 0);
REG_CASES("C26", alloc_users, users_case, 8000, 2000, 30, 0);
REG_CASES("C26", alloc_default, default_case, 6000, 1500, 30, 0);
REG_CASES("C26", alloc_abort, abort_case, 160, 40, 20, 0);
REG_SWEEP("C26", alloc_release, release_sweep, 1, 0, 0);
REG_SWEEP("C26", alloc_huge, huge_sweep, 1, 0, 0);
