// Common machinery of the monitors: choice source, oracle verdicts, event
// counters, the monitoring reallocator and case/sweep registration.
#pragma once
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint8_t u8;
typedef uint32_t u32;

// ---------------------------------------------------------------- randomness
static inline u64 mix64(u64 z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Dict {
    std::vector<u64> ints; // integer constants of the sources, and neighbours
    std::vector<std::string> strs;
};
extern Dict dict;

// The source of all choices of a case: a PRNG, or bytes from a fuzzer.
struct Gen {
    u64 s[2];
    const u8 *data = nullptr;
    size_t len = 0, pos = 0;
    bool bytes = false;
    explicit Gen(u64 seed)
    {
        s[0] = mix64(seed);
        s[1] = mix64(s[0] ^ 0x1234567);
    }
    Gen(const u8 *d, size_t n) : Gen(77)
    {
        data = d;
        len = n;
        bytes = true;
    }
    u64 prng()
    {
        u64 a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
    u64 raw()
    {
        if (!bytes)
            return prng();
        u64 v = 0;
        for (int i = 0; i < 8; i++)
            v = v << 8 | (pos < len ? data[pos++] : 0);
        return v;
    }
    u64 below(u64 n) // 0..n-1
    {
        if (n <= 1)
            return 0;
        if (bytes) {
            u64 v = 0;
            for (u64 m = n - 1; m; m >>= 8)
                v = v << 8 | (pos < len ? data[pos++] : 0);
            return v % n;
        }
        return (u64) (((unsigned __int128) prng() * n) >> 64);
    }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> const T &pick(const std::vector<T> &v)
    {
        return v[below(v.size())];
    }
    // a length/size in 0..max: small, log-uniform, near powers of two, near
    // constants that occur in the sources
    u64 size(u64 max)
    {
        u64 v;
        switch (below(10)) {
            case 0: case 1: case 2:
                v = below(17);
                break;
            case 3: case 4:
                v = below((u64) 1 << below(21));
                break;
            case 5:
                v = ((u64) 1 << below(21)) + below(3) - 1;
                break;
            case 6: case 7:
                v = dict.ints.empty() ? below(300)
                                      : pick(dict.ints) + below(3) - 1;
                break;
            default:
                return below(max + 1);
        }
        return v <= max ? v : below(max + 1);
    }
    // any 64-bit value, boundaries preferred
    u64 value()
    {
        switch (below(7)) {
            case 0:
                return raw();
            case 1:
                return ((u64) 1 << below(64)) + below(5) - 2;
            case 2:
                return ~(((u64) 1 << below(64)) + below(5) - 2);
            case 3:
                return below(20) - 10;
            case 4:
                return (u64) INT64_MIN + below(20) - 10;
            case 5:
                return dict.ints.empty() ? raw()
                                         : pick(dict.ints) + below(5) - 2;
            default:
                return raw() >> below(64);
        }
    }
};

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violate(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
#define CHECK(cond, key, ...)            \
    do {                                 \
        if (!(cond))                     \
            violate(key, __VA_ARGS__);   \
    } while (0)
// verdict from inside a callback running on top of library frames: ends the
// process at once
[[noreturn]] void violate_now(const char *key, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// true if this very failure is listed as a known finding (and notes the hit)
bool known_finding(const std::string &key);

std::string fmtstr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hexdump(const void *p, size_t n, size_t limit = 80);

// ---------------------------------------------------------------- counters
// Per thread, without any synchronisation: it would order the threads that
// ThreadSanitizer watches.
enum { MAX_EV = 4096 };
struct EvSlot {
    const char *name;
    u64 n;
};
extern thread_local EvSlot tl_ev[MAX_EV];
constexpr u32 ev_hash(const char *s)
{
    u32 h = 2166136261u;
    for (; *s; s++)
        h = (h ^ (u8) *s) * 16777619u;
    return (h ^ h >> 13) % MAX_EV;
}
inline void ev_add(u32 h, const char *name, u64 n)
{
    while (tl_ev[h].name && tl_ev[h].name != name && strcmp(tl_ev[h].name, name))
        h = (h + 1) % MAX_EV;
    tl_ev[h].name = name;
    tl_ev[h].n += n;
}
void ev_flush(); // adds the calling thread's counts to the totals
#define EVN(name, n)                           \
    do {                                       \
        constexpr u32 h_ = ev_hash(name);      \
        ev_add(h_, name, n);                   \
    } while (0)
#define EV(name) EVN(name, 1)

// ---------------------------------------------------------------- cases
struct Options {
    std::string prop, variant = "plain", tier = "quick";
    u64 seed = 1;
    unsigned shard = 0, nshards = 1;
    double scale = 1;
    bool trace = false;
    bool leak_mode = false;   // C10: judge ownership only
    bool thread_mode = false; // C29
    bool cross_mode = false;  // C39: the other monitors in another build
    bool env_mode = false;    // C40: the other monitors in odd surroundings
    bool uninit_mode = false; // C38: under memcheck, which is the only judge
    bool asan() const { return variant == "asan" || uninit_mode || cross_mode || env_mode; }
    bool quick() const { return tier == "quick"; }
};
extern Options opt;

struct Case {
    Gen g;
    u64 sig = 0;
    bool nontrivial = false;
    u64 idx;
    u64 evals = 0; // evaluations beyond the case itself
    std::string text; // a sample: what the case did
    Case(u64 seed, u64 i) : g(seed), idx(i) {}
    void mix(u64 x) { sig = mix64(sig ^ x); }
    void mixs(const std::string &s)
    {
        u64 h = 1469598103934665603ULL;
        for (unsigned char c : s)
            h = (h ^ c) * 1099511628211ULL;
        mix(h ^ s.size());
    }
};
#define TR(...)                                \
    do {                                       \
        if (opt.trace)                         \
            trace_line(__VA_ARGS__);           \
    } while (0)
void trace_line(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Sweep {
    unsigned shard, nshards;
    u64 evals = 0, distinct = 0;
    std::vector<std::string> samples;
    bool exhaustive = true;
    bool mine(u64 i) const { return i % nshards == shard; }
    void tick(int factor = 1); // progress: re-arms the watchdog
    void where(u64 a, u64 b = 0); // position, for the report of a crash
    void sample(const std::string &s)
    {
        if (samples.size() < 2)
            samples.push_back(s);
    }
};

typedef void (*case_fn)(Case &);
typedef void (*sweep_fn)(Sweep &);
struct Module {
    const char *prop, *name;
    case_fn cf;
    sweep_fn sf;
    // number of cases over all shards: quick plain, quick asan; thorough
    // multiplies; 0 = not run in that build
    u64 n_plain, n_asan;
    unsigned thorough_factor;
    bool own;     // also part of the ownership run (C10)
    bool threads; // also part of the thread run (C29)
};
std::vector<Module> &modules();
struct Reg {
    Reg(const Module &m) { modules().push_back(m); }
};
enum { OWN = 1, THR = 2 };
#define REG_CASES(prop, name, fn, np, na, tf, flags)                        \
    static Reg reg_##name(Module{prop, #name, fn, nullptr, np, na, tf,      \
                                 ((flags) & OWN) != 0, ((flags) & THR) != 0})
// sweeps: np/na nonzero = run in that build; tf = 0: quick and thorough,
// 1: thorough only
#define REG_SWEEP(prop, name, fn, np, na, tf)                               \
    static Reg reg_##name(Module{prop, #name, nullptr, fn, np, na, tf, false, \
                                 false})

// ---------------------------------------------------------------- memory
struct MemStats {
    u64 allocs, reallocs, frees, live_blocks, live_bytes, peak_bytes;
    i64 skew;
};
extern MemStats mem;
void install_monitor();         // fs_set_reallocator(monitor)
bool mem_is_live(const void *p, size_t *size = nullptr);
void mem_forget_all();          // after an aborted case
extern u64 mem_limit;           // bytes the library may hold
extern bool gateway_only;       // malloc-family calls by the library are errors
extern u64 direct_malloc_calls; // seen from the library's objects

// A buffer of exactly n bytes whose end (or start) touches inaccessible
// memory: heap block under ASan, guard pages otherwise.
struct Exact {
    char *p;
    size_t n;
    void *base;
    size_t maplen;
    std::string orig;
    Exact(const void *src, size_t n, bool front = false);
    Exact(const std::string &s, bool front = false) : Exact(s.data(), s.size(), front) {}
    ~Exact();
    Exact(const Exact &) = delete;
    Exact &operator=(const Exact &) = delete;
    char *end() const { return p + n; }
    bool unchanged() const { return !n || !memcmp(p, orig.data(), n); }
};
// NUL-terminated exact string
struct ExactZ : Exact {
    ExactZ(const std::string &s) : Exact(s.c_str(), s.size() + 1) {}
};

// an out-parameter about to be given away: never written so far (C38)
void mark_unset(void *p, size_t n);
inline void unset(void *p, size_t n, bool really = true)
{
    if (opt.uninit_mode && really)
        mark_unset(p, n);
}

struct TakeStr { // owns a string allocated by the library
    char *p;
    explicit TakeStr(char *q) : p(q) {}
    ~TakeStr();
    TakeStr(const TakeStr &) = delete;
    std::string str() const { return p ? std::string(p) : std::string("<NULL>"); }
};

// thread run (C29)
extern void (*violate_hook)(const std::string &key, const std::string &msg);
extern bool (*live_hook)(const void *p, size_t *size);
void arm_watchdog(int factor = 1);
u64 case_seed(const Module &m, u64 idx);
void note_round(u64 idx, u64 evals, u64 sig, const std::string &text);
void note_event(const char *name, u64 n); // into the totals

int core_main(int argc, char **argv);
