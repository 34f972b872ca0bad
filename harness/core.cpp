#include "core.h"
#include <valgrind/memcheck.h>
#include <fsdyn/fsalloc.h>
#include <atomic>
#include <cfenv>
#include <clocale>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <setjmp.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>
#include <malloc.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define SANITIZED 1
#else
#define SANITIZED 0
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#undef SANITIZED
#define SANITIZED 1
#endif
#endif

Dict dict;
Options opt;
MemStats mem;
u64 mem_limit = (u64) 3 << 30;
bool gateway_only = false;
u64 direct_malloc_calls = 0;
static bool errno_noise; // C40: a successful allocation may leave anything in errno
thread_local EvSlot tl_ev[MAX_EV];

static std::map<std::string, u64> ev_total;
std::map<std::string, u64> &ev_totals() { return ev_total; }
static std::mutex ev_mutex;

void note_event(const char *name, u64 n)
{
    std::lock_guard<std::mutex> l(ev_mutex);
    ev_total[name] += n;
}
void ev_flush()
{
    for (auto &s : tl_ev)
        if (s.name) {
            note_event(s.name, s.n);
            s = EvSlot{nullptr, 0};
        }
}

std::vector<Module> &modules()
{
    static std::vector<Module> m;
    return m;
}

// ------------------------------------------------------------ progress file
struct Progress {
    char module[48];
    u64 idx, seed, a, b;
    u64 started;
};
static Progress dummy_progress;
static Progress *progress = &dummy_progress;

static std::string report_path, stats_path;

static std::string vfmt(const char *fmt, va_list ap)
{
    va_list c;
    va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, fmt, c);
    va_end(c);
    std::string s(n > 0 ? n : 0, 0);
    if (n > 0)
        vsnprintf(&s[0], n + 1, fmt, ap);
    return s;
}
std::string fmtstr(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string s = vfmt(fmt, ap);
    va_end(ap);
    return s;
}
std::string hexdump(const void *p, size_t n, size_t limit)
{
    std::string s;
    const u8 *q = (const u8 *) p;
    for (size_t i = 0; i < n && i < limit; i++) {
        char b[4];
        snprintf(b, sizeof b, "%02x", q[i]);
        s += b;
    }
    if (n > limit)
        s += fmtstr("...(%zu bytes)", n);
    return s;
}
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

void trace_line(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stdout, fmt, ap);
    va_end(ap);
    fputc('\n', stdout);
    fflush(stdout);
}

static sigjmp_buf foreign_jump; // ownership run: leave a case another oracle condemned
static bool foreign_armed = false;
static std::map<std::string, u64> known; // key -> hits
bool known_finding(const std::string &key)
{
    auto it = known.find(key);
    if (it == known.end())
        return false;
    it->second++;
    return true;
}

void (*violate_hook)(const std::string &key, const std::string &msg);
bool (*live_hook)(const void *p, size_t *size);

static void write_report(const char *kind, const std::string &key,
                         const std::string &msg)
{
    FILE *f = report_path.empty() ? stdout : fopen(report_path.c_str(), "w");
    if (!f)
        f = stdout;
    fprintf(f,
            "{\"kind\":\"%s\",\"key\":%s,\"message\":%s,\"module\":\"%s\","
            "\"idx\":%llu,\"a\":%llu,\"b\":%llu}\n",
            kind, jstr(key).c_str(), jstr(msg).c_str(), progress->module,
            (unsigned long long) progress->idx,
            (unsigned long long) progress->a, (unsigned long long) progress->b);
    fflush(f);
    if (f != stdout)
        fclose(f);
    if (opt.trace)
        printf("VIOLATED [%s] %s\n", key.c_str(), msg.c_str());
    fflush(stdout);
}

[[noreturn]] void violate_now(const char *key, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string m = vfmt(fmt, ap);
    va_end(ap);
    if (violate_hook)
        violate_hook(key, m);
    if (foreign_armed && opt.uninit_mode)
        siglongjmp(foreign_jump, 1);
    write_report("violation", key, m);
    _exit(10);
}

// No unwinding: destructors would go on using objects that are known broken.
[[noreturn]] void violate(const char *key, const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    std::string m = vfmt(fmt, ap);
    va_end(ap);
    if (violate_hook)
        violate_hook(key, m);
    if (foreign_armed && (opt.uninit_mode || strncmp(key, "mem:", 4))) {
        TR("foreign oracle: [%s] %s", key, m.c_str());
        siglongjmp(foreign_jump, 1);
    }
    write_report("violation", key, m);
    _exit(10);
}

// ------------------------------------------------------------ watchdog
enum { CASE_CPU_SECONDS = 60 };
static double cpu_factor = 1;
static void arm()
{
    struct itimerval it = {};
    it.it_value.tv_sec = (long) (CASE_CPU_SECONDS * cpu_factor);
    setitimer(ITIMER_PROF, &it, nullptr);
}
void arm_watchdog(int factor)
{
    double f = cpu_factor;
    cpu_factor *= factor;
    arm();
    cpu_factor = f;
}
static void on_hang(int)
{
    write_report("hang", "hang", "no progress within the CPU-time allowance");
    _exit(11);
}
void Sweep::tick(int factor) { arm_watchdog(factor); }
void Sweep::where(u64 a, u64 b)
{
    progress->a = a;
    progress->b = b;
}

// ------------------------------------------------------------ reallocator
// Registry of live blocks: open addressing, keyed by address.
struct RegSlot {
    uintptr_t p; // 0 = free, 1 = deleted
    size_t size;
};
static std::vector<RegSlot> reg_tab(1 << 12);
static size_t reg_used = 0; // live + deleted

static size_t reg_hash(uintptr_t p)
{
    return mix64(p >> 4);
}
static RegSlot *reg_find(uintptr_t p)
{
    size_t m = reg_tab.size() - 1;
    for (size_t i = reg_hash(p) & m;; i = (i + 1) & m) {
        if (reg_tab[i].p == p)
            return &reg_tab[i];
        if (!reg_tab[i].p)
            return nullptr;
    }
}
static void reg_insert(uintptr_t p, size_t size)
{
    if (reg_used * 2 >= reg_tab.size()) {
        std::vector<RegSlot> old;
        old.swap(reg_tab);
        size_t live = 0;
        for (auto &s : old)
            live += s.p > 1;
        size_t n = 1 << 12;
        while (n < live * 4)
            n *= 2;
        reg_tab.assign(n, RegSlot{0, 0});
        reg_used = 0;
        for (auto &s : old)
            if (s.p > 1) {
                size_t m = n - 1, i = reg_hash(s.p) & m;
                while (reg_tab[i].p)
                    i = (i + 1) & m;
                reg_tab[i] = s;
                reg_used++;
            }
    }
    size_t m = reg_tab.size() - 1, i = reg_hash(p) & m;
    while (reg_tab[i].p > 1)
        i = (i + 1) & m;
    if (!reg_tab[i].p)
        reg_used++;
    reg_tab[i] = RegSlot{p, size};
}

enum { HEAD = 16, TAIL = 16 };
static const size_t BIG = (size_t) 64 << 20;
static const u8 CANARY = 0xa7;
static u64 fill_state = 88172645463325252ULL;
static u8 fill_byte()
{
    fill_state ^= fill_state << 13;
    fill_state ^= fill_state >> 7;
    fill_state ^= fill_state << 17;
    u8 b = fill_state >> 24;
    return b ? b : 0x5a;
}
static void fill(void *p, u8 b, size_t n)
{
    if (n > ((size_t) 8 << 20)) {
        size_t k = (size_t) 1 << 20;
        memset(p, b, k);
        memset((char *) p + n - k, b, k);
    } else
        memset(p, b, n);
    __asm__ volatile("" : : "r"(p) : "memory");
}

static void *block_alloc(size_t size)
{
#if SANITIZED
    return malloc(size);
#else
    char *raw;
    if (size >= BIG) {
        raw = (char *) mmap(nullptr, HEAD + size + TAIL, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (raw == MAP_FAILED)
            return nullptr;
        madvise(raw, HEAD + size + TAIL, MADV_HUGEPAGE);
    } else
        raw = (char *) malloc(HEAD + size + TAIL);
    if (!raw)
        return nullptr;
    memset(raw, CANARY, HEAD);
    memset(raw + HEAD + size, CANARY, TAIL);
    return raw + HEAD;
#endif
}
static void block_check(void *p, size_t size)
{
#if !SANITIZED
    const u8 *h = (const u8 *) p - HEAD, *t = (const u8 *) p + size;
    for (int i = 0; i < HEAD; i++)
        if (h[i] != CANARY)
            violate_now("mem:underrun", "block of %zu bytes written before its start", size);
    for (int i = 0; i < TAIL; i++)
        if (t[i] != CANARY)
            violate_now("mem:overrun", "block of %zu bytes written past its end", size);
#else
    (void) p;
    (void) size;
#endif
}
static void block_free(void *p, size_t size)
{
    block_check(p, size);
    fill(p, 0xdb, size);
#if SANITIZED
    free(p);
#else
    if (size >= BIG)
        munmap((char *) p - HEAD, HEAD + size + TAIL);
    else
        free((char *) p - HEAD);
#endif
}

static void *monitor_realloc(void *ptr, size_t size)
{
    if (!ptr && !size)
        return nullptr;
    size_t old = 0;
    if (ptr) {
        RegSlot *s = reg_find((uintptr_t) ptr);
        if (!s)
            violate_now("mem:foreign-free",
                        "%s of %p, which is not a live block of the reallocator "
                        "(double free or foreign pointer)",
                        size ? "realloc" : "free", ptr);
        old = s->size;
        if (!size) {
            s->p = 1;
            mem.frees++;
            mem.live_blocks--;
            mem.live_bytes -= old;
            block_free(ptr, old);
            return nullptr;
        }
    }
    if (mem.live_bytes + size > mem_limit + old || size > mem_limit)
        violate_now("mem:runaway", "the library asked for a block of %zu bytes with %llu live",
                    size, (unsigned long long) mem.live_bytes);
#if !SANITIZED
    if (ptr && old >= BIG && size >= BIG) {
        block_check(ptr, old);
        char *raw = (char *) mremap((char *) ptr - HEAD, HEAD + old + TAIL, HEAD + size + TAIL, MREMAP_MAYMOVE);
        if (raw == MAP_FAILED) {
            write_report("error", "oom", "out of memory in the harness");
            _exit(12);
        }
        reg_find((uintptr_t) ptr)->p = 1;
        char *p = raw + HEAD;
        if (size > old)
            memset(p + old, 0x5b, TAIL); // the old trailing canary
        memset(p + size, CANARY, TAIL);
        if (opt.uninit_mode && size > old)
            VALGRIND_MAKE_MEM_UNDEFINED(p + old, size - old);
        mem.reallocs++;
        mem.live_bytes += size - old;
        if (mem.live_bytes > mem.peak_bytes)
            mem.peak_bytes = mem.live_bytes;
        reg_insert((uintptr_t) p, size);
        return p;
    }
#endif
    void *p = block_alloc(size);
    if (!p) {
        write_report("error", "oom", "out of memory in the harness");
        _exit(12);
    }
    size_t keep = old < size ? old : size;
    fill((char *) p + keep, fill_byte(), size - keep);
    if (opt.uninit_mode)
        VALGRIND_MAKE_MEM_UNDEFINED((char *) p + keep, size - keep);
    if (ptr) {
        memcpy(p, ptr, keep);
        RegSlot *s = reg_find((uintptr_t) ptr);
        s->p = 1;
        block_free(ptr, old);
        mem.reallocs++;
    } else {
        mem.allocs++;
        mem.live_blocks++;
    }
    mem.live_bytes += size - old;
    if (mem.live_bytes > mem.peak_bytes)
        mem.peak_bytes = mem.live_bytes;
    reg_insert((uintptr_t) p, size);
    if (errno_noise)
        errno = size & 1 ? ENOMEM : size & 2 ? ERANGE : EAGAIN;
    return p;
}
static void monitor_counter(int n)
{
    mem.skew += n;
}

void install_monitor()
{
    fs_set_reallocator(monitor_realloc);
    fs_set_reallocator_counter(monitor_counter);
}
bool mem_is_live(const void *p, size_t *size)
{
    if (live_hook)
        return live_hook(p, size);
    RegSlot *s = reg_find((uintptr_t) p);
    if (!s)
        return false;
    if (size)
        *size = s->size;
    return true;
}
void mark_unset(void *p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
void mem_forget_all()
{
    reg_tab.assign(1 << 12, RegSlot{0, 0});
    reg_used = 0;
    mem.live_blocks = 0;
    mem.live_bytes = 0;
    mem.skew = 0;
}
// all blocks' canaries
static void mem_check_all()
{
    for (auto &s : reg_tab)
        if (s.p > 1)
            block_check((void *) s.p, s.size);
}

// Stand-ins for the malloc family in the library's objects (objcopy renames
// the references).
static void direct(const char *what)
{
    __atomic_add_fetch(&direct_malloc_calls, 1, __ATOMIC_RELAXED);
    if (gateway_only)
        violate_now("mem:bypass",
                    "the library called %s() while a custom reallocator is installed", what);
}
extern "C" {
void *mon_malloc(size_t n) { direct("malloc"); return malloc(n); }
void *mon_calloc(size_t a, size_t b) { direct("calloc"); return calloc(a, b); }
void *mon_realloc(void *p, size_t n) { direct("realloc"); return realloc(p, n); }
void *mon_reallocarray(void *p, size_t a, size_t b) { direct("reallocarray"); return reallocarray(p, a, b); }
void mon_free(void *p) { direct("free"); free(p); }
char *mon_strdup(const char *s) { direct("strdup"); return strdup(s); }
char *mon_strndup(const char *s, size_t n) { direct("strndup"); return strndup(s, n); }
void *mon_aligned_alloc(size_t a, size_t n) { direct("aligned_alloc"); return aligned_alloc(a, n); }
int mon_posix_memalign(void **p, size_t a, size_t n) { direct("posix_memalign"); return posix_memalign(p, a, n); }
int mon_vasprintf(char **p, const char *f, va_list ap) { direct("vasprintf"); return vasprintf(p, f, ap); }
int mon_vasprintf_chk(char **p, int, const char *f, va_list ap) { direct("vasprintf"); return vasprintf(p, f, ap); }
int mon_asprintf(char **p, const char *f, ...)
{
    direct("asprintf");
    va_list ap;
    va_start(ap, f);
    int r = vasprintf(p, f, ap);
    va_end(ap);
    return r;
}
int mon_asprintf_chk(char **p, int, const char *f, ...)
{
    direct("asprintf");
    va_list ap;
    va_start(ap, f);
    int r = vasprintf(p, f, ap);
    va_end(ap);
    return r;
}
}

TakeStr::~TakeStr()
{
    fsfree(p);
}

// ------------------------------------------------------------ exact buffers
static const size_t PAGE = 4096;
#if !SANITIZED
static thread_local std::vector<char *> exact_pool;
#endif
Exact::Exact(const void *src, size_t len, bool front) : n(len), base(nullptr), maplen(0)
{
    orig.assign((const char *) (src ? src : ""), src ? len : 0);
    if (!src)
        orig.assign(len, (char) 0x5c);
#if SANITIZED
    (void) front;
    base = malloc(len ? len : 1);
    p = (char *) base + (len ? 0 : 1);
#else
    const size_t CACHED = 16 * PAGE;
    size_t body = (len + PAGE - 1) / PAGE * PAGE;
    bool pooled = body <= CACHED;
    if (pooled)
        body = CACHED;
    char *m;
    if (pooled && !exact_pool.empty()) {
        m = exact_pool.back();
        exact_pool.pop_back();
    } else {
        m = (char *) mmap(nullptr, body + 2 * PAGE, PROT_NONE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED || mprotect(m + PAGE, body, PROT_READ | PROT_WRITE) < 0)
            abort();
    }
    maplen = pooled ? 0 : body + 2 * PAGE;
    base = m;
    p = front ? m + PAGE : m + PAGE + body - len;
#endif
    if (len)
        memcpy(p, orig.data(), len);
}
Exact::~Exact()
{
#if SANITIZED
    free(base);
#else
    if (maplen)
        munmap(base, maplen);
    else
        exact_pool.push_back((char *) base);
#endif
}

// ------------------------------------------------------------ running
static std::unordered_set<u64> sigs;
static u64 n_cases, n_nontrivial, n_evals, n_foreign;
static std::vector<std::string> samples;
static std::vector<std::string> ran;
static bool exhaustive_sweep = false;
static std::mutex run_mutex;

u64 case_seed(const Module &m, u64 idx)
{
    u64 h = 1469598103934665603ULL;
    for (const char *p = m.name; *p; p++)
        h = (h ^ (u8) *p) * 1099511628211ULL;
    return mix64(mix64(opt.seed ^ h) ^ idx * 0x9e3779b97f4a7c15ULL);
}

// ---------------------------------------------------------------- surroundings (C40)
static std::vector<std::string> locales = {"C"};
static bool calm; // the ordinary surroundings, for comparison
struct Surroundings {
    std::string loc, tz;
    unsigned mxcsr = 0;
    unsigned short x87 = 0;
    mode_t mask = 0;
    sigset_t sigs;
    std::string cwd;
};
static Surroundings here()
{
    Surroundings h;
    h.loc = setlocale(LC_ALL, nullptr);
    const char *tz = getenv("TZ");
    h.tz = tz ? tz : "(none)";
    h.mxcsr = __builtin_ia32_stmxcsr() & ~0x3fu; // not the sticky flags
    __asm__ volatile("fnstcw %0" : "=m"(h.x87));
    umask(h.mask = umask(0));
    memset(&h.sigs, 0, sizeof h.sigs);
    sigprocmask(SIG_BLOCK, nullptr, &h.sigs);
    char b[4096];
    h.cwd = getcwd(b, sizeof b) ? b : "?";
    return h;
}
static const unsigned CALM_MXCSR = 0x1f80;
static void calm_down()
{
    setlocale(LC_ALL, "C");
    __builtin_ia32_ldmxcsr(CALM_MXCSR);
    fesetround(FE_TONEAREST);
}
template <class F> static void in_surroundings(u64 seed, const F &f)
{
    if (!opt.env_mode || calm) {
        f();
        return;
    }
    static const char *const TZS[] = {"UTC", "Europe/Helsinki", "XXX-13:30YYY,M3.2.0,M11.1.0", "AAA+24", "right/UTC", ":/nonexistent"};
    static const int ROUND[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    static const int ERRNOS[] = {0, ERANGE, EILSEQ, EINVAL, ENOMEM, EOVERFLOW, EAGAIN};
    Gen g(mix64(seed ^ 0x5be0cd19137e2179ULL));
    // one of three cases changes one thing only, the others several
    unsigned what = g.chance(1, 3) ? 1u << g.below(4) : 1 + g.below(15);
    if (what & 1) {
        const std::string &l = locales[g.below(locales.size())];
        if (!setlocale(LC_ALL, l.c_str())) {
            write_report("error", "locale", l.c_str());
            _exit(12);
        }
        if (localeconv()->decimal_point[0] != '.')
            EV("env.decimal-comma");
        if (MB_CUR_MAX > 1)
            EV("env.multibyte-locale");
        else if (l != "C")
            EV("env.8-bit-locale");
        if (tolower('I') != 'i' || strcoll("a", "B") < 0)
            EV("env.other-collation-or-case");
    }
    if (what & 2) {
        setenv("TZ", TZS[g.below(6)], 1);
        tzset();
        EV("env.time-zone");
    }
    if (what & 4) {
        int r = ROUND[g.below(4)];
        fesetround(r);
        if (r != FE_TONEAREST)
            EV("env.rounding");
        if (g.chance(1, 3)) {
            __builtin_ia32_ldmxcsr(__builtin_ia32_stmxcsr() | 0x8040); // flush to zero, denormals are zero
            EV("env.flush-to-zero");
        }
    }
    if (what & 8) {
        errno = ERRNOS[g.below(7)];
        errno_noise = true;
        EV("env.errno");
    }
    Surroundings a = here();
    TR("surroundings: locale %s, TZ %s, mxcsr %x, errno %s", a.loc.c_str(), a.tz.c_str(), a.mxcsr, errno_noise ? "odd" : "calm");
    f();
    Surroundings b = here();
    errno_noise = false;
    calm_down();
    CHECK(a.loc == b.loc, "env:locale", "the locale was changed from %s to %s", a.loc.c_str(), b.loc.c_str());
    CHECK(a.tz == b.tz, "env:tz", "the time zone was changed from %s to %s", a.tz.c_str(), b.tz.c_str());
    CHECK(a.mxcsr == b.mxcsr && a.x87 == b.x87, "env:float", "the floating-point control words were changed from %x, %x to %x, %x",
          a.mxcsr, a.x87, b.mxcsr, b.x87);
    CHECK(a.mask == b.mask, "env:umask", "the file creation mask was changed from %o to %o", a.mask, b.mask);
    CHECK(!memcmp(&a.sigs, &b.sigs, sizeof a.sigs), "env:signals", "the mask of blocked signals was changed");
    CHECK(a.cwd == b.cwd, "env:cwd", "the working directory was changed to %s", b.cwd.c_str());
    EV("env.left-as-found");
}

static void run_case(const Module &m, u64 idx)
{
    snprintf(progress->module, sizeof progress->module, "%s", m.name);
    progress->idx = idx;
    progress->a = progress->b = 0;
    progress->seed = opt.seed;
    arm();
    Case c(case_seed(m, idx), idx);
    fill_state = case_seed(m, idx) | 1;
    u64 blocks0 = mem.live_blocks;
    i64 skew0 = mem.skew;
    volatile bool foreign = false;
    if (opt.uninit_mode || (opt.leak_mode && strcmp(m.prop, "C10"))) {
        if (sigsetjmp(foreign_jump, 1) == 0) {
            foreign_armed = true;
            m.cf(c);
        } else {
            foreign = true; // another property's oracle: not ours to report
            n_foreign++;
        }
        foreign_armed = false;
    } else
        in_surroundings(case_seed(m, idx), [&] { m.cf(c); });
    if (opt.uninit_mode) {
        if (foreign)
            mem_forget_all();
        EVN("memcheck.results-used", c.evals + 1);
    }
    if (opt.leak_mode) {
        if (foreign)
            mem_forget_all();
        else {
            i64 out = (i64) mem.live_blocks - (i64) blocks0 + (mem.skew - skew0);
            if (out != 0)
                violate("mem:leak", "%lld blocks outstanding after everything was destroyed",
                        (long long) out);
            if (mem.live_blocks < 64 || idx % 64 == 0)
                mem_check_all();
        }
    } else
        (void) mem_check_all;
    n_cases++;
    n_evals += c.evals;
    if (c.nontrivial) {
        n_nontrivial++;
        if (sigs.size() < 400000)
            sigs.insert(mix64(c.sig ^ (uintptr_t) m.name));
    }
    if (samples.size() < 3 && c.nontrivial && !c.text.empty())
        samples.push_back(std::string(m.name) + ": " + c.text.substr(0, 400));
}

void note_round(u64 idx, u64 evals, u64 sig, const std::string &text)
{
    snprintf(progress->module, sizeof progress->module, "threads");
    progress->idx = idx;
    n_cases++;
    n_evals += evals;
    n_nontrivial++;
    sigs.insert(sig);
    if (samples.size() < 3)
        samples.push_back("threads: " + text);
}

static void run_sweep(const Module &m, unsigned shard, unsigned nshards)
{
    snprintf(progress->module, sizeof progress->module, "%s", m.name);
    progress->idx = shard;
    progress->a = progress->b = 0;
    arm();
    Sweep s;
    s.shard = shard;
    s.nshards = nshards;
    if (opt.uninit_mode) {
        if (sigsetjmp(foreign_jump, 1) == 0) {
            foreign_armed = true;
            m.sf(s);
        } else {
            n_foreign++;
            mem_forget_all();
        }
        foreign_armed = false;
    } else
        in_surroundings(case_seed(m, shard + 1000000), [&] { m.sf(s); });
    n_evals += s.evals;
    exhaustive_sweep |= s.exhaustive;
    static u64 extra;
    extra += s.distinct;
    n_nontrivial += s.distinct;
    progress->started = extra;
    for (auto &x : s.samples)
        if (samples.size() < 6)
            samples.push_back(std::string(m.name) + ": " + x.substr(0, 400));
}

static void write_stats()
{
    ev_flush();
    if (stats_path.empty())
        return;
    FILE *f = fopen(stats_path.c_str(), "w");
    if (!f)
        abort();
    fprintf(f, "{\"cases\":%llu,\"evals\":%llu,\"nontrivial\":%llu,\"sweep_distinct\":%llu,"
               "\"foreign\":%llu,\"allocs\":%llu,\"reallocs\":%llu,\"frees\":%llu,"
               "\"peak_bytes\":%llu,\"direct_malloc\":%llu,\"events\":{",
            (unsigned long long) n_cases, (unsigned long long) n_evals,
            (unsigned long long) n_nontrivial, (unsigned long long) progress->started,
            (unsigned long long) n_foreign, (unsigned long long) mem.allocs,
            (unsigned long long) mem.reallocs, (unsigned long long) mem.frees,
            (unsigned long long) mem.peak_bytes,
            (unsigned long long) direct_malloc_calls);
    bool first = true;
    for (auto &e : ev_total)
        if (e.second) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(e.first).c_str(),
                    (unsigned long long) e.second);
            first = false;
        }
    fprintf(f, "},\"modules\":[");
    for (size_t i = 0; i < ran.size(); i++)
        fprintf(f, "%s%s", i ? "," : "", jstr(ran[i]).c_str());
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++)
        fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "],\"known\":{");
    first = true;
    for (auto &k : known)
        if (k.second) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k.first).c_str(),
                    (unsigned long long) k.second);
            first = false;
        }
    fprintf(f, "}}\n");
    fclose(f);
    f = fopen((stats_path + ".sigs").c_str(), "wb");
    for (u64 s : sigs)
        fwrite(&s, sizeof s, 1, f);
    fclose(f);
}

static void load_dict(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f)
        return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (line[0] == 'i')
            dict.ints.push_back(strtoull(line + 2, nullptr, 0));
        else if (line[0] == 's') {
            std::string s;
            for (char *p = line + 2; p[0] && p[1]; p += 2) {
                char h[3] = {p[0], p[1], 0};
                s += (char) strtol(h, nullptr, 16);
            }
            dict.strs.push_back(s);
        }
    }
    fclose(f);
}
static void load_known(const char *path)
{
    FILE *f = fopen(path, "r");
    if (!f)
        return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (*line)
            known[line] = 0;
    }
    fclose(f);
}

void data_load(const char *path) __attribute__((weak));
void thread_run(i64 only) __attribute__((weak)); // -1: all rounds

int core_main(int argc, char **argv)
{
    std::string only, progress_path;
    u64 only_idx = 0;
    bool has_only = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() -> const char * {
            if (++i >= argc) {
                fprintf(stderr, "missing argument\n");
                exit(2);
            }
            return argv[i];
        };
        if (a == "--prop") opt.prop = next();
        else if (a == "--variant") opt.variant = next();
        else if (a == "--tier") opt.tier = next();
        else if (a == "--seed") opt.seed = strtoull(next(), nullptr, 0);
        else if (a == "--shard") opt.shard = atoi(next());
        else if (a == "--nshards") opt.nshards = atoi(next());
        else if (a == "--scale") opt.scale = atof(next());
        else if (a == "--stats") stats_path = next();
        else if (a == "--report") report_path = next();
        else if (a == "--progress") progress_path = next();
        else if (a == "--dict") load_dict(next());
        else if (a == "--known") load_known(next());
        else if (a == "--data") { const char *p = next(); if (data_load) data_load(p); }
        else if (a == "--only") only = next();
        else if (a == "--idx") { only_idx = strtoull(next(), nullptr, 0); has_only = true; }
        else if (a == "--calm") calm = true;
        else if (a == "--locales") {
            std::stringstream l(next());
            for (std::string x; std::getline(l, x, ',');)
                locales.push_back(x);
        }
        else if (a == "--trace") opt.trace = true;
        else if (a == "--cpu-factor") cpu_factor = atof(next());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (dict.ints.empty())
        dict.ints.push_back(100);
    if (!progress_path.empty()) {
        int fd = open(progress_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 4096) < 0)
            return 2;
        progress = (Progress *) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    opt.leak_mode = opt.prop == "C10";
    opt.thread_mode = opt.prop == "C29";
    opt.uninit_mode = opt.prop == "C38";
    opt.cross_mode = opt.prop == "C39";
    opt.env_mode = opt.prop == "C40";
    if (opt.uninit_mode && !RUNNING_ON_VALGRIND) {
        fprintf(stderr, "not running under memcheck\n");
        return 2;
    }
    struct sigaction sa = {};
    sa.sa_handler = on_hang;
    sigaction(SIGPROF, &sa, nullptr);
    fill_state ^= mix64(opt.seed * 1000 + opt.shard);
    if (opt.thread_mode) {
        arm();
        snprintf(progress->module, sizeof progress->module, "threads");
        ran.push_back("threads");
        thread_run(has_only ? (i64) only_idx : -1);
        write_stats();
        return 0;
    }
    install_monitor();
    gateway_only = opt.leak_mode;
    {
        for (auto &m : modules()) {
            bool in = opt.leak_mode     ? m.own || !strcmp(m.prop, "C10")
                      : opt.uninit_mode ? m.cf ? m.own || m.threads : m.n_asan && strcmp(m.name, "printf_lengths")
                      : opt.cross_mode || opt.env_mode ? m.n_asan != 0 && strcmp(m.name, "printf_lengths")
                                        : opt.prop == m.prop;
            if (!in)
                continue;
            if (!only.empty() && only != m.name)
                continue;
            u64 n = opt.variant == "asan" ? m.n_asan : m.n_plain;
            if (m.sf) {
                if (opt.leak_mode && strcmp(m.prop, "C10"))
                    continue;
                if (!n || (m.thorough_factor == 1 && opt.quick()))
                    continue;
                ran.push_back(m.name);
                run_sweep(m, has_only ? only_idx : opt.shard, opt.nshards);
                continue;
            }
            if (!n)
                continue;
            if (opt.leak_mode && strcmp(m.prop, "C10"))
                n = n / 3 + 1;
            if (opt.cross_mode || opt.env_mode)
                n = m.n_asan / 4 + 40;
            if (opt.uninit_mode)
                n = n / 60 + 40;
            if (!opt.quick())
                n *= opt.uninit_mode && m.thorough_factor > 10 ? 10 : m.thorough_factor;
            n = (u64) (n * opt.scale) + 1;
            ran.push_back(m.name);
            if (has_only) {
                run_case(m, only_idx);
                continue;
            }
            for (u64 i = opt.shard; i < n; i += opt.nshards)
                run_case(m, i);
        }
    }
    struct itimerval it = {};
    setitimer(ITIMER_PROF, &it, nullptr);
    write_stats();
    return 0;
}
