// C23, C24: date breakdown against an independent calendar, and interrupted
// at every instruction. (Compiled with -mno-red-zone.)
#include "core.h"
#include <fsdyn/date.h>
#include <dlfcn.h>
#include <signal.h>
#include <time.h>
#include <ucontext.h>
#include <algorithm>
#include <clocale>
#include <unistd.h>

namespace {
struct Civil {
    i64 y;
    int mon, mday, wday, h, m, s;
};
i64 floordiv(i64 a, i64 b) { return a / b - (a % b < 0); }
// days since 1970-01-01 of a date, proleptic Gregorian
i64 days_of(i64 y, int mon, int mday)
{
    static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    i64 p = y - 1;
    return 365 * p + floordiv(p, 4) - floordiv(p, 100) + floordiv(p, 400) + cum[mon] + (leap && mon > 1) + mday - 1 - 719162;
}
Civil civil(i64 t)
{
    Civil c;
    i64 d = floordiv(t, 86400), r = t - d * 86400;
    c.h = r / 3600;
    c.m = r / 60 % 60;
    c.s = r % 60;
    c.wday = (int) (((d + 4) % 7 + 7) % 7);
    i64 y;
    // find the year by its first day: 400-year steps, then single years
    y = 1970 + floordiv(d, 146097) * 400;
    while (days_of(y + 1, 0, 1) <= d)
        y++;
    while (days_of(y, 0, 1) > d)
        y--;
    c.y = y;
    int mon = 11;
    while (days_of(y, mon, 1) > d)
        mon--;
    c.mon = mon;
    c.mday = (int) (d - days_of(y, mon, 1)) + 1;
    return c;
}
bool fits(i64 y) { return y - 1900 >= INT_MIN && y - 1900 <= INT_MAX; }
bool same(const struct tm &t, const Civil &c)
{
    return t.tm_year == c.y - 1900 && t.tm_mon == c.mon && t.tm_mday == c.mday && t.tm_wday == c.wday && t.tm_hour == c.h &&
        t.tm_min == c.m && t.tm_sec == c.s && t.tm_isdst == 0;
}
void judge(i64 t, const Civil &c)
{
    struct tm tm;
    static thread_local u8 fill;
    memset(&tm, fill++, sizeof tm);
    unset(&tm, sizeof tm);
    struct tm *r = epoch_to_utc((time_t) t, &tm);
    CHECK(r == &tm, "date:pointer", "the structure returned is not the one given");
    CHECK(same(tm, c), "date:wrong", "epoch %lld gives %lld-%02d-%02d %02d:%02d:%02d wday %d dst %d, expected %lld-%02d-%02d "
          "%02d:%02d:%02d wday %d", (long long) t, (long long) tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min,
          tm.tm_sec, tm.tm_wday, tm.tm_isdst, (long long) c.y, c.mon + 1, c.mday, c.h, c.m, c.s, c.wday);
    EV("date.call");
}
// the extreme seconds of the domain; the sanitizer build stays some centuries
// off the ends
i64 lowest() { return days_of((i64) INT_MIN + 1900 + (opt.asan() ? 900 : 0), 0, 1) * 86400; }
i64 highest() { return days_of((i64) INT_MAX + 1900 - (opt.asan() ? 900 : 0), 11, 31) * 86400 + 86399; }

void day_sweep(Sweep &s)
{
    // every day of 10000 years around now, and of 800 years at both ends
    static const int L[2][12] = {{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}, {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}};
    auto years = [&](i64 from, i64 to) {
        for (i64 y = from; y <= to; y++) {
            if (!s.mine((u64) y))
                continue;
            s.tick();
            bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
            i64 d = days_of(y, 0, 1);
            for (int mon = 0; mon < 12; mon++)
                for (int md = 1; md <= L[leap][mon]; md++, d++) {
                    int wd = (int) (((d + 4) % 7 + 7) % 7);
                    judge(d * 86400, {y, mon, md, wd, 0, 0, 0});
                    judge(d * 86400 + 86399, {y, mon, md, wd, 23, 59, 59});
                    int r = (int) (mix64((u64) d + opt.seed * 1000003) % 86400);
                    judge(d * 86400 + r, {y, mon, md, wd, r / 3600, r / 60 % 60, r % 60});
                    s.evals += 3;
                    s.distinct++;
                }
        }
    };
    years(opt.quick() ? -1200 : -20000, opt.quick() ? 10400 : 30000);
    years(floordiv(lowest(), 31556952) + 1970 + 3, floordiv(lowest(), 31556952) + 1970 + 803);
    years(floordiv(highest(), 31556952) + 1970 - 803, floordiv(highest(), 31556952) + 1970 - 3);
    // every second of some days
    for (int k = 0; k < 16; k++) {
        if (!s.mine(k))
            continue;
        s.tick();
        static const i64 D[] = {0, -1, 59, 60, 11016, 11017, 24855, 49709, -25509, 19000, -719162, 47540, 47541, 2932896, -135140, 365};
        Civil c = civil(D[k] * 86400);
        for (int t = 0; t < 86400; t++) {
            c.h = t / 3600;
            c.m = t / 60 % 60;
            c.s = t % 60;
            judge(D[k] * 86400 + t, c);
            s.evals++;
        }
        s.distinct++;
    }
    s.sample("first, last and a random second of every day of 11600 years and of 800 years at both ends of the domain");
}
void edge_sweep(Sweep &s)
{
    s.tick();
    std::vector<i64> v = {lowest(), highest(), INT_MIN, INT_MAX, (i64) UINT_MAX, 0, -1, 1, -86400, 86399, 86400, 951782400, 4107542400};
    for (int b = 20; b < 57; b++)
        for (i64 d : {-1, 0, 1, -86400, 86399, 86400}) {
            v.push_back(((i64) 1 << b) + d);
            v.push_back(-((i64) 1 << b) + d);
        }
    for (i64 q = -40; q <= 40; q++)
        for (i64 d = -2; d <= 2; d++) {
            v.push_back(((i64) INT_MAX * 86400 * (q / 10)) + d + q * 86400);
            v.push_back((i64) q * 146097 * 86400 + d - 135080 * (i64) 86400);
        }
    for (i64 x : v)
        if (x >= lowest() && x <= highest()) {
            judge(x, civil(x));
            s.evals++;
            s.distinct++;
        }
}
void date_case(Case &c)
{
    Gen &g = c.g;
    static const char *const TZS[] = {"UTC", "Europe/Helsinki", "America/New_York", "Asia/Kolkata", "XXX-13:30YYY,M3.2.0,M11.1.0", "right/UTC",
                                      "AAA+24", ":/nonexistent"};
    const char *tz = TZS[g.below(8)];
    if (!opt.thread_mode && !opt.env_mode && g.chance(1, 10)) {
        setenv("TZ", tz, 1);
        tzset();
        EV("date.tz");
    }
    for (int i = 0; i < 30; i++) {
        i64 t;
        switch (g.below(6)) {
            case 0: t = g.range(lowest(), highest()); break;
            case 1: t = (i64) g.value() % highest(); break;
            case 2: t = (i64) g.raw() >> (8 + g.below(50)); break;
            case 3: { // around a turn of the year, of February, of a century
                i64 y = g.chance(1, 2) ? g.range(1600, 2500) / 100 * 100 + g.below(2) : g.range(-5000, 12000);
                t = days_of(y, g.chance(1, 2) ? 1 : 11, g.chance(1, 2) ? 28 : 27) * 86400 + (i64) g.below(5 * 86400);
                break;
            }
            case 4: t = (i64) (g.pick(dict.ints) * (g.chance(1, 2) ? 86400 : 1)) * (g.chance(1, 2) ? 1 : -1) + g.range(-2, 2); break;
            default: t = g.range(-4000000000LL, 8000000000LL);
        }
        if (t < lowest() || t > highest())
            t %= (i64) 1 << 50;
        Civil w = civil(t);
        c.mix(t);
        c.evals++;
        TR("epoch %lld", (long long) t);
        judge(t, w);
        if (t < 0)
            EV("date.negative");
        if (w.mon == 1 && w.mday == 29)
            EV("date.leapday");
        if (w.y > 5000000 || w.y < -5000000)
            EV("date.far");
    }
    c.nontrivial = true;
    c.text = "30 epochs in a random time zone";
}

// ---------------------------------------------------------------- C24
struct Step {
    u64 steps, nested;
    bool inside, bad_result, bad_errno;
    const void *bad_call;
    bool was_own;
    i64 other[4];
    Civil want[4];
    u64 mask, only; // at which instructions to interrupt
    i64 bad_other;
    int bad_errno_value;
    struct tm got;
} st;
std::vector<const void *> allowed;
extern "C" char __executable_start, etext;
bool own_code(const void *p) { return p >= (void *) &__executable_start && p < (void *) &etext; }
void on_trap(int, siginfo_t *, void *u)
{
    ucontext_t *uc = (ucontext_t *) u;
    const void *ip = (const void *) uc->uc_mcontext.gregs[REG_RIP];
    st.steps++;
    bool own = own_code(ip);
    if (!own && st.was_own && !std::binary_search(allowed.begin(), allowed.end(), ip) && !st.bad_call)
        st.bad_call = ip;
    st.was_own = own;
    if (st.only ? st.steps != st.only : !(st.mask >> (st.steps & 63) & 1))
        return;
    int e = errno;
    struct tm tm;
    memset(&tm, 0xa5, sizeof tm);
    int k = st.nested++ & 3;
    if (epoch_to_utc((time_t) st.other[k], &tm) != &tm || !same(tm, st.want[k])) {
        st.bad_result = true;
        st.bad_other = st.other[k];
        st.got = tm;
    }
    if (errno != e) {
        st.bad_errno = true;
        st.bad_errno_value = errno;
        errno = e;
    }
}
__attribute__((noinline)) struct tm *stepped(time_t t, struct tm *tm)
{
    struct tm *r;
    asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
    r = epoch_to_utc(t, tm);
    asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
    return r;
}
void setup_step()
{
    static bool done;
    if (done)
        return;
    done = true;
    static const char *const SAFE[] = {
        "memccpy", "memchr", "memcmp", "memcpy", "memmove", "memset", "stpcpy", "stpncpy", "strcat", "strchr", "strcmp", "strcpy",
        "strcspn", "strlen", "strncat", "strncmp", "strncpy", "strnlen", "strpbrk", "strrchr", "strspn", "strstr", "abs", "labs",
        "llabs", "div", "ldiv", "lldiv", "__memcpy_chk", "__memset_chk", "__memmove_chk", "mempcpy", "bcopy", "bzero", "ffs",
        "__errno_location", "clock_gettime", "time", "floor", "fmod", "htonl", "ntohl"};
    for (const char *n : SAFE)
        if (void *p = dlsym(RTLD_DEFAULT, n))
            allowed.push_back(p);
    std::sort(allowed.begin(), allowed.end());
    struct sigaction sa = {};
    sa.sa_sigaction = on_trap;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGTRAP, &sa, nullptr);
}
i64 rnd_epoch(Gen &g)
{
    switch (g.below(4)) {
        case 0: return g.range(-(i64) 1 << 40, (i64) 1 << 40);
        case 1: return g.range(-(i64) 1 << 33, (i64) 1 << 33);
        case 2: return days_of(g.range(0, 4000), 1, 28) * 86400 + (i64) g.below(3 * 86400);
        default: return g.range(0, 4000000000LL);
    }
}
void signal_case(Case &c)
{
    Gen &g = c.g;
    setup_step();
    static u64 typical = 60;
    i64 last = 0;
    for (int i = 0; i < 4; i++) {
        i64 t = i && g.chance(1, 3) ? last + g.range(-90000, 90000) : rnd_epoch(g);
        last = t;
        c.mix(t);
        Civil w = civil(t);
        st = Step();
        for (int k = 0; k < 4; k++) {
            switch (g.below(4)) {
                case 0: st.other[k] = t; break;                          // the same time
                case 1: st.other[k] = t + g.range(-90000, 90000); break; // a day or so away
                default: st.other[k] = rnd_epoch(g);
            }
            st.want[k] = civil(st.other[k]);
            c.mix(st.other[k]);
        }
        // at every instruction, at one, or at some
        switch (g.below(4)) {
            case 0: st.only = 2 + g.below(typical); break;
            case 1: st.mask = g.raw(); break;
            default: st.mask = ~(u64) 0;
        }
        c.mix(st.only ^ st.mask);
        i64 other = st.other[0];
        struct tm tm;
        memset(&tm, 0x3c, sizeof tm);
        u64 allocs = mem.allocs + mem.frees + mem.reallocs + direct_malloc_calls;
        int sentinel = 10000 + (int) g.below(1000);
        errno = sentinel;
        st.was_own = true;
        struct tm *r = stepped((time_t) t, &tm);
        int err = errno;
        u64 allocs2 = mem.allocs + mem.frees + mem.reallocs + direct_malloc_calls;
        EVN("signal.instructions", st.steps);
        EVN("signal.nested", st.nested);
        EV("signal.call");
        TR("epoch %lld interrupted at %llu instructions for %lld", (long long) t, (unsigned long long) st.steps, (long long) other);
        if (st.bad_call) {
            Dl_info di;
            const char *n = dladdr(st.bad_call, &di) && di.dli_sname ? di.dli_sname : "?";
            violate("signal:call", "the date breakdown calls a function that is not known to be async-signal-safe (near %s of %s)",
                    n, di.dli_fname ? di.dli_fname : "?");
        }
        CHECK(!st.bad_result, "signal:nested", "the interrupting call for %lld gave a wrong result (%d-%d-%d) while %lld was being "
              "broken down", (long long) st.bad_other, st.got.tm_year + 1900, st.got.tm_mon + 1, st.got.tm_mday, (long long) t);
        CHECK(!st.bad_errno && err == sentinel, "signal:errno", "errno was changed");
        CHECK(allocs == allocs2, "signal:alloc", "an allocator was called");
        CHECK(r == &tm && same(tm, w), "signal:outer", "the interrupted call for %lld gave a wrong result (%d-%d-%d %d:%d:%d), "
              "interrupted for %lld", (long long) t, tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec,
              (long long) other);
        if (st.steps < 10) {
            fprintf(stderr, "single-stepping does not work here\n");
            _exit(12);
        }
        typical = st.steps;
        c.evals += st.nested;
    }
    c.nontrivial = true;
    c.text = fmtstr("four calls of %llu instructions, interrupted by other calls at all, some or one of them", (unsigned long long) st.steps);
}
} // namespace
REG_SWEEP("C23", date_days, day_sweep, 1, 1, 0);
REG_SWEEP("C23", date_edges, edge_sweep, 1, 1, 0);
REG_CASES("C23", date_random, date_case, 40000, 8000, 30, THR);
REG_CASES("C24", date_signal, signal_case, 16000, 0, 20, 0);
