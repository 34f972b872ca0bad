// C28: formatted strings against the C library's vsnprintf.
#include "core.h"
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <clocale>
#include <deque>
#include <memory>

namespace {
bool scramble; // the reallocator disturbs errno, as it may
fs_realloc_t monitor;
void *scrambling(void *p, size_t n)
{
    void *r = monitor(p, n);
    if (scramble)
        errno = 71;
    return r;
}
struct Out {
    bool null;
    int err;
    std::string s;
};
// what the C library prints
Out oracle(const char *fmt, ...)
{
    Out o = {true, 0, ""};
    int e = errno;
    va_list ap, cp;
    va_start(ap, fmt);
    va_copy(cp, ap);
    int n = vsnprintf(nullptr, 0, fmt, cp);
    va_end(cp);
    if (n >= 0) {
        o.null = false;
        o.s.resize((size_t) n + 1);
        errno = e;
        vsnprintf(&o.s[0], (size_t) n + 1, fmt, ap);
        o.s.resize(n);
    }
    va_end(ap);
    errno = e;
    return o;
}
Out take(char *p, int err)
{
    Out o = {!p, err, ""};
    if (p) {
        size_t size;
        if (!mem_is_live(p, &size))
            violate("printf:block", "the result is not a block of the reallocator");
        const void *z = memchr(p, 0, size);
        o.s = std::string(p, p + size); // the embedded NUL of %c belongs to it
        if (!z)
            violate("printf:nul", "the result is not NUL-terminated");
        fsfree(p);
    }
    return o;
}
Out by_v(Out *again, const char *fmt, ...)
{
    int e0 = errno;
    va_list ap, cp;
    va_start(ap, fmt);
    va_copy(cp, ap);
    char *p = charstr_vprintf(fmt, ap);
    int e = errno;
    Out o = take(p, e);
    va_end(ap);
    // a copy taken before is still good
    errno = e0;
    char *q = charstr_vprintf(fmt, cp);
    int e2 = errno;
    *again = take(q, e2);
    va_end(cp);
    return o;
}
// fmt is one string for all of them
void judge(const std::string &shown, const Out &want, const Out &got, const char *who)
{
    if (want.null) {
        CHECK(got.null, "printf:accepted", "%s(\"%s\") gives a string though the C library refuses it", who, shown.c_str());
        CHECK(got.err == EILSEQ, "printf:errno", "%s(\"%s\") refused with errno %d", who, shown.c_str(), got.err);
        EV("printf.refused");
        return;
    }
    CHECK(!got.null, "printf:null", "%s(\"%s\") gives NULL", who, shown.c_str());
    CHECK(got.s.size() > want.s.size() && !memcmp(got.s.data(), want.s.c_str(), want.s.size() + 1), "printf:differs",
          "%s(\"%s\") gives \"%.200s\" (%zu bytes allocated), expected \"%.200s\" (%zu)", who, shown.c_str(), got.s.c_str(), got.s.size(),
          want.s.c_str(), want.s.size());
}
#define TRY(...)                                                        \
    do {                                                                \
        errno = err0;                                                   \
        Out want_ = oracle(__VA_ARGS__);                                \
        errno = err0;                                                   \
        char *p_ = charstr_printf(__VA_ARGS__);                         \
        int e_ = errno;                                                 \
        judge(show, want_, take(p_, e_), "charstr_printf");             \
        errno = err0;                                                   \
        Out again_;                                                     \
        judge(show, want_, by_v(&again_, __VA_ARGS__), "charstr_vprintf"); \
        judge(show, want_, again_, "charstr_vprintf again");            \
        len = want_.null ? 0 : want_.s.size();                          \
    } while (0)

enum { MAXARG = 7 };
struct Args {
    int n = 0;
    char kind[MAXARG];
    u64 i[MAXARG];
    double d[MAXARG];
    bool full() const { return n >= MAXARG - 3; }
    void num(u64 v) { kind[n] = 'i'; i[n++] = v; }
    void dbl(double v) { kind[n] = 'd'; d[n++] = v; }
};
int err0;
size_t len;
template <class... A> void go(const char *fmt, const std::string &show, const Args &a, int at, A... x)
{
    if constexpr (sizeof...(A) < MAXARG) {
        if (at < a.n) {
            if (a.kind[at] == 'd')
                go(fmt, show, a, at + 1, x..., a.d[at]);
            else
                go(fmt, show, a, at + 1, x..., a.i[at]);
            return;
        }
    }
    TRY(fmt, x...);
}
std::string rnd_text(Gen &g, size_t n)
{
    std::string s(n, 0);
    for (auto &ch : s)
        ch = (char) (g.chance(1, 4) ? 1 + g.below(255) : 32 + g.below(95));
    return s;
}
void format_case(Case &c)
{
    Gen &g = c.g;
    if (!opt.env_mode)
        setlocale(LC_ALL, g.chance(1, 3) ? "C.UTF-8" : "C");
    monitor = fs_get_reallocator();
    scramble = g.chance(1, 2);
    if (scramble)
        fs_set_reallocator(scrambling);
    Args a;
    std::string f;
    std::deque<std::string> strs;
    std::deque<std::unique_ptr<Exact>> bufs;
    std::deque<std::wstring> wide;
    int parts = g.below(7);
    bool longish = g.chance(1, 30);
    for (int k = 0; k < parts && !a.full(); k++) {
        if (g.chance(1, 2)) {
            std::string t = rnd_text(g, g.chance(1, 10) ? g.size(5000) : g.below(12));
            for (char &ch : t)
                if (ch == '%')
                    ch = '_';
            f += t;
        }
        if (g.chance(1, 12)) {
            f += "%%";
            continue;
        }
        f += '%';
        if (g.chance(1, 8)) { // a plain conversion
            switch (g.below(5)) {
                case 0: {
                    f += 's';
                    std::string t = rnd_text(g, g.below(40));
                    bufs.emplace_back(new Exact(t.c_str(), t.size() + 1));
                    a.num(g.chance(1, 2) ? 0 : (u64) bufs.back()->p);
                    break;
                }
                case 1: f += 'p'; a.num(g.chance(1, 2) ? 0 : g.value()); break;
                case 2: f += 'c'; a.num(g.below(256)); break;
                case 3: f += "ls"; a.num(0); break;
                default: f += "diouxX"[g.below(6)]; a.num(g.value());
            }
            EV("printf.plain");
            continue;
        }
        static const char FL[] = "-+ #0'";
        for (int j = g.below(3); j > 0; j--)
            f += FL[g.below(6)];
        u64 w = longish ? g.below(300000) : g.below(60);
        bool precision = false;
        u64 prec = 0;
        switch (g.below(6)) {
            case 0:
                f += '*';
                a.num(g.chance(1, 4) ? (u64) -(i64) w : w);
                break;
            case 1: case 2:
                f += std::to_string(w + 1);
                break;
        }
        switch (g.below(6)) {
            case 0:
                f += ".*";
                prec = g.below(longish ? 100000 : 30);
                precision = !g.chance(1, 5);
                a.num(precision ? prec : (u64) -1 - prec);
                break;
            case 1:
                prec = g.below(longish ? 100000 : 30);
                precision = true;
                f += "." + std::to_string(prec);
                break;
            case 2:
                if (g.chance(1, 3)) {
                    f += '.';
                    precision = true;
                }
                break;
        }
        static const char *const LEN[] = {"", "", "hh", "h", "l", "ll", "j", "z", "t"};
        switch (g.below(9)) {
            case 0: case 1:
                f += LEN[g.below(9)];
                f += "diouxX"[g.below(6)];
                a.num(g.value());
                EV("printf.int");
                break;
            case 2: {
                f += "fFeEgGaA"[g.below(8)];
                double d;
                u64 v = g.value();
                if (g.chance(1, 2))
                    memcpy(&d, &v, 8);
                else
                    d = (double) (i64) v / (double) (1 + g.below(1000));
                if (!longish && (d > 1e60 || d < -1e60) && g.chance(3, 4))
                    d = 1 / d;
                a.dbl(d);
                EV("printf.double");
                break;
            }
            case 3: case 4: case 5: {
                f += 's';
                std::string t = rnd_text(g, g.chance(1, 12) ? g.size(longish ? 500000 : 9000) : g.below(40));
                if (precision && t.size() >= prec && prec > 0) {
                    t.resize(prec); // no NUL within the precision
                    bufs.emplace_back(new Exact(t));
                    EV("printf.bounded");
                } else
                    bufs.emplace_back(new Exact(t.c_str(), t.size() + 1));
                if (g.chance(1, 25)) {
                    a.num(0); // (null)
                    EV("printf.null");
                } else
                    a.num((u64) bufs.back()->p);
                EV("printf.string");
                break;
            }
            case 6:
                f += 'c';
                a.num(1 + g.below(255));
                break;
            case 7:
                if (g.chance(1, 3)) {
                    f += 'p';
                    a.num(g.value());
                } else if (g.chance(1, 2)) {
                    f += 'm'; // glibc: the message of errno
                    EV("printf.errno");
                } else {
                    f += "lc";
                    a.num(g.chance(1, 2) ? 1 + g.below(127) : 0x80 + g.below(0x11ff00));
                    EV("printf.wide");
                }
                break;
            default: {
                f += "ls";
                std::wstring t;
                for (int j = g.below(10); j > 0; j--)
                    t += (wchar_t) (g.chance(4, 5) ? 1 + g.below(127) : 0x80 + g.below(0x2000));
                wide.push_back(t);
                a.num((u64) wide.back().c_str());
                EV("printf.wide");
            }
        }
    }
    if (g.chance(1, 30))
        f += "%"; // incomplete
    if (g.chance(1, 40))
        f += "%99999999999d"; // a width beyond all limits
    err0 = g.below(130);
    std::string show = f.substr(0, 300);
    c.mixs(f);
    TR("format \"%s\" with %d arguments%s", f.c_str(), a.n, scramble ? ", scrambled errno" : "");
    ExactZ fmt(f);
    go(fmt.p, show, a, 0);
    CHECK(fmt.unchanged(), "printf:format", "the format was changed");
    for (auto &b : bufs)
        CHECK(b->unchanged(), "printf:args", "an argument was changed");
    if (a.n > 5)
        EV("printf.manyargs");
    if (len > 100000)
        EV("printf.long");
    if (!len)
        EV("printf.empty");
    EV("printf.call");
    scramble = false;
    install_monitor();
    if (!opt.env_mode)
        setlocale(LC_ALL, "C");
    c.nontrivial = a.n > 0;
    c.evals = 3;
    c.text = fmtstr("format of %zu bytes with %d arguments, %zu bytes printed", f.size(), a.n, len);
}
void literal_sweep(Sweep &s)
{
    if (s.shard)
        return;
    s.tick();
    err0 = 3;
    std::string show = "literal";
    TRY("");
    TRY("%%");
    TRY("plain text");
    TRY("%s", "");
    TRY("%s", (const char *) nullptr);
    TRY("[%s]", (const char *) nullptr);
    TRY("%p", (void *) nullptr);
    TRY("%c", 0);
    TRY("%d", -1);
    TRY("%.0s|", "abc");
    TRY("%c%c%c|", 'a', 0, 'b');
    TRY("%Lf %Le %La %.30Lg", 1.25L, 1e4000L, 0.1L, 3.0L);
    TRY("%2$s %1$d %2$s", 42, "x");
    TRY("%d %d %d %d %d %d %d %d %f %f %f %f %f %f %f %f %f %f %Lf %d", 1, 2, 3, 4, 5, 6, 7, 8, 1., 2., 3., 4., 5., 6., 7., 8., 9., 10.,
        11.0L, 12);
    TRY("%y %! %", 1);
    TRY("%ls", L"\x100");
    TRY("%lc", (wint_t) 0xd800);
    TRY("%2147483647d%d", 1, 2);
    TRY("%99999999999999999999d", 1);
    TRY("%.99999999999999999999d", 1);
    int n1 = 0, n2 = 0;
    char *p = charstr_printf("ab%ncd%n", &n1, &n2);
    CHECK(p && !strcmp(p, "abcd") && n1 == 2 && n2 == 4, "printf:n", "%%n is not honoured");
    fsfree(p);
    for (size_t L = 0; L < 20000; L += L < 5000 ? 1 : 61) {
        std::string t(L, 'x');
        show = fmtstr("%%s of %zu", L);
        TRY("%s", t.c_str());
        show = fmtstr("%%*d of %zu", L);
        TRY("%*d", (int) L, 5);
        s.evals += 4;
        s.distinct += 2;
    }
    for (size_t L = 1 << 15; L <= (size_t) 1 << 24; L *= 2)
        for (int d = -2; d < 3; d++) {
            s.tick();
            show = fmtstr("%%*s of %zu", L + d);
            TRY("%*s", (int) (L + d), "z");
            s.evals += 2;
            s.distinct++;
        }
    EV("printf.lengths");
    s.sample("result lengths 0 to 5000, to 20000 in steps, and around the powers of two to 2^24");
}
// results near the limit of 2^31 - 1 characters
void huge_sweep(Sweep &s)
{
    if (s.shard > 1)
        return;
    s.tick();
    if (s.shard == 0) {
        const int W = INT_MAX - 100;
        char *p = charstr_printf("%*d%s", W, 7, "tail-of-the-result");
        CHECK(p, "printf:null", "a result of %d bytes: NULL", W + 18);
        size_t L = strlen(p);
        CHECK(L == (size_t) W + 18 && p[W - 1] == '7' && p[0] == ' ' && p[W / 2] == ' ' && !strcmp(p + W, "tail-of-the-result"),
              "printf:differs", "a result of %d bytes is wrong (%zu bytes)", W + 18, L);
        fsfree(p);
        EV("printf.huge");
    } else {
        // beyond INT_MAX: refused
        errno = 0;
        char *p = charstr_printf("%*d%*d", INT_MAX - 100, 1, 200, 2);
        CHECK(!p && errno == EILSEQ, "printf:accepted", "a result of more than INT_MAX bytes is not refused with EILSEQ");
        EV("printf.toolong");
    }
    s.evals++;
    s.distinct++;
    s.sample("a result of 2^31 - 83 bytes; one too long");
}
} // namespace
REG_CASES("C28", printf_formats, format_case, 60000, 15000, 40, OWN);
REG_SWEEP("C28", printf_lengths, literal_sweep, 1, 1, 0);
REG_SWEEP("C28", printf_huge, huge_sweep, 1, 0, 0);
