// C25, C27: exact conversion of floating-point patterns; unboxed integers.
#include "core.h"
#include <fsdyn/float.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>

namespace {
// the value of a pattern if it is an integer below 2^65 in magnitude
bool exact(u64 v, __int128 *out)
{
    bool neg = v >> 63;
    int e = (int) (v >> 52 & 2047);
    u64 f = v & 0xfffffffffffffULL;
    if (e == 2047)
        return false;
    if (!e) {
        *out = 0;
        return f == 0;
    }
    u64 m = f | 1ULL << 52;
    int sh = e - 1075; // value = m * 2^sh
    __int128 r;
    if (sh >= 0) {
        if (sh > 13)
            return false; // at least 2^66
        r = (__int128) m << sh;
    } else {
        if (-sh > 52 || (m & ((1ULL << -sh) - 1)))
            return false;
        r = m >> -sh;
    }
    *out = neg ? -r : r;
    return true;
}
void judge(u64 v)
{
    __int128 w;
    bool is = exact(v, &w);
    long long n = 0x5a5a5a5a5a5a5a5aLL;
    bool ok = is && w >= LLONG_MIN && w <= LLONG_MAX;
    unset(&n, sizeof n, ok);
    bool r = binary64_to_integer(v, &n);
    CHECK(r == ok, "float:signed", "pattern %016llx %s as signed", (unsigned long long) v, r ? "accepted" : "refused");
    CHECK(ok ? n == (long long) w : n == 0x5a5a5a5a5a5a5a5aLL, "float:signedvalue", "pattern %016llx gives %lld as signed",
          (unsigned long long) v, n);
    unsigned long long u = 0xa5a5a5a5a5a5a5a5ULL;
    bool oku = is && w >= 0 && w <= (__int128) ULLONG_MAX;
    unset(&u, sizeof u, oku);
    bool ru = binary64_to_unsigned(v, &u);
    CHECK(ru == oku, "float:unsigned", "pattern %016llx %s as unsigned", (unsigned long long) v, ru ? "accepted" : "refused");
    CHECK(oku ? u == (unsigned long long) w : u == 0xa5a5a5a5a5a5a5a5ULL, "float:unsignedvalue", "pattern %016llx gives %llu as unsigned",
          (unsigned long long) v, u);
    if (ok)
        EV("float.signed");
    if (oku)
        EV("float.unsigned");
    if (ok && !oku)
        EV("float.negative");
    if (!ok && !oku)
        EV("float.refused");
}
u64 bits(double d)
{
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}
void float_sweep(Sweep &s)
{
    for (unsigned se = 0; se < 4096; se++) {
        if (!s.mine(se))
            continue;
        s.tick();
        u64 top = (u64) se << 52;
        int e = (int) (se & 2047) - 1023;
        bool dense = e >= -2 && e <= 66;
        auto go = [&](u64 f) {
            judge(top | (f & 0xfffffffffffffULL));
            s.evals += 2;
            s.distinct++;
        };
        go(0);
        go(~0ULL);
        for (int i = 0; i < 52; i++) {
            go(1ULL << i);
            go(~(1ULL << i));
            go(~0ULL << i);
            go((1ULL << i) - 1);
            if (dense)
                for (int j = 0; j < i; j++) {
                    go(1ULL << i | 1ULL << j);
                    go((1ULL << i) - (1ULL << j));
                }
        }
        for (unsigned k = 0; k < (dense ? 20000u : 200u); k++) {
            u64 r = mix64(k + opt.seed * 77777 + ((u64) se << 20));
            go(r << mix64(r) % 53);
            go(r);
        }
    }
    s.sample("every sign and exponent with about 400 to 45000 fractions each");
}
void float_case(Case &c)
{
    Gen &g = c.g;
    for (int i = 0; i < 50; i++) {
        u64 v;
        switch (g.below(6)) {
            case 0: v = g.raw(); break;
            case 1: v = bits((double) (i64) g.value()); break;
            case 2: v = bits((double) g.value()); break;
            case 3: v = bits((double) (i64) g.value()) + g.below(3) - 1; break;
            case 4: v = bits((double) g.range(-4000000000LL, 4000000000LL) / (1 << g.below(4))); break;
            case 5:
                if (g.chance(1, 4)) { // zeros, powers of two, infinities, the least and the greatest of their kinds
                    static const int E[] = {0, 1, 1022, 1023, 1024, 1074, 1075, 1076, 1084, 1085, 1086, 1087, 2046, 2047};
                    v = (g.below(2) << 63) | (u64) E[g.below(14)] << 52 | (g.chance(1, 2) ? 0 : g.chance(1, 2) ? 1 : 0xfffffffffffffULL);
                    break;
                }
                // fall through
            default: v = (g.below(2) << 63) | (u64) (1023 + g.range(-3, 66)) << 52 | (g.raw() << g.below(53) & 0xfffffffffffffULL);
        }
        c.mix(v);
        c.evals += 2;
        judge(v);
        TR("pattern %016llx", (unsigned long long) v);
        if (i == 0)
            c.text = fmtstr("50 patterns, the first %016llx", (unsigned long long) v);
    }
    c.nontrivial = true;
}
// every integer a double holds exactly, small ones all
void float_ints(Sweep &s)
{
    i64 n = opt.quick() ? (opt.asan() ? 1 << 18 : 1 << 22) : (i64) 1 << 28;
    for (i64 i = 0; i < n; i++) {
        if (!s.mine((u64) i >> 10))
            continue;
        if (!(i & 0x3ff))
            s.tick();
        judge(bits((double) i));
        judge(bits((double) -i));
        judge(bits((double) i + 0.5));
        s.evals += 6;
        s.distinct += 3;
    }
    s.sample(fmtstr("every integer below 2^%d and every half between them", 63 - __builtin_clzll(n)));
}

// ---------------------------------------------------------------- C27
int sign(int x) { return x < 0 ? -1 : x > 0; }
void judge_pair(u64 a, u64 b)
{
    const integer_t *ia = as_integer((intptr_t) a), *ib = as_integer((intptr_t) b);
    const unsigned_t *ua = as_unsigned(a), *ub = as_unsigned(b);
    CHECK(as_intptr(ia) == (intptr_t) a && as_uintptr(ua) == a, "int:roundtrip", "value %llx does not survive", (unsigned long long) a);
    CHECK((ia == ib) == (a == b) && (ua == ub) == (a == b), "int:distinct", "objects of %llx and %llx", (unsigned long long) a,
          (unsigned long long) b);
    i64 x = (i64) a, y = (i64) b;
    int w = x < y ? -1 : x > y;
    CHECK(sign(integer_cmp(ia, ib)) == w, "int:signed", "comparison of %lld with %lld is %d", (long long) x, (long long) y,
          integer_cmp(ia, ib));
    w = a < b ? -1 : a > b;
    CHECK(sign(unsigned_cmp(ua, ub)) == w, "int:unsigned", "comparison of %llu with %llu is %d", (unsigned long long) a,
          (unsigned long long) b, unsigned_cmp(ua, ub));
}
std::vector<u64> interesting()
{
    std::set<u64> v;
    for (int i = 0; i < 64; i++)
        for (i64 d = -2; d <= 2; d++) {
            v.insert(((u64) 1 << i) + d);
            v.insert(~(((u64) 1 << i) + d));
        }
    for (i64 d = -40; d <= 40; d++)
        v.insert(d);
    for (u64 x : dict.ints)
        v.insert(x);
    for (int i = 0; i < 40; i++)
        v.insert(mix64(i + opt.seed));
    return std::vector<u64>(v.begin(), v.end());
}
void int_sweep(Sweep &s)
{
    std::vector<u64> v = interesting();
    for (size_t i = 0; i < v.size(); i++) {
        if (!s.mine(i))
            continue;
        s.tick();
        for (size_t j = 0; j < v.size(); j++) {
            judge_pair(v[i], v[j]);
            s.evals += 4;
            s.distinct++;
            EV("int.pair");
            if ((i64) (v[i] ^ v[j]) < 0)
                EV("int.signs");
        }
        u64 h = hash_integer(as_integer((intptr_t) v[i])), k = hash_unsigned(as_unsigned(v[i]));
        for (int r = 0; r < 3; r++)
            CHECK(h == hash_integer(as_integer((intptr_t) v[i])) && k == hash_unsigned(as_unsigned(v[i])), "int:hash",
                  "the hash of %llx changes", (unsigned long long) v[i]);
        EV("int.hash");
    }
    s.sample("every pair of boundary values");
}
u64 hashes[2][64];
void int_case(Case &c)
{
    Gen &g = c.g;
    for (int i = 0; i < 60; i++) {
        u64 a = g.value(), b = g.chance(1, 3) ? a + g.below(5) - 2 : g.chance(1, 4) ? a ^ (u64) 1 << g.below(64) : g.value();
        c.mix(a);
        c.mix(b);
        judge_pair(a, b);
        EV("int.random");
        u64 h = hash_integer(as_integer((intptr_t) a)), k = hash_unsigned(as_unsigned(a));
        (void) hash_integer(as_integer((intptr_t) b));
        (void) hash_unsigned(as_unsigned(b));
        CHECK(h == hash_integer(as_integer((intptr_t) a)) && k == hash_unsigned(as_unsigned(a)), "int:hash", "the hash of %llx changes",
              (unsigned long long) a);
        c.evals += 5;
        if (!i)
            c.text = fmtstr("60 pairs, the first %lld and %lld", (long long) a, (long long) b);
    }
    c.nontrivial = true;
}
} // namespace
REG_SWEEP("C25", float_sweep, float_sweep, 1, 1, 0);
REG_SWEEP("C25", float_ints, float_ints, 1, 1, 0);
REG_CASES("C25", float_random, float_case, 200000, 20000, 50, THR);
REG_SWEEP("C27", int_sweep, int_sweep, 1, 1, 0);
REG_CASES("C27", int_random, int_case, 100000, 20000, 50, THR);
