// C06: bounded integer set against a bit vector.
#include "core.h"
#include <fsdyn/intset.h>

namespace {
struct Rig {
    Case &c;
    Gen &g;
    intset_t *s;
    size_t size;
    std::vector<bool> m;
    Rig(Case &cc, size_t n) : c(cc), g(cc.g), size(n), m(n, false)
    {
        TR("make_intset(%zu)", n);
        s = make_intset(n);
    }
    i64 next(u64 from, bool hit)
    {
        for (u64 i = from; i < size; i++)
            if (m[i] == hit)
                return i;
        return -1;
    }
    void has(unsigned e)
    {
        EV("intset.has");
        bool w = e < size && m[e];
        CHECK(intset_has(s, e) == w, "intset:has", "has(%u) is %d in a set of size %zu, expected %d", e, !w, size, w);
    }
    void find(unsigned e)
    {
        EVN("intset.find", 2);
        i64 w = next(e, true);
        int r = intset_find_next_hit(s, e);
        CHECK(r == w, "intset:hit", "find_next_hit(%u) is %d in a set of size %zu, expected %lld", e, r, size, (long long) w);
        w = next(e, false);
        r = intset_find_next_miss(s, e);
        CHECK(r == w, "intset:miss", "find_next_miss(%u) is %d in a set of size %zu, expected %lld", e, r, size, (long long) w);
    }
    void empty()
    {
        bool w = next(0, true) < 0;
        CHECK(intset_empty(s) == w, "intset:empty", "emptiness is %d in a set of size %zu", !w, size);
    }
    void add(unsigned e)
    {
        TR("add %u", e);
        EV("intset.add");
        if (e >= size)
            EV("intset.add.outside");
        intset_add(s, e);
        if (e < size)
            m[e] = true;
    }
    void remove(unsigned e)
    {
        TR("remove %u", e);
        EV("intset.remove");
        intset_remove(s, e);
        if (e < size)
            m[e] = false;
    }
    void fill()
    {
        TR("fill");
        EV("intset.fill");
        intset_fill(s);
        m.assign(size, true);
    }
    void all(size_t step = 1)
    {
        for (size_t i = 0; i < size; i += step)
            has(i);
        for (unsigned k = 0; k < 130; k++)
            has(size + k);
        empty();
    }
    void all_finds()
    {
        // linear reference: from the end
        i64 hit = -1, miss = -1;
        for (unsigned k = 0; k < 70; k++)
            find(size + k);
        // Searches may be linear in the distance covered: once much of it is
        // covered, only the neighbourhoods of members, gaps and words count.
        u64 covered = 0, done = 0;
        size_t turn = 0;
        for (size_t i = size; i-- > 0;) {
            if (i + 1 < size && m[i] != m[i + 1])
                turn = i + 1;
            (m[i] ? hit : miss) = i;
            i64 next = m[i] ? miss : hit;
            covered += (next < 0 ? (i64) size : next) - (i64) i;
            if (covered > 4000000 && !(turn && turn - i < 4) && i % 1024 > 1 && i > 130 && !g.chance(1, 400))
                continue;
            done++;
            CHECK(intset_find_next_hit(s, i) == hit, "intset:hit", "find_next_hit(%zu) is %d in a set of size %zu, expected %lld",
                  i, intset_find_next_hit(s, i), size, (long long) hit);
            CHECK(intset_find_next_miss(s, i) == miss, "intset:miss",
                  "find_next_miss(%zu) is %d in a set of size %zu, expected %lld", i, intset_find_next_miss(s, i), size,
                  (long long) miss);
        }
        EVN("intset.find", 2 * done);
    }
    unsigned elem()
    {
        switch (g.below(8)) {
            case 0: return (unsigned) g.value();
            case 1: return (unsigned) (size + g.below(140) - 5);
            case 2: return (unsigned) (g.below(size / 64 + 1) * 64 + g.below(3) - 1);
            case 3: return (unsigned) g.size(size);
            default: return (unsigned) g.below(size + 1);
        }
    }
};
void history(Case &c)
{
    Gen &g = c.g;
    size_t size = g.chance(3, 4) ? g.size(400) : g.size(opt.asan() ? 20000 : 70000);
    Rig r(c, size);
    r.empty();
    u64 ops = 5 + g.below(size < 500 ? 80 : 150);
    unsigned bias = 50;
    c.mix(size);
    for (u64 i = 0; i < ops; i++) {
        if (i % 20 == 0)
            bias = g.below(100);
        unsigned w = g.below(100), e = r.elem();
        c.mix((u64) w << 32 ^ e);
        if (w < 45) {
            if (g.below(100) < bias)
                r.add(e);
            else
                r.remove(e);
            r.has(e);
            if (e)
                r.has(e - 1);
            r.has(e + 1);
        } else if (w < 47)
            r.fill();
        else if (w < 55) {
            unsigned a = r.elem(), len = g.below(140);
            bool on = g.chance(1, 2);
            for (unsigned k = 0; k < len; k++)
                on ? r.add(a + k) : r.remove(a + k);
        } else {
            r.find(e);
            r.has(e);
        }
        if (size <= 200) {
            r.all();
            r.all_finds();
        } else if (w >= 97)
            r.empty();
    }
    r.all();
    r.all_finds();
    c.nontrivial = size > 0;
    c.text = fmtstr("set of size %zu, %llu operations", size, (unsigned long long) ops);
    destroy_intset(r.s);
}
// every size 0..N: each single member / single non-member, all finds
void sizes(Sweep &s)
{
    size_t N = opt.asan() ? 140 : opt.quick() ? 330 : 1200;
    for (size_t n = 0; n <= N; n++) {
        if (!s.mine(n))
            continue;
        s.tick();
        s.where(n);
        Case c(n, n);
        {
            Rig r(c, n);
            r.all();
            r.all_finds();
            for (size_t i = 0; i < n; i++) {
                r.add(i);
                r.all_finds();
                r.empty();
                r.remove(i);
            }
            r.all();
            r.fill();
            r.all();
            r.all_finds();
            for (unsigned e : {(unsigned) n, (unsigned) n + 1, (unsigned) n + 63, (unsigned) n + 64, UINT_MAX,
                               UINT_MAX - 63, 0x80000000u, 0x80000000u + (unsigned) n}) {
                r.add(e);
                r.has(e);
                r.remove(e);
                r.has(e);
                r.find(e);
            }
            r.all_finds();
            for (size_t i = 0; i < n; i++) {
                r.remove(i);
                r.all_finds();
                r.add(i);
            }
            r.all();
            for (size_t i = 0; i < n; i++)
                r.remove(i);
            r.all();
            r.all_finds();
            destroy_intset(r.s);
        }
        s.evals += n * n + 1;
        s.distinct++;
        s.sample(fmtstr("size %zu: every single member and every single gap, all searches", n));
    }
}
// huge sets, judged at chosen places
void huge(Sweep &s)
{
    s.exhaustive = false;
    static const size_t sizes[] = {(size_t) INT_MAX, ((size_t) 1 << 30) + 17, 65536 * 64, (1 << 24) - 1};
    for (unsigned j = 0; j < 4; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        size_t n = sizes[j];
        intset_t *t = make_intset(n);
        CHECK(intset_empty(t), "intset:empty", "a new set of size %zu is not empty", n);
        CHECK(intset_find_next_miss(t, 0) == 0, "intset:miss", "find_next_miss(0) wrong in a new set of size %zu", n);
        std::vector<unsigned> pts = {0, 1, 63, 64, 65, 65535, 65536, 1u << 20, (unsigned) (n / 2), (unsigned) (n - 130),
                                     (unsigned) (n - 65), (unsigned) (n - 2), (unsigned) (n - 1)};
        for (unsigned p : pts) {
            intset_add(t, p);
            CHECK(intset_has(t, p), "intset:has", "element %u missing in a set of size %zu", p, n);
            CHECK(intset_find_next_hit(t, 0) == 0 || p, "intset:hit", "find_next_hit(0) wrong");
        }
        for (size_t i = 0; i + 1 < pts.size(); i++)
            CHECK(intset_find_next_hit(t, pts[i] + 1) == (int) pts[i + 1], "intset:hit",
                  "find_next_hit(%u) wrong in a set of size %zu", pts[i] + 1, n);
        CHECK(intset_find_next_hit(t, n) == -1 && !intset_has(t, n), "intset:hit", "member outside a set of size %zu", n);
        s.tick();
        for (unsigned p : pts)
            intset_remove(t, p);
        CHECK(intset_empty(t), "intset:empty", "the emptied set of size %zu is not empty", n);
        intset_fill(t);
        s.tick();
        CHECK(intset_find_next_miss(t, 0) == -1, "intset:miss", "a filled set of size %zu lacks an element", n);
        for (unsigned p : pts)
            CHECK(intset_has(t, p), "intset:has", "element %u missing in a filled set of size %zu", p, n);
        CHECK(!intset_has(t, n) && !intset_has(t, n + 1), "intset:has", "member outside a filled set");
        for (unsigned p : pts)
            intset_remove(t, p);
        for (size_t i = 0; i + 1 < pts.size(); i++)
            CHECK(intset_find_next_miss(t, pts[i] + 1) == (int) pts[i + 1], "intset:miss",
                  "find_next_miss(%u) wrong in a set of size %zu", pts[i] + 1, n);
        destroy_intset(t);
        s.evals += 100;
        s.distinct++;
        s.sample(fmtstr("set of size %zu probed at both ends and around words", n));
        EV("intset.huge");
    }
}
} // namespace
REG_CASES("C06", intset_history, history, 20000, 4000, 30, OWN | THR);
REG_SWEEP("C06", intset_sizes, sizes, 1, 1, 0);
REG_SWEEP("C06", intset_huge, huge, 1, 0, 0);
