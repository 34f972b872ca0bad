// C05: priority queue against a multiset model; the callbacks are monitors.
#include "core.h"
#include <fsdyn/priority_queue.h>
#include <memory>

namespace {
struct El {
    u64 magic;
    i64 prio;
    void *loc;
    bool located;
    unsigned in; // times enqueued
    bool twice; // was in the queue twice since it last was out: no unique location
};
const u64 MAGIC = 0xfeedc0de1234ULL;
struct QCtx {
    u64 magic = 4711;
    int style = 0;
    bool bad_ctx = false, bad_elem = false;
    u64 cmps = 0, relocs = 0;
};
thread_local QCtx *cur;

int sign_of(const void *a, const void *b, QCtx *q)
{
    const El *x = (const El *) a, *y = (const El *) b;
    q->cmps++;
    if (!x || !y || x->magic != MAGIC || y->magic != MAGIC) {
        q->bad_elem = true;
        return 0;
    }
    int s = x->prio < y->prio ? -1 : x->prio > y->prio;
    switch (q->style) {
        case 0: return s;
        case 1: return s < 0 ? INT_MIN : s > 0 ? INT_MAX : 0;
        case 2: return s * 256;
        default: return s * 65536 * (1 + (int) (q->cmps % 1000));
    }
}
int cmp3(const void *a, const void *b, void *obj)
{
    if (obj != cur)
        cur->bad_ctx = true;
    return sign_of(a, b, cur);
}
int cmp2(const void *a, const void *b) { return sign_of(a, b, cur); }
void do_reloc(const void *e, void *loc)
{
    El *x = (El *) e;
    cur->relocs++;
    if (!x || x->magic != MAGIC) {
        cur->bad_elem = true;
        return;
    }
    x->loc = loc;
    x->located = true;
}
void reloc3(const void *e, void *loc, void *obj)
{
    if (obj != cur)
        cur->bad_ctx = true;
    do_reloc(e, loc);
}
void reloc2(const void *e, void *loc) { do_reloc(e, loc); }

// C31: the work of one operation, in calls of the callbacks
thread_local bool judge_cost;
struct Work {
    QCtx &q;
    u64 c0, r0;
    const char *what;
    size_t n;
    Work(QCtx &qq, const char *w, size_t size) : q(qq), c0(qq.cmps), r0(qq.relocs), what(w), n(size) {}
    void judge()
    {
        if (!judge_cost)
            return;
        u64 height = 0;
        for (size_t k = n; k; k >>= 1)
            height++;
        u64 limit = 4 * height + 8;
        EV("cost.judged");
        if (height >= 12)
            EV("cost.large");
        CHECK(q.cmps - c0 <= limit, "cost:compare", "%s made %llu comparisons in a queue of %zu elements", what,
              (unsigned long long) (q.cmps - c0), n);
        CHECK(q.relocs - r0 <= limit, "cost:reloc", "%s reported %llu relocations in a queue of %zu elements", what,
              (unsigned long long) (q.relocs - r0), n);
    }
};

struct Rig {
    Case &c;
    Gen &g;
    QCtx q;
    priorq_t *prq;
    bool reloc, dup;
    std::vector<std::unique_ptr<El>> pool;
    std::map<i64, std::map<El *, unsigned>> m; // prio -> element -> count
    std::vector<El *> singles;                 // members enqueued once (lazily cleaned)
    size_t n = 0;

    Rig(Case &cc, int kind) : c(cc), g(cc.g)
    {
        cur = &q;
        q.style = g.below(4);
        reloc = kind & 1;
        bool ctx = kind & 2;
        dup = !reloc || g.chance(1, 3);
        TR("queue: %s%s", ctx ? "with context" : "plain", reloc ? ", relocation callback" : "");
        prq = ctx ? make_priority_queue_2(cmp3, reloc ? reloc3 : nullptr, &q)
                  : make_priority_queue(cmp2, reloc ? reloc2 : nullptr);
        size();
    }
    void state()
    {
        CHECK(!q.bad_ctx, "pq:context", "a callback got a wrong context argument");
        CHECK(!q.bad_elem, "pq:element", "a callback got something that was never enqueued");
    }
    void size()
    {
        state();
        CHECK(priorq_size(prq) == n, "pq:size", "size %zu, expected %zu", priorq_size(prq), n);
        CHECK(priorq_empty(prq) == (n == 0), "pq:empty", "emptiness wrong at size %zu", n);
    }
    void forget(El *e)
    {
        auto it = m.find(e->prio);
        auto jt = it->second.find(e);
        if (!--jt->second)
            it->second.erase(jt);
        if (it->second.empty())
            m.erase(it);
        if (!--e->in)
            e->twice = false;
        n--;
    }
    El *member(const void *p, const char *what)
    {
        state();
        CHECK(p, "pq:lost", "%s returned nothing with %zu elements in the queue", what, n);
        for (auto &x : pool)
            if (x.get() == p) {
                CHECK(x->in, "pq:stranger", "%s returned an element that is not in the queue", what);
                return x.get();
            }
        violate("pq:stranger", "%s returned something that was never enqueued", what);
    }
    El *member_fast(const void *p, const char *what)
    {
        state();
        CHECK(p, "pq:lost", "%s returned nothing with %zu elements in the queue", what, n);
        El *e = (El *) p;
        CHECK(e->magic == MAGIC && e->in, "pq:stranger", "%s returned an element that is not in the queue", what);
        return e;
    }
    void enqueue(i64 prio)
    {
        El *e;
        if (dup && n && g.chance(1, 10)) {
            e = pool[g.below(pool.size())].get();
            EV("pq.enqueue.again");
        } else {
            pool.emplace_back(new El{MAGIC, prio, nullptr, false, 0, 0});
            e = pool.back().get();
        }
        TR("enqueue #%p prio %lld", (void *) e, (long long) e->prio);
        e->located = false;
        if (e->in++)
            e->twice = true;
        n++;
        m[e->prio][e]++;
        singles.push_back(e);
        Work w(q, "enqueueing", n);
        priorq_enqueue(prq, e);
        w.judge();
        EV("pq.enqueue");
        if (reloc)
            CHECK(e->located, "pq:reloc", "enqueueing did not report a location for the element");
        size();
    }
    void front(bool take)
    {
        TR(take ? "dequeue" : "peek");
        Work w(q, take ? "dequeueing" : "peeking", n);
        const void *p = take ? priorq_dequeue(prq) : priorq_peek(prq);
        w.judge();
        if (!n) {
            CHECK(!p, "pq:empty", "an empty queue yielded an element");
            size();
            return;
        }
        El *e = member_fast(p, take ? "dequeue" : "peek");
        CHECK(e->prio == m.begin()->first, "pq:order",
              "%s returned priority %lld while %lld is in the queue (%zu elements)", take ? "dequeue" : "peek",
              (long long) e->prio, (long long) m.begin()->first, n);
        if (take) {
            EV("pq.dequeue");
            forget(e);
        } else
            EV("pq.peek");
        size();
    }
    void pop()
    {
        TR("pop");
        Work w(q, "popping", n);
        const void *p = priorq_pop(prq);
        w.judge();
        if (!n) {
            CHECK(!p, "pq:empty", "pop on an empty queue yielded an element");
            return;
        }
        EV("pq.pop");
        forget(member_fast(p, "pop"));
        size();
    }
    void remove()
    {
        if (!reloc || !n)
            return;
        for (int tries = 0; tries < 20; tries++) {
            if (singles.empty())
                return;
            size_t i = g.below(singles.size());
            El *e = singles[i];
            if (e->in == 0) {
                singles[i] = singles.back();
                singles.pop_back();
                continue;
            }
            if (e->in != 1 || e->twice)
                continue;
            CHECK(e->located, "pq:reloc", "no location was ever reported for an element in the queue");
            TR("remove #%p prio %lld at %p", (void *) e, (long long) e->prio, e->loc);
            Work w(q, "removing", n);
            const void *p = priorq_remove(prq, e->loc);
            w.judge();
            state();
            CHECK(p == e, "pq:locator", "removing by the locator last reported for an element of priority %lld "
                                        "(%zu elements) returned another",
                  (long long) e->prio, n);
            EV("pq.remove");
            forget(e);
            size();
            return;
        }
    }
    void drain()
    {
        while (n)
            front(true);
        front(true);
        front(false);
        pop();
    }
    void finish()
    {
        destroy_priority_queue(prq);
        for (auto &x : pool)
            CHECK(x->magic == MAGIC, "pq:modified", "an element was modified");
        cur = nullptr;
    }
};
void history(Case &c)
{
    Gen &g = c.g;
    Rig r(c, g.below(4));
    i64 span = g.chance(1, 3) ? g.below(4) : g.chance(1, 2) ? g.below(100) : (i64) 1 << 40;
    u64 ops = g.chance(5, 6) ? 5 + g.below(150) : 500 + g.below(4000);
    bool mono = g.chance(1, 5); // timer-like: priorities advance
    i64 now = 0;
    unsigned bias = 50;
    size_t peak = 0;
    for (u64 i = 0; i < ops; i++) {
        if (i % 60 == 0)
            bias = 20 + g.below(70);
        i64 p = (i64) g.below(span + 1) - span / 2;
        if (mono)
            p = (now += g.below(3)) + (i64) g.below(span % 1000 + 1);
        unsigned w = g.below(100);
        c.mix((u64) w << 40 ^ p);
        if (w < bias)
            r.enqueue(p);
        else {
            switch (g.below(7)) {
                case 0: case 1: r.front(true); break;
                case 2: r.front(false); break;
                case 3: r.pop(); break;
                default:
                    if (r.reloc)
                        r.remove();
                    else
                        r.front(true);
            }
        }
        if (g.chance(1, 6))
            r.front(false);
        peak = std::max(peak, r.n);
    }
    c.nontrivial = peak > 3;
    if (g.chance(4, 5))
        r.drain();
    c.text = fmtstr("%llu operations, %s, priority span %lld, peak size %zu", (unsigned long long) ops,
                    r.reloc ? "with locators" : "without locators", (long long) span, peak);
    r.finish();
}
// fill, drain and refill, several times, past every growth of the storage
void waves(Case &c)
{
    Gen &g = c.g;
    Rig r(c, g.below(4));
    i64 span = g.chance(1, 2) ? 20 : (i64) 1 << 40, seq = 0;
    int rounds = 2 + g.below(4);
    size_t peak = 0;
    for (int i = 0; i < rounds; i++) {
        size_t top = (size_t) 1 << g.below(opt.asan() ? 13 : 15);
        top += g.below(top);
        size_t low = g.chance(1, 2) ? 0 : g.below(top / 3 + 1);
        int order = g.below(3), how = g.below(4);
        while (r.n < top)
            r.enqueue(order == 0 ? seq++ : order == 1 ? -seq++ : (i64) g.below(span + 1));
        peak = std::max(peak, r.n);
        while (r.n > low)
            switch (how) {
                case 0: r.front(true); break;
                case 1: r.pop(); break;
                case 2:
                    if (r.reloc && g.chance(9, 10)) {
                        r.remove();
                        break;
                    }
                    r.front(true);
                    break;
                default:
                    if (g.chance(1, 2))
                        r.front(true);
                    else
                        r.pop();
            }
        r.front(false);
        c.mix(top * 4 + how);
        c.mix(low);
    }
    c.nontrivial = true;
    if (g.chance(2, 3))
        r.drain();
    EV("pq.waves");
    c.text = fmtstr("filled to %zu at most, drained and refilled %d times, %s", peak, rounds, r.reloc ? "with locators" : "without locators");
    r.finish();
}
// all priority patterns of small heaps: build, remove each position, drain
void exhaust(Sweep &s)
{
    unsigned nmax = opt.quick() ? 7 : 8;
    u64 done = 0, id = 0;
    for (unsigned n = 1; n <= nmax; n++) {
        unsigned base = n <= 5 ? n : n == 6 ? 5 : 4;
        u64 total = 1;
        for (unsigned i = 0; i < n; i++)
            total *= base;
        for (u64 code = 0; code < total; code++) {
            if (!s.mine(id++))
                continue;
            if (done % 512 == 0)
                s.tick();
            s.where(n, code);
            for (unsigned victim = 0; victim <= n; victim++) {
                Case c(code, 0);
                Rig r(c, 3);
                r.dup = false;
                u64 x = code;
                for (unsigned i = 0; i < n; i++) {
                    r.enqueue(x % base);
                    x /= base;
                }
                if (victim < n) {
                    El *e = r.pool[victim].get();
                    const void *p = priorq_remove(r.prq, e->loc);
                    CHECK(p == e, "pq:locator", "removal of element %u of %u returned another", victim, n);
                    r.forget(e);
                    r.size();
                    // a second removal, by the locators in force then
                    if (n > 2) {
                        El *f = r.pool[(victim + 1 + code % (n - 1)) % n].get();
                        if (f->in) {
                            CHECK(priorq_remove(r.prq, f->loc) == f, "pq:locator", "second removal returned another");
                            r.forget(f);
                            r.size();
                        }
                    }
                }
                while (r.n)
                    r.front(true);
                r.finish();
                done++;
            }
        }
    }
    s.evals += done;
    s.distinct += done;
    EVN("pq.patterns", done);
    s.sample(fmtstr("every priority pattern of up to %u elements with every removal: %llu in this shard", nmax,
                    (unsigned long long) done));
}
void big(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned j = 0; j < 8; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        Case c(mix64(j + opt.seed * 64), j);
        Rig r(c, j & 3);
        size_t N = opt.asan() ? 5000 : opt.quick() ? 150000 : 1200000;
        for (size_t i = 0; i < N; i++) {
            i64 p = j < 2 ? (i64) i : j < 4 ? -(i64) i : j < 6 ? (i64) (mix64(i) % 1000) : (i64) mix64(i);
            r.enqueue(p);
            if (i % 1000 == 0)
                s.tick();
        }
        for (size_t i = 0; i < N / 3; i++)
            r.remove();
        s.tick();
        for (size_t i = 0; i < N / 3; i++) {
            r.front(true);
            if (i % 3 == 0)
                r.enqueue((i64) c.g.below(1000));
            if (i % 1000 == 0)
                s.tick();
        }
        r.drain();
        r.finish();
        s.evals += 3 * N;
        s.distinct++;
        s.sample(fmtstr("%zu elements enqueued, a third removed by locator, the rest served in order", N));
    }
}
// the same workloads, with the work of every operation judged
struct CostMode {
    CostMode() { judge_cost = true; }
    ~CostMode() { judge_cost = false; }
};
void cost_history(Case &c)
{
    CostMode m;
    history(c);
}
void cost_waves(Case &c)
{
    CostMode m;
    waves(c);
}
void cost_big(Sweep &s)
{
    CostMode m;
    big(s);
}
// a queue hovering around every power of two: storage grows at one of them
void cost_hover(Case &c)
{
    CostMode m;
    Gen &g = c.g;
    Rig r(c, g.below(4));
    i64 span = g.chance(1, 3) ? 1 : (i64) 1 << 30, seq = 0;
    int order = g.below(4);
    auto prio = [&]() { return order == 0 ? seq++ : order == 1 ? -seq++ : order == 2 ? 0 : (i64) g.below(span); };
    unsigned top = opt.asan() ? 12 : 15;
    for (unsigned k = 0; k <= top; k++) {
        while (r.n < ((size_t) 1 << k) + 2)
            r.enqueue(prio());
        for (int i = 0; i < 8; i++) {
            int how = g.below(3);
            size_t down = 1 + g.below(4);
            while (down-- && r.n) {
                if (how == 2 && r.reloc) {
                    size_t before = r.n;
                    r.remove();
                    if (r.n == before)
                        break;
                } else
                    r.front(true);
            }
            while (r.n < ((size_t) 1 << k) + 2)
                r.enqueue(prio());
        }
    }
    c.mix(span * 8 + order);
    c.mix(g.prng());
    c.nontrivial = true;
    EV("cost.hover");
    r.drain();
    c.text = fmtstr("a queue grown to %u elements, hovering around every power of two", 1u << top);
    r.finish();
}
} // namespace
REG_CASES("C31", cost_history, cost_history, 6000, 1500, 20, 0);
REG_CASES("C31", cost_waves, cost_waves, 160, 40, 20, 0);
REG_CASES("C31", cost_hover, cost_hover, 60, 12, 20, 0);
REG_SWEEP("C31", cost_big, cost_big, 1, 1, 0);
REG_CASES("C05", priorq_history, history, 60000, 15000, 20, OWN | THR);
REG_CASES("C05", priorq_waves, waves, 160, 80, 20, OWN | THR);
REG_SWEEP("C05", priorq_exhaust, exhaust, 1, 0, 0);
REG_SWEEP("C05", priorq_big, big, 1, 1, 0);
