// C03: hash table against a map model.
#include "core.h"
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <memory>
#include <unordered_map>

namespace {

struct HK {
    u64 magic;
    u64 v;
};
const u64 MAGIC = 0x5ca1ab1e0ddba11ULL;
thread_local int hash_style;
thread_local bool bad_key;

u64 style_hash(u64 v)
{
    switch (hash_style) {
        case 0: return 0;
        case 1: return UINT64_MAX;
        case 2: return v;
        case 3: return mix64(v);
        case 4: return v << 56;
        case 5: return v % 7;
        case 6: return UINT64_MAX - v % 60;
        case 7: return v * 53;
        default: return mix64(v) % 97;
    }
}
u64 hk_hash(const void *p)
{
    const HK *k = (const HK *) p;
    if (k->magic != MAGIC) {
        bad_key = true;
        return 0;
    }
    return style_hash(k->v);
}
int hk_cmp(const void *a, const void *b)
{
    const HK *x = (const HK *) a, *y = (const HK *) b;
    if (x->magic != MAGIC || y->magic != MAGIC) {
        bad_key = true;
        return 1;
    }
    if (x->v == y->v)
        return 0;
    // any nonzero value means unequal
    switch ((x->v ^ y->v) % 4) {
        case 0: return INT_MIN;
        case 1: return 256;
        case 2: return 1;
        default: return -65536;
    }
}

struct Assoc {
    const void *key, *value;
};
enum KeyType { OBJ, STR, INT, UNS };

struct H {
    Case &c;
    Gen &g;
    KeyType type;
    hash_table_t *t = nullptr;
    std::unordered_map<u64, Assoc> m; // by identity number of the key
    std::vector<std::unique_ptr<HK>> objs;
    std::vector<std::unique_ptr<std::string>> strs;
    struct Orphan {
        hash_elem_t *e;
        Assoc a;
    };
    std::vector<Orphan> orphans;
    u64 span, next_value = 1;

    explicit H(Case &cc) : c(cc), g(cc.g)
    {
        bad_key = false;
        type = (KeyType) (g.chance(3, 5) ? 0 : g.below(4));
        hash_style = g.below(9);
        span = 1 + g.below(g.chance(1, 3) ? 2000 : 40);
    }
    u64 number(u64 i) // spread key numbers to extremes
    {
        return i % 5 == 4 ? ~i : i % 7 == 3 ? i << 40 : i;
    }
    const void *key(u64 i)
    {
        switch (type) {
            case OBJ:
                objs.emplace_back(new HK{MAGIC, number(i)});
                return objs.back().get();
            case STR: {
                std::string s;
                for (u64 x = mix64(i) | 1; x; x /= 251)
                    s += (char) (1 + x % 255);
                strs.emplace_back(new std::string(i == 0 ? "" : s + fmtstr("%llu", (unsigned long long) i)));
                return strs.back()->c_str();
            }
            case INT:
                return as_integer((intptr_t) number(i));
            default:
                return as_unsigned((uintptr_t) number(i));
        }
    }
    u64 ident(const void *k) // model identity of a key object
    {
        switch (type) {
            case OBJ: return ((const HK *) k)->v;
            default: return 0;
        }
    }
    hash_table_t *make(size_t cap)
    {
        TR("make_hash_table(%zu) keys %d hash %d", cap, type, hash_style);
        switch (type) {
            case OBJ: return make_hash_table(cap, hk_hash, hk_cmp);
            case STR:
                return make_hash_table(cap, (u64 (*)(const void *)) hash_string,
                                       (int (*)(const void *, const void *)) strcmp);
            case INT:
                return make_hash_table(cap, (u64 (*)(const void *)) hash_integer, integer_cmp);
            default:
                return make_hash_table(cap, (u64 (*)(const void *)) hash_unsigned, unsigned_cmp);
        }
    }
    const void *value()
    {
        if (g.chance(1, 40))
            return nullptr;
        if (g.chance(1, 8))
            return (const void *) (uintptr_t) (16 * (1 + g.below(3)));
        return (const void *) (uintptr_t) (1024 + next_value++ * 8);
    }
    void same(hash_elem_t *e, const Assoc *a, const char *what, u64 i)
    {
        CHECK(!bad_key, "hash:badkey", "%s: callback got something that is not a key", what);
        if (!a) {
            CHECK(!e, "hash:result", "%s(%llu) returned an element, expected none", what, (unsigned long long) i);
            return;
        }
        CHECK(e, "hash:result", "%s(%llu) returned nothing", what, (unsigned long long) i);
        CHECK(hash_elem_get_key(e) == a->key && hash_elem_get_value(e) == a->value, "hash:result",
              "%s(%llu): key %p value %p, expected key %p value %p", what, (unsigned long long) i,
              hash_elem_get_key(e), hash_elem_get_value(e), a->key, a->value);
    }
    void size()
    {
        CHECK(hash_table_size(t) == m.size(), "hash:size", "size %zu, expected %zu",
              hash_table_size(t), m.size());
        CHECK(!!hash_table_empty(t) == m.empty(), "hash:empty", "emptiness wrong at size %zu", m.size());
    }
    void orphan(hash_elem_t *e, Assoc a)
    {
        orphans.push_back({e, a});
        if (orphans.size() > 30)
            drop();
    }
    void drop()
    {
        for (auto &o : orphans) {
            same(o.e, &o.a, "detached element", 0);
            destroy_hash_element(o.e);
        }
        orphans.clear();
    }
    void put(u64 i, const void *val)
    {
        const void *k = key(i);
        TR("put %llu -> %p", (unsigned long long) i, val);
        hash_elem_t *old = hash_table_put(t, k, val);
        auto it = m.find(i);
        if (it == m.end()) {
            EV("hash.put.new");
            same(old, nullptr, "put", i);
            m[i] = {k, val};
        } else if (it->second.value == val) {
            EV("hash.put.same");
            same(old, nullptr, "put (same value)", i);
        } else {
            EV("hash.put.replace");
            same(old, &it->second, "put (replace)", i);
            orphan(old, it->second);
            it->second = {k, val};
        }
        size();
    }
    const Assoc *find(u64 i)
    {
        auto it = m.find(i);
        return it == m.end() ? nullptr : &it->second;
    }
    void get(u64 i)
    {
        const void *k = key(i);
        EV("hash.get");
        same(hash_table_get(t, k), find(i), "get", i);
    }
    void take(u64 i, int how)
    {
        const void *k = key(i);
        if (how == 0) {
            TR("pop %llu", (unsigned long long) i);
            hash_elem_t *e = hash_table_pop(t, k);
            same(e, find(i), "pop", i);
            if (e) {
                EV("hash.pop");
                Assoc a = m[i];
                m.erase(i);
                orphan(e, a);
            } else
                EV("hash.pop.miss");
        } else {
            hash_elem_t *e = hash_table_get(t, k);
            same(e, find(i), "get", i);
            if (!e)
                return;
            Assoc a = m[i];
            m.erase(i);
            if (how == 1) {
                TR("detach %llu", (unsigned long long) i);
                EV("hash.detach");
                hash_table_detach(t, e);
                same(e, &a, "detach", i);
                orphan(e, a);
            } else {
                TR("remove %llu", (unsigned long long) i);
                EV("hash.remove");
                hash_table_remove(t, e);
            }
        }
        size();
    }
    u64 near() // some key of the table
    {
        auto it = m.begin();
        for (size_t k = g.below(std::min<size_t>(m.size(), 30)); k; k--)
            ++it;
        return it->first;
    }
    // which model entry does this element stand for?
    u64 locate(hash_elem_t *e, const char *what)
    {
        for (auto &p : m)
            if (p.second.key == hash_elem_get_key(e)) {
                if (p.second.value == hash_elem_get_value(e))
                    return p.first;
                violate("hash:value", "%s: key %llu has value %p, expected %p", what,
                        (unsigned long long) p.first, hash_elem_get_value(e), p.second.value);
            }
        violate("hash:stranger", "%s: returned an element that is not in the table", what);
    }
    void pop_any()
    {
        TR("pop_any");
        hash_elem_t *e = hash_table_pop_any(t);
        if (m.empty()) {
            CHECK(!e, "hash:pop_any", "pop_any on an empty table returned an element");
            return;
        }
        CHECK(e, "hash:pop_any", "pop_any returned nothing at size %zu", m.size());
        EV("hash.pop_any");
        u64 i = locate(e, "pop_any");
        Assoc a = m[i];
        m.erase(i);
        orphan(e, a);
        size();
    }
    void traverse()
    {
        EV("hash.traverse");
        // lookups do not modify the table: a traversal goes on past them
        bool look = g.chance(1, 2);
        unsigned every = 1 + g.below(5);
        std::unordered_map<const void *, const Assoc *> left;
        for (auto &p : m)
            left[p.second.key] = &p.second;
        size_t n = 0;
        for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e)) {
            n++;
            CHECK(n <= m.size(), "hash:traverse", "the traversal visits more than the %zu elements", m.size());
            auto it = left.find(hash_elem_get_key(e));
            CHECK(it != left.end(), "hash:traverse", "the traversal visits an element twice or a stranger");
            same(e, it->second, "traversal", 0);
            left.erase(it);
            if (look && n % every == 0) {
                EV("hash.traverse.lookup");
                for (int q = g.below(3); q >= 0; q--)
                    get(g.chance(2, 3) && !m.empty() ? near() : g.below(span + 3));
                if (g.chance(1, 4))
                    size();
                hash_elem_t *any = hash_table_get_any(t);
                CHECK(any, "hash:any", "get_any returned nothing at size %zu", m.size());
            }
        }
        CHECK(left.empty(), "hash:traverse", "the traversal missed %zu of %zu elements", left.size(), m.size());
    }
    void finish()
    {
        traverse();
        size();
        drop();
        destroy_hash_table(t);
        t = nullptr;
        for (auto &o : objs)
            CHECK(o->magic == MAGIC, "hash:keychange", "a key object was modified");
    }
};

// fill, drain and refill, several times
void waves(Case &c)
{
    H h(c);
    Gen &g = c.g;
    size_t cap = g.chance(1, 3) ? 0 : g.size(3000);
    h.span = 200 + g.below(opt.asan() ? 1500 : 4000);
    if (h.type == OBJ && (hash_style < 2 || hash_style == 5))
        h.span = 100 + g.below(200);
    h.t = h.make(cap);
    int rounds = 2 + g.below(3);
    size_t peak = 0;
    for (int r = 0; r < rounds; r++) {
        size_t top = h.span * (1 + g.below(10)) / 10, low = g.chance(1, 2) ? 0 : g.below(top / 4 + 1);
        u64 from = g.below(h.span);
        for (size_t i = 0; i < top; i++)
            h.put((from + i) % h.span, h.value());
        peak = std::max(peak, h.m.size());
        h.traverse();
        int how = g.below(5);
        u64 at = g.below(h.span);
        while (h.m.size() > low) {
            if (how == 4)
                h.pop_any();
            else
                h.take(at++ % h.span, how == 3 ? g.below(3) : how);
        }
        h.traverse();
        for (int i = 0; i < 20; i++)
            h.get(g.below(h.span));
    }
    c.mix(h.span);
    c.mix(peak);
    c.mix(g.value());
    c.nontrivial = true;
    c.text = fmtstr("filled to %zu, drained and refilled %d times, capacity hint %zu, hash style %d", peak, rounds, cap, hash_style);
    EV("hash.waves");
    h.finish();
}
void run_history(H &h, Case &c, size_t cap, u64 ops)
{
    Gen &g = c.g;
    h.t = h.make(cap);
    h.size();
    unsigned bias = 5;
    for (u64 i = 0; i < ops; i++) {
        if (i % 50 == 0)
            bias = 1 + g.below(9);
        u64 k = g.below(h.span);
        unsigned w = g.below(100);
        c.mix(w << 32 ^ k);
        if (w < 55) {
            if (g.below(10) < bias)
                h.put(k, h.value());
            else
                h.take(k, g.below(3));
        } else if (w < 75)
            h.get(k);
        else if (w < 82) {
            const Assoc *a = h.find(k);
            h.put(k, a ? a->value : h.value());
        } else if (w < 87)
            h.pop_any();
        else if (w < 92 && (cap <= 3000 || g.chance(1, 20)) && h.m.size() < 300)
            h.traverse();
        if (h.m.size() > 3)
            c.nontrivial = true;
    }
}

void history(Case &c)
{
    H h(c);
    Gen &g = c.g;
    size_t cap;
    if (g.chance(4, 5))
        cap = g.size(200);
    else
        cap = g.size(opt.asan() ? 20000 : 100000);
    u64 ops = 10 + g.below(g.chance(1, 4) ? 2500 : 250);
    if (cap > 5000)
        ops = 10 + g.below(100);
    if (h.type == OBJ && hash_style < 2 && h.span > 300)
        h.span = 300;
    run_history(h, c, cap, ops);
    c.text = fmtstr("capacity hint %zu, key type %d, hash style %d, key span %llu, %llu operations, %zu "
                    "associations at the end",
                    cap, h.type, hash_style, (unsigned long long) h.span, (unsigned long long) ops, h.m.size());
    h.finish();
}

// tables of every prime size and large hints, filled and drained
void big(Sweep &s)
{
    static const size_t hints[] = {0, 1, 52, 53, 54, 96, 97, 98, 193, 194, 389, 390, 769, 770, 1543,
        1544, 3079, 3080, 6151, 6152, 12289, 12290, 24593, 24594, 49157, 49158, 98317, 98318, 196613,
        196614, 393241, 393242, 786433, 786434, 1572869, 1572870, 3145739, 6291469, 12582917};
    s.exhaustive = false;
    size_t n = sizeof hints / sizeof *hints;
    for (size_t j = 0; j < n; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        s.where(j);
        if (opt.asan() && hints[j] > 200000)
            continue;
        for (int style = 0; style < 9; style++) {
            if (hints[j] > 20000 && style != 6 && style != 3)
                continue;
            s.tick();
            Case c(mix64(opt.seed * 977 + j * 31 + style), j);
            H h(c);
            h.type = OBJ;
            hash_style = style;
            h.span = style < 2 ? 60 : 500;
            h.t = h.make(hints[j]);
            for (u64 i = 0; i < h.span; i++)
                h.put(i, h.value());
            h.traverse();
            for (u64 i = 0; i < h.span; i += 2)
                h.take(i, i % 3);
            h.traverse();
            for (u64 i = 0; i < h.span; i++)
                h.get(i);
            if (hints[j] < 3000)
                while (!h.m.empty())
                    h.pop_any();
            h.pop_any();
            h.finish();
            s.evals += h.span * 2;
            s.distinct++;
        }
        s.sample(fmtstr("capacity hint %zu: filled, half removed, traversed, drained", hints[j]));
    }
    // many elements in a small table and in a fitting one
    for (size_t j = 0; j < 2; j++) {
        if (!s.mine(n + j))
            continue;
        s.tick(2);
        size_t N = opt.asan() ? 3000 : 70000; // beyond 16 bits
        std::vector<HK> ks(N);
        bad_key = false;
        hash_style = 3;
        hash_table_t *t = make_hash_table(j ? N : 0, hk_hash, hk_cmp);
        for (size_t i = 0; i < N; i++) {
            ks[i] = {MAGIC, i};
            CHECK(!hash_table_put(t, &ks[i], &ks[i]), "hash:put", "put of a new key returned an element");
        }
        CHECK(hash_table_size(t) == N, "hash:size", "size %zu, expected %zu", hash_table_size(t), N);
        std::vector<bool> seen(N);
        size_t cnt = 0;
        for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e)) {
            size_t i = (const HK *) hash_elem_get_key(e) - ks.data();
            CHECK(i < N && !seen[i], "hash:traverse", "element visited twice");
            seen[i] = true;
            cnt++;
        }
        CHECK(cnt == N, "hash:traverse", "%zu of %zu visited", cnt, N);
        while (hash_elem_t *e = hash_table_pop_any(t)) {
            const HK *k = (const HK *) hash_elem_get_key(e);
            CHECK(seen[k->v] && hash_elem_get_value(e) == k, "hash:pop_any", "element popped twice");
            seen[k->v] = false;
            destroy_hash_element(e);
            cnt--;
            CHECK(hash_table_size(t) == cnt, "hash:size", "size wrong while draining");
        }
        CHECK(!cnt, "hash:pop_any", "%zu elements not popped", cnt);
        destroy_hash_table(t);
        s.evals += 3 * N;
        s.distinct++;
    }
}
void huge(Sweep &s)
{
    // the largest tables: up to 201M slots
    s.exhaustive = false;
    static const size_t hints[] = {25165843, 50331654, 100663319};
    for (size_t j = 0; j < 3; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        Case c(j, j);
        H h(c);
        h.type = OBJ;
        hash_style = 6;
        h.span = 100;
        h.t = h.make(hints[j]);
        s.tick();
        for (u64 i = 0; i < h.span; i++)
            h.put(i, h.value());
        h.traverse();
        for (u64 i = 0; i < h.span; i += 2)
            h.take(i, i % 3);
        h.traverse();
        s.tick();
        h.finish();
        s.evals += 100;
        s.distinct++;
    }
}

// the supplied hash functions
void functions(Case &c)
{
    Gen &g = c.g;
    size_t n = g.size(3000);
    std::string b;
    for (size_t i = 0; i < n; i++)
        b += (char) (g.chance(1, 3) ? g.below(256) : 'a' + g.below(26));
    c.mixs(b);
    c.nontrivial = n > 0;
    c.text = fmtstr("%zu bytes hashed as blob and as string from different addresses", n);
    std::string pre = std::string(g.below(9), 'p');
    u64 h1, h2, h3;
    {
        Exact e(b);
        h1 = hash_blob(e.p, n);
        CHECK(e.unchanged(), "hash:modified", "hash_blob modified its input");
    }
    {
        // same bytes elsewhere, followed by other bytes
        std::string x = pre + b + "tail";
        Exact e(x, true);
        h2 = hash_blob(e.p + pre.size(), n);
    }
    {
        Exact e(pre + b);
        h3 = hash_blob(e.p + pre.size(), n);
    }
    CHECK(h1 == h2 && h1 == h3, "hash:blob", "hash_blob of equal blobs of %zu bytes differs", n);
    std::string z(b.c_str());
    u64 s1, s2;
    {
        ExactZ e(z);
        s1 = hash_string(e.p);
        CHECK(e.unchanged(), "hash:modified", "hash_string modified its input");
    }
    {
        std::string x = pre + z + std::string(1, 0) + "tail";
        Exact e(x);
        s2 = hash_string(e.p + pre.size());
    }
    CHECK(s1 == s2, "hash:string", "hash_string of equal strings differs");
    EVN("hash.functions", 5);
    u64 v = g.value();
    CHECK(hash_integer(as_integer((intptr_t) v)) == hash_integer(as_integer((intptr_t) v)) &&
              hash_unsigned(as_unsigned(v)) == hash_unsigned(as_unsigned(v)),
          "hash:int", "integer hash not repeatable");
}
} // namespace

REG_CASES("C03", hash_history, history, 40000, 8000, 20, OWN | THR);
REG_CASES("C03", hash_waves, waves, 300, 60, 20, OWN | THR);
REG_CASES("C03", hash_functions, functions, 20000, 8000, 20, THR);
REG_SWEEP("C03", hash_big, big, 1, 1, 0);
REG_SWEEP("C03", hash_huge, huge, 1, 0, 0);
