// C01, C02: AVL tree against an ordered-map model, with the comparator as the
// observation point for the search path.
#include "core.h"
#include <fsdyn/avltree.h>
#include <algorithm>
#include <memory>
#include <unordered_set>

namespace {

struct K {
    i64 v;
    u64 check;
};
static u64 ksum(i64 v) { return mix64((u64) v ^ 0xabcdef); }

struct CmpCtx {
    u64 magic;
    int style; // how results are scaled
    bool reverse;
    const K *probe = nullptr; // key given by the current call
    bool watch = false;
    std::vector<const K *> seen; // stored keys compared with
    u64 calls = 0;
    bool bad_ctx = false, bad_key = false;
};
static thread_local CmpCtx *cur; // for the context-less comparator

int scaled(int sign, CmpCtx *c)
{
    switch (c->style) {
        case 0:
            return sign;
        case 1:
            return sign < 0 ? INT_MIN : sign > 0 ? INT_MAX : 0;
        case 2:
            return sign < 0 ? -256 : sign > 0 ? 256 : 0;
        default:
            return sign * (int) (1 + (c->calls * 7919) % 100000);
    }
}
int do_cmp(const void *a, const void *b, CmpCtx *c)
{
    const K *x = (const K *) a, *y = (const K *) b;
    c->calls++;
    if (x->check != ksum(x->v) || y->check != ksum(y->v))
        c->bad_key = true;
    if (c->watch) {
        if (x != c->probe)
            c->seen.push_back(x);
        if (y != c->probe)
            c->seen.push_back(y);
    }
    int sign = x->v < y->v ? -1 : x->v > y->v;
    if (c->reverse)
        sign = -sign;
    return scaled(sign, c);
}
int cmp3(const void *a, const void *b, void *obj)
{
    CmpCtx *c = (CmpCtx *) obj;
    if (c != cur) {
        if (cur)
            cur->bad_ctx = true;
        c = cur;
    }
    return do_cmp(a, b, c);
}
int cmp2(const void *a, const void *b)
{
    return do_cmp(a, b, cur);
}

unsigned max_height(size_t n)
{
    // N(h) = N(h-1) + N(h-2) + 1
    size_t a = 0, b = 1; // N(0), N(1)
    unsigned h = 0;
    while (b <= n) {
        size_t c = a + b + 1;
        a = b;
        b = c;
        h++;
    }
    return h;
}

struct Less {
    bool reverse;
    bool operator()(i64 a, i64 b) const { return reverse ? b < a : a < b; }
};
struct Assoc {
    const K *key;
    const void *value;
};
typedef std::map<i64, Assoc, Less> Model;

struct Rig { // one tree and its model
    avl_tree_t *t;
    Model m;
    explicit Rig(Less l) : t(nullptr), m(l) {}
};

struct AvlCase {
    Case &c;
    Gen &g;
    CmpCtx ctx;
    Less less;
    bool path; // C02: judge the search path
    std::vector<std::unique_ptr<K>> pool;
    std::vector<std::unique_ptr<Rig>> rigs;
    struct Orphan {
        avl_elem_t *e;
        Assoc a;
    };
    std::vector<Orphan> orphans;
    u64 next_value = 1;
    unsigned maxpath = 0;

    AvlCase(Case &cc, bool p) : c(cc), g(cc.g), path(p)
    {
        ctx.style = g.below(4);
        ctx.reverse = g.chance(1, 4);
        less.reverse = ctx.reverse;
        cur = &ctx;
        Rig *r = new Rig(less);
        rigs.emplace_back(r);
        bool with_ctx = g.chance(1, 2);
        TR("tree: %s comparator style %d%s", with_ctx ? "context" : "plain", ctx.style,
           ctx.reverse ? " reversed" : "");
        r->t = with_ctx ? make_avl_tree_2(cmp3, &ctx) : make_avl_tree(cmp2);
    }
    ~AvlCase()
    {
        // free all in case of an aborted case, too
        for (auto &o : orphans)
            destroy_avl_element(o.e);
        for (auto &r : rigs)
            if (r->t)
                destroy_avl_tree(r->t);
        cur = nullptr;
    }
    K *key(i64 v)
    {
        pool.emplace_back(new K{v, ksum(v)});
        return pool.back().get();
    }
    const void *value()
    {
        if (g.chance(1, 50))
            return nullptr;
        if (g.chance(1, 10))
            return (const void *) (uintptr_t) (1 + g.below(3));
        return (const void *) (uintptr_t) (next_value++ * 16);
    }
    void begin(const K *k)
    {
        ctx.probe = k;
        ctx.watch = path;
        ctx.seen.clear();
    }
    void end(Rig &r, size_t n, const char *what, i64 v)
    {
        ctx.watch = false;
        CHECK(!ctx.bad_ctx, "avl:context", "comparator called with a wrong context argument");
        CHECK(!ctx.bad_key, "avl:badkey", "comparator called with something that is not a key");
        if (!path)
            return;
        std::sort(ctx.seen.begin(), ctx.seen.end());
        ctx.seen.erase(std::unique(ctx.seen.begin(), ctx.seen.end()), ctx.seen.end());
        size_t k = ctx.seen.size();
        if (k > maxpath)
            maxpath = k;
        EV("path.judged");
        CHECK(k <= max_height(n), "avl:path",
              "%s(%lld) compared with %zu stored keys in a tree of %zu (at most %u allowed)",
              what, (long long) v, k, n, max_height(n));
    }
    void same(avl_elem_t *e, const Assoc *a, const char *what, i64 v)
    {
        if (!a) {
            CHECK(!e, "avl:result", "%s(%lld): expected nothing, got key %lld", what, (long long) v,
                  (long long) ((const K *) avl_elem_get_key(e))->v);
            return;
        }
        CHECK(e, "avl:result", "%s(%lld): expected key %lld, got nothing", what, (long long) v,
              (long long) a->key->v);
        const K *k = (const K *) avl_elem_get_key(e);
        CHECK(k == a->key && avl_elem_get_value(e) == a->value, "avl:result",
              "%s(%lld): expected key %lld (%p) value %p, got key %lld (%p) value %p", what,
              (long long) v, (long long) a->key->v, (const void *) a->key, a->value,
              (long long) k->v, (const void *) k, avl_elem_get_value(e));
    }
    void orphan(avl_elem_t *e, Assoc a)
    {
        orphans.push_back({e, a});
        if (orphans.size() > 40) {
            for (auto &o : orphans) {
                same(o.e, &o.a, "detached element", 0);
                destroy_avl_element(o.e);
            }
            orphans.clear();
        }
    }
    void put(Rig &r, i64 v, const void *val)
    {
        K *k = key(v);
        size_t n = r.m.size();
        TR("put %lld -> %p", (long long) v, val);
        begin(k);
        avl_elem_t *old = avl_tree_put(r.t, k, val);
        end(r, n, "put", v);
        auto it = r.m.find(v);
        if (it == r.m.end()) {
            EV("avl.put.new");
            CHECK(!old, "avl:put", "put of a new key %lld returned an element", (long long) v);
            r.m[v] = {k, val};
        } else if (it->second.value == val) {
            EV("avl.put.same");
            CHECK(!old, "avl:put-same", "put of the value already stored at %lld returned an element",
                  (long long) v);
            // no effect: the stored key stays, too
        } else {
            EV("avl.put.replace");
            CHECK(old, "avl:put", "put at existing key %lld returned nothing", (long long) v);
            same(old, &it->second, "put (replaced)", v);
            orphan(old, it->second);
            it->second = {k, val};
        }
        size(r);
    }
    void size(Rig &r)
    {
        CHECK(avl_tree_size(r.t) == r.m.size(), "avl:size", "size is %zu, expected %zu",
              avl_tree_size(r.t), r.m.size());
        CHECK(!avl_tree_empty(r.t) == !r.m.empty(), "avl:empty", "emptiness wrong at size %zu",
              r.m.size());
    }
    void lookup(Rig &r, i64 v)
    {
        K *k = key(v);
        size_t n = r.m.size();
        auto lo = r.m.lower_bound(v), hi = r.m.upper_bound(v);
        auto at = [&](Model::iterator it) { return it == r.m.end() ? nullptr : &it->second; };
        auto before = [&](Model::iterator it) {
            return it == r.m.begin() ? nullptr : &std::prev(it)->second;
        };
        begin(k);
        avl_elem_t *e = avl_tree_get(r.t, k);
        end(r, n, "get", v);
        same(e, lo != hi ? &lo->second : nullptr, "get", v);
        begin(k);
        e = avl_tree_get_before(r.t, k);
        end(r, n, "get_before", v);
        same(e, before(lo), "get_before", v);
        begin(k);
        e = avl_tree_get_on_or_before(r.t, k);
        end(r, n, "get_on_or_before", v);
        same(e, before(hi), "get_on_or_before", v);
        begin(k);
        e = avl_tree_get_after(r.t, k);
        end(r, n, "get_after", v);
        same(e, at(hi), "get_after", v);
        begin(k);
        e = avl_tree_get_on_or_after(r.t, k);
        end(r, n, "get_on_or_after", v);
        same(e, at(lo), "get_on_or_after", v);
        EVN("avl.search", 5);
        if (pool.size() > 1 && pool.back().get() == k)
            pool.pop_back();
    }
    void traverse(Rig &r)
    {
        EV("avl.traverse");
        avl_elem_t *e = avl_tree_get_first(r.t), *last = nullptr;
        for (auto &p : r.m) {
            same(e, &p.second, "traversal", p.first);
            avl_elem_t *n = avl_tree_next(e);
            if (n)
                CHECK(avl_tree_previous(n) == e, "avl:prev",
                      "previous of the successor of %lld is not %lld", (long long) p.first,
                      (long long) p.first);
            else
                last = e;
            // lookups do not modify the tree: a traversal goes on past them
            if (g.chance(1, 16) && n) {
                EV("avl.traverse.lookup");
                auto it = r.m.lower_bound(p.first + (i64) g.below(9) - 4);
                if (it != r.m.end())
                    lookup(r, it->first);
                CHECK(avl_tree_next(e) == n, "avl:traverse", "a lookup changed the successor of %lld", (long long) p.first);
            }
            e = n;
        }
        CHECK(!e, "avl:traverse", "traversal goes past the last key");
        CHECK(avl_tree_get_last(r.t) == last, "avl:last", "last element is not the end of the traversal");
        if (!r.m.empty()) {
            e = avl_tree_get_first(r.t);
            CHECK(!avl_tree_previous(e), "avl:prev", "the first element has a predecessor");
        } else
            CHECK(!avl_tree_get_first(r.t) && !avl_tree_get_last(r.t), "avl:empty",
                  "an empty tree has a first or last element");
    }
    void take(Rig &r, i64 v, int how)
    {
        K *k = key(v);
        size_t n = r.m.size();
        auto it = r.m.find(v);
        if (how <= 1) {
            TR("pop %lld", (long long) v);
            begin(k);
            avl_elem_t *e = avl_tree_pop(r.t, k);
            end(r, n, "pop", v);
            if (it == r.m.end()) {
                EV("avl.pop.miss");
                same(e, nullptr, "pop", v);
            } else {
                EV("avl.pop");
                Assoc a = it->second;
                r.m.erase(it);
                same(e, &a, "pop", v);
                orphan(e, a);
            }
        } else {
            begin(k);
            avl_elem_t *e = avl_tree_get(r.t, k);
            end(r, n, "get", v);
            same(e, it == r.m.end() ? nullptr : &it->second, "get", v);
            if (e) {
                Assoc a = it->second;
                r.m.erase(it);
                if (how == 2) {
                    TR("detach %lld", (long long) v);
                    EV("avl.detach");
                    avl_tree_detach(r.t, e);
                    same(e, &a, "detach", v);
                    orphan(e, a);
                } else {
                    TR("remove %lld", (long long) v);
                    EV("avl.remove");
                    avl_tree_remove(r.t, e);
                }
            }
        }
        size(r);
    }
    void take_end(Rig &r, bool first)
    {
        TR("pop_%s", first ? "first" : "last");
        avl_elem_t *e = first ? avl_tree_pop_first(r.t) : avl_tree_pop_last(r.t);
        if (r.m.empty()) {
            CHECK(!e, "avl:pop-empty", "pop from an empty tree returned an element");
            return;
        }
        EV("avl.pop_end");
        auto it = first ? r.m.begin() : std::prev(r.m.end());
        Assoc a = it->second;
        r.m.erase(it);
        same(e, &a, first ? "pop_first" : "pop_last", 0);
        orphan(e, a);
        size(r);
    }
    void copy(size_t i)
    {
        Rig &r = *rigs[i];
        TR("copy tree %zu", i);
        EV("avl.copy");
        Rig *n = new Rig(less);
        n->m = r.m;
        rigs.emplace_back(n);
        n->t = avl_tree_copy(r.t);
        traverse(*n);
        size(*n);
        if (rigs.size() > 3) {
            size_t k = g.below(rigs.size());
            TR("destroy tree %zu", k);
            destroy_avl_tree(rigs[k]->t);
            rigs[k]->t = nullptr;
            rigs.erase(rigs.begin() + k);
        }
    }
    void all_paths(Rig &r, size_t limit)
    {
        // every stored key and the gaps around it (or a sample)
        size_t n = r.m.size();
        if (n <= limit) {
            std::vector<i64> ks;
            for (auto &p : r.m)
                ks.push_back(p.first);
            for (i64 v : ks) {
                lookup(r, v);
                lookup(r, v + 1);
            }
            if (!ks.empty())
                lookup(r, ks.front() - 1);
        } else
            for (size_t i = 0; i < limit; i++) {
                auto it = r.m.lower_bound(g.range(-(i64) n * 2, (i64) n * 3));
                if (it == r.m.end())
                    it = std::prev(it);
                lookup(r, it->first);
            }
    }
    void audit_keys()
    {
        for (auto &k : pool)
            CHECK(k->check == ksum(k->v), "avl:keychange", "a key object was modified");
    }
    void finish()
    {
        for (auto &r : rigs) {
            traverse(*r);
            size(*r);
        }
        for (auto &o : orphans)
            same(o.e, &o.a, "detached element", 0);
        for (auto &o : orphans)
            destroy_avl_element(o.e);
        orphans.clear();
        for (auto &r : rigs) {
            destroy_avl_tree(r->t);
            r->t = nullptr;
        }
        rigs.clear();
        audit_keys();
    }
};

// -------- random histories
void history(Case &c, bool path)
{
    AvlCase a(c, path);
    Gen &g = c.g;
    int profile = g.below(8);
    u64 span, ops;
    if (g.chance(2, 3)) {
        span = 1 + g.below(40);
        ops = 20 + g.below(200);
    } else if (g.chance(3, 4)) {
        span = 20 + g.below(600);
        ops = 200 + g.below(1500);
    } else {
        span = 500 + g.size(4000);
        ops = 2000 + g.below(opt.asan() ? 4000 : 12000);
    }
    bool wide = g.chance(1, 5); // extreme key values
    auto pickkey = [&]() -> i64 {
        i64 v = g.range(0, span);
        if (wide)
            return (i64) mix64(v);
        return v - (i64) span / 3;
    };
    c.mix(profile);
    i64 seq = 0, tail = 0;
    unsigned insert_bias = 5;
    bool small = span <= 40;
    for (u64 i = 0; i < ops; i++) {
        size_t ri = g.below(a.rigs.size());
        Rig &r = *a.rigs[ri];
        if (i % 64 == 0)
            insert_bias = 1 + g.below(9);
        i64 v = pickkey();
        unsigned what = g.below(100);
        c.mix(what);
        c.mix(v);
        if (what < 60) {
            bool ins = g.below(10) < insert_bias;
            switch (profile) {
                case 0: // ascending then removal from the front
                    if (ins)
                        a.put(r, seq++, a.value());
                    else if (r.m.size())
                        a.take(r, r.m.begin()->first, g.below(4));
                    break;
                case 1: // descending
                    if (ins)
                        a.put(r, --tail, a.value());
                    else if (r.m.size())
                        a.take(r, std::prev(r.m.end())->first, g.below(4));
                    break;
                case 2: // sliding window
                    a.put(r, seq++, a.value());
                    if (r.m.size() > span / 2 + 1)
                        a.take_end(r, true);
                    break;
                case 3: // middle removals
                    if (ins)
                        a.put(r, v, a.value());
                    else if (r.m.size()) {
                        auto it = r.m.begin();
                        std::advance(it, r.m.size() / 2);
                        a.take(r, it->first, g.below(4));
                    }
                    break;
                case 4: // zigzag
                    if (ins)
                        a.put(r, (seq & 1) ? seq++ : -(seq++), a.value());
                    else
                        a.take_end(r, g.chance(1, 2));
                    break;
                default:
                    if (ins)
                        a.put(r, v, a.value());
                    else
                        a.take(r, v, g.below(4));
            }
        } else if (what < 75)
            a.lookup(r, r.m.size() && g.chance(1, 2)
                            ? std::next(r.m.begin(), g.below(std::min<size_t>(r.m.size(), 50)))->first
                            : v);
        else if (what < 80) {
            auto it = r.m.find(v);
            if (it != r.m.end())
                a.put(r, v, it->second.value); // no effect
            else
                a.put(r, v, a.value());
        } else if (what < 84)
            a.take_end(r, g.chance(1, 2));
        else if (what < 85) {
            if (r.m.size() < 3000)
                a.copy(ri);
        } else if (what < 87 && !small)
            ;
        else if (small || what >= 98)
            a.traverse(r);
        if (path && (small || i % 97 == 0) && !a.rigs.empty())
            a.all_paths(*a.rigs[g.below(a.rigs.size())], small ? 60 : 40);
        size_t total = 0;
        for (auto &x : a.rigs)
            total = std::max(total, x->m.size());
        if (total > 3)
            c.nontrivial = true;
    }
    for (auto &r : a.rigs)
        if (path)
            a.all_paths(*r, 500);
    size_t n0 = a.rigs[0]->m.size();
    a.finish();
    if (c.text.empty())
        c.text = fmtstr("%llu operations, profile %d, key span %llu, final size %zu, longest path %u",
                        (unsigned long long) ops, profile, (unsigned long long) span, n0, a.maxpath);
}
void c01_case(Case &c) { history(c, false); }
void c02_case(Case &c) { history(c, true); }

// -------- exhaustive toggling of k keys, branching by copying the tree
struct Toggle {
    AvlCase &a;
    unsigned k;
    u64 nodes = 0;
    void rec(avl_tree_t *t, unsigned set, unsigned depth, const std::vector<K *> &keys)
    {
        nodes++;
        // judge
        unsigned n = __builtin_popcount(set);
        CHECK(avl_tree_size(t) == n, "avl:size", "size %zu, expected %u", avl_tree_size(t), n);
        avl_elem_t *e = avl_tree_get_first(t);
        for (unsigned i = 0; i < k; i++)
            if (set >> i & 1) {
                CHECK(e && avl_elem_get_key(e) == keys[i], "avl:traverse",
                      "key %u missing in the traversal", i);
                e = avl_tree_next(e);
            }
        CHECK(!e, "avl:traverse", "surplus element in the traversal");
        for (unsigned i = 0; i < k; i++) {
            K probe = *keys[i];
            a.begin(&probe);
            avl_elem_t *f = avl_tree_get(t, &probe);
            a.end(*a.rigs[0], n, "get", i);
            CHECK(!!f == (set >> i & 1), "avl:get", "get(%u) wrong", i);
        }
        if (!depth)
            return;
        for (unsigned i = 0; i < k; i++) {
            avl_tree_t *u = avl_tree_copy(t);
            if (set >> i & 1) {
                avl_elem_t *f = avl_tree_pop(u, keys[i]);
                CHECK(f && avl_elem_get_key(f) == keys[i], "avl:pop", "pop(%u) wrong", i);
                destroy_avl_element(f);
            } else
                CHECK(!avl_tree_put(u, keys[i], keys[i]), "avl:put", "put(%u) returned an element", i);
            rec(u, set ^ 1u << i, depth - 1, keys);
            destroy_avl_tree(u);
        }
    }
};
void toggle_sweep(Sweep &s, bool path)
{
    struct Job {
        unsigned k, depth, start;
    };
    std::vector<Job> jobs;
    // from every insertion order prefix: start sets built in a fixed way, then
    // all toggle sequences
    for (unsigned k = 1; k <= 5; k++)
        jobs.push_back({k, opt.quick() ? 6u : 8u, 0});
    for (unsigned v = 0; v < 64; v++)
        jobs.push_back({7, opt.quick() ? 4u : 5u, v + 1});
    for (unsigned v = 0; v < 64; v++)
        jobs.push_back({12, opt.quick() ? 3u : 4u, v + 1});
    for (unsigned v = 0; v < 48; v++)
        jobs.push_back({20, 2, v + 1});
    for (size_t j = 0; j < jobs.size(); j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        s.where(j);
        Job J = jobs[j];
        Case c(mix64(j), j);
        AvlCase a(c, path);
        std::vector<K *> keys;
        for (unsigned i = 0; i < J.k; i++)
            keys.push_back(a.key(a.less.reverse ? -(i64) i : i));
        Rig &r = *a.rigs[0];
        unsigned set = 0;
        Gen g(J.start * 1000 + J.k);
        if (J.start) {
            std::vector<unsigned> order;
            for (unsigned i = 0; i < J.k; i++)
                order.push_back(i);
            for (unsigned i = J.k; i-- > 1;)
                std::swap(order[i], order[g.below(i + 1)]);
            for (unsigned i : order) {
                CHECK(!avl_tree_put(r.t, keys[i], keys[i]), "avl:put", "put returned an element");
                set |= 1u << i;
            }
        }
        Toggle t{a, J.k};
        t.rec(r.t, set, J.depth, keys);
        s.evals += t.nodes;
        s.distinct += t.nodes;
        EVN("avl.toggle_states", t.nodes);
        s.sample(fmtstr("%u keys, start %u, all toggle sequences up to depth %u: %llu tree states judged",
                        J.k, J.start, J.depth, (unsigned long long) t.nodes));
    }
}
void c01_toggle(Sweep &s) { toggle_sweep(s, false); }
void c02_toggle(Sweep &s) { toggle_sweep(s, true); }

// -------- large trees
void big_sweep(Sweep &s, bool path)
{
    struct Job {
        int pattern;
        size_t n;
    };
    std::vector<Job> jobs;
    size_t N = opt.asan() ? 20000 : opt.quick() ? 70000 : 1200000;
    for (int p = 0; p < 8; p++)
        jobs.push_back({p, N});
    s.exhaustive = false;
    for (size_t j = 0; j < jobs.size(); j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        s.where(j);
        Case c(mix64(j ^ opt.seed << 8), j);
        AvlCase a(c, path);
        Rig &r = *a.rigs[0];
        size_t n = jobs[j].n;
        Gen &g = c.g;
        auto keyat = [&](size_t i) -> i64 {
            switch (jobs[j].pattern) {
                case 0: return i;
                case 1: return -(i64) i;
                case 2: return i & 1 ? (i64) i : -(i64) i;
                case 3: return (i64) (i * 2654435761u % n);
                case 4: return (i64) (mix64(i) >> 20);
                case 5: return (i64) (i ^ (i >> 1));
                case 6: return (i64) ((i % 300) * n + i / 300);
                default: return (i64) __builtin_bswap32((u32) i);
            }
        };
        for (size_t i = 0; i < n; i++) {
            a.put(r, keyat(i), a.value());
            if ((i & (i + 1)) == 0 || i % 4096 == 0)
                s.tick();
        }
        a.all_paths(r, 3000);
        if (!path) {
            a.traverse(r);
            if (j < 2) {
                a.copy(0);
            }
        }
        // take out: fronts, stripes, then random
        size_t step = 0;
        while (r.m.size() > n / 16) {
            step++;
            if (step % 1024 == 0)
                s.tick();
            switch (jobs[j].pattern % 4) {
                case 0:
                    a.take_end(r, true);
                    break;
                case 1:
                    a.take_end(r, step % 3 == 0);
                    break;
                case 2: {
                    auto it = r.m.lower_bound(keyat(g.below(n)));
                    if (it == r.m.end())
                        it = r.m.begin();
                    a.take(r, it->first, g.below(4));
                    break;
                }
                default: {
                    i64 from = keyat(g.below(n));
                    for (int q = 0; q < 64; q++) {
                        auto it = r.m.lower_bound(from);
                        if (it == r.m.end())
                            it = r.m.begin();
                        if (it == r.m.end())
                            break;
                        a.take(r, it->first, g.below(4));
                    }
                    break;
                }
            }
            if (step % (n / 8) == 0) {
                a.all_paths(r, 500);
                if (!path)
                    a.traverse(r);
            }
        }
        a.all_paths(r, 2000);
        s.evals += n * 2;
        s.distinct++;
        a.finish();
        s.sample(fmtstr("pattern %d, %zu keys inserted and removed down to 1/16, longest path %u (limit %u)",
                        jobs[j].pattern, n, a.maxpath, max_height(n)));
    }
}
void c01_big(Sweep &s) { big_sweep(s, false); }
void c02_big(Sweep &s) { big_sweep(s, true); }

} // namespace

REG_CASES("C01", avl_history, c01_case, 9000, 2400, 30, OWN | THR);
REG_SWEEP("C01", avl_toggle, c01_toggle, 1, 0, 0);
REG_SWEEP("C01", avl_big, c01_big, 1, 1, 0);
REG_CASES("C02", avl_path, c02_case, 7000, 500, 30, 0);
REG_SWEEP("C02", avl_path_toggle, c02_toggle, 1, 0, 0);
REG_SWEEP("C02", avl_path_big, c02_big, 1, 0, 0);
