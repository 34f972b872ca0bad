// C34: objects are independent of one another, also when one is used inside a
// callback of another. Every callback of every object may run operations on
// the other objects, to a depth of three; each is judged by its own model.
#include "core.h"
#include <fsdyn/avltree.h>
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/date.h>
#include <fsdyn/float.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/intset.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>
#include <deque>
#include <memory>

namespace {
struct World;
thread_local World *W;
struct Obj {
    bool busy = false;
    World &w;
    Gen &g;
    explicit Obj(World &ww);
    virtual void step() = 0;
    virtual void finish() = 0;
    virtual ~Obj() {}
};
struct World {
    Case &c;
    Gen &g;
    std::vector<std::unique_ptr<Obj>> objs;
    int depth = 0;
    u64 budget;
    unsigned rate;
    explicit World(Case &cc) : c(cc), g(cc.g) { W = this; }
    ~World() { W = nullptr; }
    std::unique_ptr<Obj> fresh();
    void run(size_t i)
    {
        Obj *o = objs[i].get();
        if (o->busy)
            return;
        o->busy = true;
        if (depth && g.chance(1, 12)) { // another takes its place
            o->finish();
            objs[i] = fresh();
            EV("nest.replaced");
            return;
        }
        o->step();
        o->busy = false;
    }
    void nested()
    {
        if (depth >= 3 || !budget || !g.chance(1, rate))
            return;
        budget--;
        depth++;
        EV("nest.call");
        if (depth == 3)
            EV("nest.deep");
        int e = errno;
        run(g.below(objs.size()));
        errno = e;
        depth--;
    }
};
Obj::Obj(World &ww) : w(ww), g(ww.g) {}

struct Key {
    u64 magic;
    int v;
};
const u64 MAGIC = 0x6e657374ULL;
Key keys[64];
int compare(const void *a, const void *b)
{
    const Key *x = (const Key *) a, *y = (const Key *) b;
    CHECK(x >= keys && x < keys + 64 && y >= keys && y < keys + 64, "nest:badkey", "a comparator got a stranger");
    W->nested();
    return x->v < y->v ? -1 : x->v > y->v;
}
int compare_down(const void *a, const void *b) { return compare(b, a); }
int compare_in(const void *a, const void *b, void *obj)
{
    int r = compare(a, b);
    CHECK(((Obj *) obj)->busy, "nest:context", "a comparator of an idle object was called");
    return r;
}
u64 hash(const void *k)
{
    W->nested();
    return mix64(((const Key *) k)->v % 17);
}
u64 hash2(const void *k)
{
    W->nested();
    return 1000 - ((const Key *) k)->v;
}

struct Tree : Obj {
    avl_tree_t *t;
    std::map<int, const void *> m; // by rank
    int kind;
    explicit Tree(World &ww) : Obj(ww)
    {
        kind = g.below(3);
        t = kind == 0 ? make_avl_tree_2(compare_in, (Obj *) this) : make_avl_tree(kind == 1 ? compare : compare_down);
    }
    const Key *key(int rank) { return &keys[kind == 2 ? 63 - rank : rank]; }
    void same(avl_elem_t *e, std::map<int, const void *>::iterator it, const char *what)
    {
        if (it == m.end()) {
            CHECK(!e, "nest:avl", "%s found an element, none expected (%zu elements)", what, m.size());
            return;
        }
        CHECK(e && avl_elem_get_key(e) == key(it->first) && avl_elem_get_value(e) == it->second, "nest:avl",
              "%s: not the element of key %d (%zu elements)", what, it->first, m.size());
    }
    void step() override
    {
        int k = g.below(64);
        auto it = m.find(k);
        switch (g.below(9)) {
            case 0: case 1: case 2: {
                const void *val = (void *) (uintptr_t) (8 + 8 * g.below(1000));
                avl_elem_t *old = avl_tree_put(t, key(k), val);
                if (it == m.end() || it->second == val)
                    CHECK(!old, "nest:avl", "put of a new key returned an element");
                else {
                    same(old, it, "put");
                    destroy_avl_element(old);
                }
                m[k] = val;
                break;
            }
            case 3: {
                avl_elem_t *e = avl_tree_pop(t, key(k));
                same(e, it, "pop");
                if (e) {
                    destroy_avl_element(e);
                    m.erase(it);
                }
                break;
            }
            case 4:
                if (g.chance(1, 2))
                    same(avl_tree_get_on_or_after(t, key(k)), m.lower_bound(k), "get_on_or_after");
                else
                    same(avl_tree_get_after(t, key(k)), m.upper_bound(k), "get_after");
                break;
            case 5: {
                bool on = g.chance(1, 2);
                auto jt = on ? m.upper_bound(k) : m.lower_bound(k);
                if (on)
                    same(avl_tree_get_on_or_before(t, key(k)), jt == m.begin() ? m.end() : --jt, "get_on_or_before");
                else
                    same(avl_tree_get_before(t, key(k)), jt == m.begin() ? m.end() : --jt, "get_before");
                break;
            }
            case 6: {
                avl_tree_t *copy = avl_tree_copy(t);
                CHECK(avl_tree_size(copy) == m.size(), "nest:avl", "a copy of %zu elements has %zu", m.size(),
                      avl_tree_size(copy));
                destroy_avl_tree(t);
                t = copy;
                break;
            }
            case 7:
                if (it != m.end()) {
                    avl_elem_t *e = avl_tree_get(t, key(k));
                    same(e, it, "get");
                    avl_tree_remove(t, e);
                    m.erase(it);
                }
                break;
            default:
                same(avl_tree_get(t, key(k)), it, "get");
        }
        CHECK(avl_tree_size(t) == m.size(), "nest:avl", "size %zu, expected %zu", avl_tree_size(t), m.size());
    }
    void finish() override
    {
        avl_elem_t *e = avl_tree_get_first(t);
        for (auto it = m.begin(); it != m.end(); ++it) {
            same(e, it, "traversal");
            e = avl_tree_next(e);
        }
        CHECK(!e, "nest:avl", "the tree has more elements than expected");
        destroy_avl_tree(t);
    }
};
struct Hash : Obj {
    hash_table_t *t;
    std::map<int, const void *> m;
    explicit Hash(World &ww) : Obj(ww) { t = make_hash_table(g.below(80), g.chance(1, 2) ? hash : hash2, compare); }
    void same(hash_elem_t *e, std::map<int, const void *>::iterator it, const char *what)
    {
        if (it == m.end()) {
            CHECK(!e, "nest:hash", "%s found an element, none expected", what);
            return;
        }
        CHECK(e && hash_elem_get_key(e) == &keys[it->first] && hash_elem_get_value(e) == it->second, "nest:hash",
              "%s: not the element of key %d", what, it->first);
    }
    void step() override
    {
        int k = g.below(64);
        auto it = m.find(k);
        switch (g.below(6)) {
            case 0: case 1: case 2: {
                const void *val = (void *) (uintptr_t) (8 + 8 * g.below(1000));
                hash_elem_t *old = hash_table_put(t, &keys[k], val);
                if (it == m.end() || it->second == val)
                    CHECK(!old, "nest:hash", "put of a new key returned an element");
                else {
                    same(old, it, "put");
                    destroy_hash_element(old);
                }
                m[k] = val;
                break;
            }
            case 3: {
                hash_elem_t *e = hash_table_pop(t, &keys[k]);
                same(e, it, "pop");
                if (e) {
                    destroy_hash_element(e);
                    m.erase(it);
                }
                break;
            }
            case 4:
                if (it != m.end()) {
                    hash_elem_t *e = hash_table_get(t, &keys[k]);
                    same(e, it, "get");
                    hash_table_remove(t, e);
                    m.erase(it);
                }
                break;
            default:
                same(hash_table_get(t, &keys[k]), it, "get");
        }
        CHECK(hash_table_size(t) == m.size(), "nest:hash", "size %zu, expected %zu", hash_table_size(t), m.size());
    }
    void finish() override
    {
        size_t n = 0;
        for (hash_elem_t *e = hash_table_get_any(t); e; e = hash_table_get_other(e), n++)
            same(e, m.find((const Key *) hash_elem_get_key(e) - keys), "traversal");
        CHECK(n == m.size(), "nest:hash", "the traversal visits %zu of %zu elements", n, m.size());
        destroy_hash_table(t);
    }
};
struct Queue : Obj {
    struct El {
        int prio;
        void *loc;
        bool in;
        Queue *q;
    };
    priorq_t *q;
    bool ctx, reloc, down = false;
    std::deque<El> els;
    size_t n = 0;
    static int cmp(const void *a, const void *b)
    {
        const El *x = (const El *) a, *y = (const El *) b;
        CHECK(x->q == y->q && x->q->busy, "nest:queue", "a comparator got elements of different queues");
        W->nested();
        return x->prio < y->prio ? -1 : x->prio > y->prio;
    }
    static int cmp_down(const void *a, const void *b)
    {
        return cmp(b, a);
    }
    static int cmp_in(const void *a, const void *b, void *obj)
    {
        CHECK(((const El *) a)->q == obj, "nest:context", "a comparator got the context of another queue");
        return cmp(a, b);
    }
    static void moved(const void *e, void *loc)
    {
        ((El *) e)->loc = loc;
        W->nested();
    }
    static void moved_in(const void *e, void *loc, void *obj)
    {
        CHECK(((const El *) e)->q == obj, "nest:context", "a relocation callback got the context of another queue");
        moved(e, loc);
    }
    explicit Queue(World &ww) : Obj(ww)
    {
        ctx = g.chance(1, 2);
        reloc = g.chance(2, 3);
        down = !ctx && g.chance(1, 2);
        q = ctx ? make_priority_queue_2(cmp_in, reloc ? moved_in : nullptr, this)
                : make_priority_queue(down ? cmp_down : cmp, reloc ? moved : nullptr);
    }
    int least()
    {
        int p = down ? INT_MIN : INT_MAX;
        for (auto &e : els)
            if (e.in)
                p = down ? std::max(p, e.prio) : std::min(p, e.prio);
        return p;
    }
    void gone(const void *p, const char *what)
    {
        for (auto &e : els)
            if (&e == p && e.in) {
                e.in = false;
                n--;
                return;
            }
        violate("nest:queue", "%s returned what is not in the queue of %zu elements", what, n);
    }
    void step() override
    {
        unsigned op = g.below(8);
        if (n > 60 && op < 4)
            op = 4;
        if (op < 4) {
            els.push_back(El{(int) g.below(50), nullptr, true, this});
            n++;
            priorq_enqueue(q, &els.back());
        } else if (op < 6) {
            int p = least();
            const void *e = priorq_dequeue(q);
            if (!n)
                CHECK(!e, "nest:queue", "an empty queue yielded an element");
            else {
                gone(e, "dequeue");
                CHECK(((const El *) e)->prio == p, "nest:queue", "dequeued priority %d while %d was there (%zu elements)",
                      ((const El *) e)->prio, p, n);
            }
        } else if (op == 6 && reloc) {
            for (auto &e : els)
                if (e.in && g.chance(1, 1 + n / 2)) {
                    const void *p = priorq_remove(q, e.loc);
                    CHECK(p == &e, "nest:queue", "removal by locator returned another element (%zu elements)", n);
                    gone(p, "remove");
                    break;
                }
        } else {
            const void *e = priorq_peek(q);
            CHECK(n ? e && ((const El *) e)->prio == least() : !e, "nest:queue", "peek is wrong (%zu elements)", n);
        }
        CHECK(priorq_size(q) == n, "nest:queue", "size %zu, expected %zu", priorq_size(q), n);
    }
    void finish() override
    {
        while (n) {
            int p = least();
            const void *e = priorq_dequeue(q);
            gone(e, "dequeue");
            CHECK(((const El *) e)->prio == p, "nest:queue", "draining: priority %d while %d was there",
                  ((const El *) e)->prio, p);
        }
        destroy_priority_queue(q);
    }
};
struct List : Obj {
    list_t *l;
    std::deque<const void *> m;
    explicit List(World &ww) : Obj(ww) { l = make_list(); }
    struct Walk {
        List *self;
        size_t n;
    };
    static void visit(const void *v, void *arg)
    {
        Walk *k = (Walk *) arg;
        CHECK(k->n < k->self->m.size() && k->self->m[k->n] == v, "nest:list", "foreach: wrong value at place %zu of %zu",
              k->n, k->self->m.size());
        k->n++;
        W->nested();
    }
    void walk()
    {
        Walk k{this, 0};
        list_foreach(l, visit, &k);
        CHECK(k.n == m.size(), "nest:list", "foreach visited %zu of %zu", k.n, m.size());
    }
    void step() override
    {
        const void *v = (void *) (uintptr_t) (1 + g.below(1000));
        switch (m.size() > 40 ? 4 + g.below(2) : g.below(8)) {
            case 0: case 1:
                list_append(l, v);
                m.push_back(v);
                break;
            case 2: case 3:
                list_prepend(l, v);
                m.push_front(v);
                break;
            case 4:
                CHECK(list_pop_first(l) == (m.empty() ? nullptr : m.front()), "nest:list", "pop_first is wrong");
                if (!m.empty())
                    m.pop_front();
                break;
            case 5:
                CHECK(list_pop_last(l) == (m.empty() ? nullptr : m.back()), "nest:list", "pop_last is wrong");
                if (!m.empty())
                    m.pop_back();
                break;
            default:
                walk();
        }
        CHECK(list_size(l) == m.size(), "nest:list", "size %zu, expected %zu", list_size(l), m.size());
    }
    void finish() override
    {
        walk();
        destroy_list(l);
    }
};
struct Array : Obj {
    byte_array_t *a;
    std::string m;
    size_t max;
    std::string more;
    size_t at = 0;
    explicit Array(World &ww) : Obj(ww)
    {
        max = g.chance(1, 2) ? SIZE_MAX : 1 + g.below(3000);
        a = make_byte_array(max);
    }
    static ssize_t read(void *obj, void *buf, size_t count)
    {
        Array *s = (Array *) obj;
        CHECK(s->busy, "nest:array", "a reader of an idle array was called");
        W->nested();
        size_t n = std::min(count, s->more.size() - s->at);
        memcpy(buf, s->more.data() + s->at, n);
        W->nested();
        s->at += n;
        return n;
    }
    void same()
    {
        CHECK(byte_array_size(a) == m.size() && !memcmp(byte_array_data(a), m.data(), m.size()) &&
                  !((const char *) byte_array_data(a))[m.size()],
              "nest:array", "the contents differ (%zu bytes, expected %zu)", byte_array_size(a), m.size());
    }
    void step() override
    {
        std::string s;
        for (size_t n = g.below(200); n; n--)
            s += (char) g.below(256);
        size_t room = max - m.size() - 1;
        if (m.size() > 20000) {
            byte_array_clear(a);
            m.clear();
        }
        if (g.chance(1, 3)) {
            bool ok = byte_array_append(a, s.data(), s.size());
            CHECK(ok == (s.size() <= max - m.size() - 1), "nest:array", "append of %zu bytes: wrong result", s.size());
            if (ok)
                m += s;
        } else {
            more = s;
            at = 0;
            size_t want = g.below(300);
            ssize_t n = byte_array_append_stream(a, read, this, want);
            if (n < 0)
                CHECK(room == 0 && at == 0, "nest:array", "append_stream failed with room for %zu", room);
            else {
                CHECK((size_t) n == at && at <= want, "nest:array", "append_stream returned %zd, read %zu", n, at);
                m += s.substr(0, at);
            }
        }
        same();
    }
    void finish() override
    {
        same();
        destroy_byte_array(a);
    }
};
struct Set : Obj {
    intset_t *s;
    std::vector<bool> m;
    explicit Set(World &ww) : Obj(ww)
    {
        m.resize(1 + g.below(300));
        s = make_intset(m.size());
    }
    void step() override
    {
        unsigned e = g.below(m.size());
        CHECK(intset_has(s, e) == m[e], "nest:intset", "element %u is wrong", e);
        bool add = g.chance(1, 2);
        if (add)
            intset_add(s, e);
        else
            intset_remove(s, e);
        m[e] = add;
    }
    void finish() override
    {
        for (size_t i = 0; i < m.size(); i++)
            CHECK(intset_has(s, i) == m[i], "nest:intset", "element %zu is wrong", i);
        destroy_intset(s);
    }
};
// functions without state: the same result as the first time
std::string take(char *p)
{
    std::string s = p ? std::string("+") + p : "-";
    fsfree(p);
    return s;
}
struct Pure : Obj {
    struct Job {
        int what;
        std::string in;
        u64 num;
        std::string out;
    };
    std::vector<Job> jobs;
    static std::string text(Gen &g)
    {
        static const char *const bits[] = {"a", "B", "\xc3\xa9", "e\xcc\x81", "\xcc\xa3\xcc\x81", "\xef\xac\x81",
                                           "%", " ", ",", ".", "-", "\xff", "\xea\xb0\x81", "\xe1\x84\x80\xe1\x85\xa1",
                                           "0", "=", "+", "/", "Zm9v", "example", "\xc3\x9f", "\xe0\xa5\x98"};
        std::string s;
        for (size_t n = g.below(25); n; n--)
            s += bits[g.below(22)];
        return s;
    }
    static std::string eval(const Job &j)
    {
        const char *s = j.in.c_str(), *end = s + j.in.size();
        char buf[2000];
        char *e;
        switch (j.what) {
            case 0: return take(charstr_url_encode(s));
            case 1: return take(charstr_url_decode(s, j.num & 1, nullptr));
            case 2: return take(charstr_sanitize_utf8(s));
            case 3: return take(charstr_idna_encode(s));
            case 4: return take(charstr_strip(s));
            case 5: return take(charstr_printf("%s|%08llx|%.3f|%*d", s, (unsigned long long) j.num, j.num / 1e9, 12, (int) j.num));
            case 6: return take(base64_encode_simple(s, j.in.size()));
            case 7:
                e = charstr_unicode_decompose(s, end, buf, buf + sizeof buf);
                return e ? std::string(buf, e - buf) : "-";
            case 8:
                e = charstr_unicode_recompose(s, end, buf, buf + sizeof buf);
                return e ? std::string(buf, e - buf) : "-";
            case 9: {
                list_t *l = charstr_split(s, ',', j.num % 5);
                std::string r;
                while (!list_empty(l))
                    r += take((char *) list_pop_first(l)) + "|";
                destroy_list(l);
                return r;
            }
            case 10: {
                struct tm tm;
                memset(&tm, 0, sizeof tm);
                epoch_to_utc((time_t) (j.num % ((u64) 1 << 40)), &tm);
                return fmtstr("%d-%d-%d %d:%d:%d %d %d", tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min,
                              tm.tm_sec, tm.tm_wday, tm.tm_yday);
            }
            case 11: {
                charstr_url_encoder_t *u = charstr_create_url_encoder(s, "/-%");
                W->nested();
                std::string r = take(charstr_url_custom_encode(u, s));
                W->nested();
                r += charstr_url_custom_encode_byte(u, j.num);
                charstr_destroy_url_encoder(u);
                return r;
            }
            default:
                return fmtstr("%d %d %d", charstr_unicode_category(j.num % 0x110000),
                              (int) charstr_unicode_canonically_composed(s, end),
                              (int) charstr_unicode_canonically_decomposed(s, end));
        }
    }
    explicit Pure(World &ww) : Obj(ww)
    {
        for (int i = 0; i < 4; i++) {
            int b = 0;
            std::swap(b, w.depth); // the first evaluation: nothing nested
            u64 budget = w.budget;
            w.budget = 0;
            Job j{(int) g.below(13), text(g), g.prng(), ""};
            j.out = eval(j);
            w.budget = budget;
            std::swap(b, w.depth);
            jobs.push_back(j);
        }
    }
    void step() override
    {
        const Job &j = g.pick(jobs);
        std::string r = eval(j);
        CHECK(r == j.out, "nest:pure", "function %d on %s: %s, the first time %s", j.what,
              hexdump(j.in.data(), j.in.size()).c_str(), hexdump(r.data(), r.size()).c_str(),
              hexdump(j.out.data(), j.out.size()).c_str());
        if (w.depth)
            EV("nest.pure");
    }
    void finish() override {}
};
std::unique_ptr<Obj> World::fresh()
{
    switch (g.below(9)) {
        case 0: case 1: return std::unique_ptr<Obj>(new Tree(*this));
        case 2: return std::unique_ptr<Obj>(new Hash(*this));
        case 3: case 4: return std::unique_ptr<Obj>(new Queue(*this));
        case 5: return std::unique_ptr<Obj>(new List(*this));
        case 6: return std::unique_ptr<Obj>(new Array(*this));
        case 7: return std::unique_ptr<Obj>(new Set(*this));
        default: return std::unique_ptr<Obj>(new Pure(*this));
    }
}
void history(Case &c)
{
    Gen &g = c.g;
    for (int i = 0; i < 64; i++)
        keys[i] = Key{MAGIC, i};
    World w(c);
    w.budget = 0;
    w.rate = 2 + g.below(12);
    size_t n = 2 + g.below(8);
    for (size_t i = 0; i < n; i++)
        w.objs.push_back(w.fresh());
    w.budget = opt.asan() ? 600 : 1500;
    u64 total = w.budget, ops = 20 + g.below(opt.asan() ? 150 : 400);
    for (u64 i = 0; i < ops; i++)
        w.run(g.below(n));
    u64 used = total - w.budget;
    for (auto &o : w.objs) {
        o->busy = true;
        o->finish();
    }
    c.evals += used;
    c.nontrivial = used > 5;
    c.mix(ops);
    c.mix(g.prng());
    c.text = fmtstr("%zu objects, %llu operations and %llu more inside their callbacks", n, (unsigned long long) ops,
                    (unsigned long long) used);
}
} // namespace
REG_CASES("C34", nest_history, history, 40000, 8000, 20, 0);
