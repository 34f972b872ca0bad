// C30: the C++ wrappers under a recording reallocator.
#include "core.h"
#include <fsdyn/avltree.h>
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/date.h>
#include <fsdyn/float.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/intset.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>
#include <memory>
#include <type_traits>
using namespace fsecure::fsdyn;
AllocPtr<char> other_make_plain(size_t n);
ByteArrayPtr other_make_bytes(size_t n);
CharstrUrlEncoderPtr other_make_encoder(const char *r, const char *u);
void other_take(AllocPtr<char> p);
void other_take(ByteArrayPtr p);
void other_take(CharstrUrlEncoderPtr p);

namespace {
// blocks, and the object on whose behalf they were allocated
struct Block {
    size_t size;
    int owner;
};
std::map<void *, Block> blocks;
std::map<int, int> held; // owner -> live blocks
int owner = 0, in_force = 0, called = -1, wrong = 0;
u64 freed;
void *serve(int who, void *p, size_t n)
{
    if (who != in_force)
        wrong++;
    called = who;
    int o = owner;
    size_t old = 0;
    if (p) {
        auto it = blocks.find(p);
        if (it == blocks.end())
            violate_now("cxx:double", "something was freed twice, or freed though it was never allocated");
        o = it->second.owner;
        old = it->second.size;
        blocks.erase(it);
        held[o]--;
    }
    void *q = nullptr;
    if (n) {
        q = malloc(n);
        memset(q, 0xd7, n);
        memcpy(q, p, old < n ? old : n);
        blocks[q] = {n, o};
        held[o]++;
    } else
        freed++;
    if (p) {
        memset(p, 0xdb, old);
        free(p);
    }
    return q;
}
template <int K> void *R(void *p, size_t n) { return serve(K, p, n); }
const fs_realloc_t RE[3] = {R<0>, R<1>, R<2>};
struct Pod {
    long a, b;
    char c[20];
};
template <class T> struct Kind;
template <class T> struct PlainKind {
    typedef AllocPtr<T> ptr;
    static T *make(Gen &g) { return (T *) fsalloc(sizeof(T) * (1 + g.below(50))); }
    static void destroy(T *p) { fsfree(p); }
    static ptr wrap(T *p) { return make_fsalloc_ptr<T>(p); }
    static const char *name() { return "AllocPtr"; }
    static void use(T *p) { memset((void *) p, 1, sizeof(T)); }
    static bool share(T *) { return false; }
};
struct BytesKind {
    typedef ByteArrayPtr ptr;
    static byte_array_t *make(Gen &g)
    {
        byte_array_t *a = make_byte_array(1 + g.below(2000));
        byte_array_append(a, "0123456789", g.below(11));
        return a;
    }
    static void destroy(byte_array_t *p) { destroy_byte_array(p); }
    static ptr wrap(byte_array_t *p) { return make_byte_array_ptr(p); }
    static const char *name() { return "ByteArrayPtr"; }
    static void use(byte_array_t *p) { byte_array_append(p, "abc", 3); }
    static bool share(byte_array_t *p)
    {
        share_byte_array(p);
        return true;
    }
};
struct EncoderKind {
    typedef CharstrUrlEncoderPtr ptr;
    static charstr_url_encoder_t *make(Gen &g)
    {
        static const char *const S[] = {"", "ab", "-._", "%+/?", "xyz"};
        const char *r = S[g.below(5)];
        return charstr_create_url_encoder(r, g.chance(1, 2) ? "" : "!*");
    }
    static void destroy(charstr_url_encoder_t *p) { charstr_destroy_url_encoder(p); }
    static ptr wrap(charstr_url_encoder_t *p) { return make_charstr_url_encoder_ptr(p); }
    static const char *name() { return "CharstrUrlEncoderPtr"; }
    static void use(charstr_url_encoder_t *p)
    {
        char *s = charstr_url_custom_encode(p, "hello world");
        fsfree(s);
    }
    static bool share(charstr_url_encoder_t *) { return false; }
};
static_assert(!std::is_copy_constructible<ByteArrayPtr>::value, "");
static_assert(std::is_nothrow_move_constructible<AllocPtr<char>>::value, "");

int next_owner;
// an empty std::function cannot delete; any other deleter can
template <class D>
auto can_delete(D &d, int) -> decltype(static_cast<bool>(d))
{
    return static_cast<bool>(d);
}
template <class D>
bool can_delete(D &, long)
{
    return true;
}
template <class D>
bool can_delete(D &d)
{
    return can_delete(d, 0);
}
template <class K> void history(Case &c)
{
    typedef typename K::ptr P;
    typedef typename P::pointer raw;
    Gen &g = c.g;
    blocks.clear();
    held.clear();
    wrong = 0;
    in_force = g.below(3);
    fs_set_reallocator(RE[in_force]);
    struct Slot {
        bool alive = false;
        typename std::aligned_storage<sizeof(P), alignof(P)>::type mem;
        int own = 0; // the object it owns, 0 none
        P &p() { return *(P *) &mem; }
    };
    std::vector<Slot> v(4);
    std::map<int, int> refs; // object -> references outstanding
    std::map<int, raw> addr;
    std::vector<int> loose;  // references we hold ourselves
    auto fresh = [&](bool null) -> int {
        if (null)
            return 0;
        owner = ++next_owner;
        raw r = K::make(g);
        owner = 0;
        addr[next_owner] = r;
        refs[next_owner] = 1;
        CHECK(held[next_owner] > 0, "cxx:harness", "an object without blocks");
        return next_owner;
    };
    auto drop = [&](int o) { // the wrapper gave up a reference: what should remain?
        if (!o)
            return;
        if (--refs[o] == 0)
            refs.erase(o);
    };
    auto audit = [&](const char *what) {
        CHECK(!wrong, "cxx:reallocator", "%s: %s released an object through a reallocator that is not in force", K::name(), what);
        for (auto &h : held) {
            bool live = refs.count(h.first);
            CHECK(live ? h.second > 0 : h.second == 0, live ? "cxx:early" : "cxx:late", "%s: after %s, an object that is %s has %d live blocks",
                  K::name(), what, live ? "still owned" : "not owned any more", h.second);
        }
        for (auto &s : v)
            if (s.alive) {
                CHECK((s.p().get() != nullptr) == (s.own != 0) && (!s.own || s.p().get() == addr[s.own]), "cxx:pointer",
                      "%s: after %s, a wrapper holds the wrong pointer", K::name(), what);
                CHECK((bool) s.p() == (s.own != 0), "cxx:pointer", "%s: wrong truth value after %s", K::name(), what);
            }
        c.evals++;
    };
    int n = 3 + g.below(60);
    for (int i = 0; i < n; i++) {
        Slot &a = v[g.below(v.size())], &b = v[g.below(v.size())];
        if (g.chance(1, 5)) {
            in_force = g.below(3);
            fs_set_reallocator(RE[in_force]);
        }
        int op = g.below(14);
        c.mix(op);
        c.mix(&a - &v[0]);
        c.mix(&b - &v[0]);
        const char *what = "?";
        switch (op) {
            case 0: case 1: case 2: {
                if (a.alive)
                    break;
                int o = fresh(g.chance(1, 5));
                what = "construction";
                new (&a.mem) P(K::wrap(o ? addr[o] : nullptr));
                a.alive = true;
                a.own = o;
                EV("cxx.construct");
                if (!o)
                    EV("cxx.null");
                break;
            }
            case 3: {
                if (!a.alive)
                    break;
                what = "destruction";
                a.alive = false;
                drop(a.own);
                a.own = 0;
                a.p().~P();
                EV("cxx.destroy");
                break;
            }
            case 4: {
                if (!a.alive || b.alive)
                    break;
                what = "move construction";
                new (&b.mem) P(std::move(a.p()));
                b.alive = true;
                b.own = a.own;
                a.own = 0;
                EV("cxx.move");
                break;
            }
            case 5: case 6: {
                if (!a.alive || !b.alive || &a == &b)
                    break;
                what = "move assignment";
                drop(b.own);
                b.own = a.own;
                a.own = 0;
                b.p() = std::move(a.p());
                EV("cxx.assign");
                break;
            }
            case 7: {
                if (!a.alive)
                    break;
                what = "reset";
                drop(a.own);
                a.own = 0;
                if (g.chance(1, 2))
                    a.p().reset();
                else
                    a.p() = nullptr;
                EV("cxx.reset");
                break;
            }
            case 8: {
                if (!a.alive || !can_delete(a.p().get_deleter()))
                    break;
                what = "reset to another object";
                int o = fresh(g.chance(1, 6));
                drop(a.own);
                a.own = o;
                a.p().reset(o ? addr[o] : nullptr);
                EV("cxx.reset.other");
                break;
            }
            case 9: {
                if (!a.alive)
                    break;
                what = "release";
                u64 f = freed;
                raw r = a.p().release();
                CHECK(freed == f, "cxx:release", "%s: release() freed something", K::name());
                CHECK(r == (a.own ? addr[a.own] : nullptr), "cxx:release", "%s: release() gives a wrong pointer", K::name());
                if (a.own)
                    loose.push_back(a.own);
                a.own = 0;
                EV("cxx.release");
                break;
            }
            case 10: {
                if (!a.alive || !b.alive)
                    break;
                what = "swap";
                if (g.chance(1, 2))
                    a.p().swap(b.p());
                else
                    std::swap(a.p(), b.p());
                std::swap(a.own, b.own);
                EV("cxx.swap");
                break;
            }
            case 11: { // temporaries, parameters, containers, unwinding
                int o = fresh(false), o2 = fresh(g.chance(1, 2));
                switch (g.below(4)) {
                    case 0: {
                        what = "a temporary";
                        K::wrap(addr[o]);
                        drop(o);
                        if (o2) {
                            K::destroy(addr[o2]);
                            drop(o2);
                        }
                        break;
                    }
                    case 1: {
                        what = "a container";
                        std::vector<P> x;
                        x.push_back(K::wrap(addr[o]));
                        x.push_back(K::wrap(o2 ? addr[o2] : nullptr));
                        for (int k = 0; k < 5; k++)
                            x.emplace_back(K::wrap(nullptr));
                        x.erase(x.begin());
                        drop(o);
                        audit("erasing from a container");
                        drop(o2);
                        break;
                    }
                    case 2: {
                        what = "unwinding";
                        try {
                            P x = K::wrap(addr[o]);
                            P y = K::wrap(o2 ? addr[o2] : nullptr);
                            throw 1;
                        } catch (int) {
                        }
                        drop(o);
                        drop(o2);
                        break;
                    }
                    default: {
                        what = "a shared pointer";
                        {
                            std::shared_ptr<typename P::element_type> x(K::wrap(addr[o]));
                            auto y = x;
                            x.reset();
                            audit("resetting one of two shared pointers");
                        }
                        drop(o);
                        if (o2) {
                            K::destroy(addr[o2]);
                            drop(o2);
                        }
                    }
                }
                EV("cxx.scope");
                break;
            }
            case 12: {
                if (!a.alive || !a.own)
                    break;
                what = "use";
                owner = a.own;
                K::use(a.p().get());
                owner = 0;
                if (g.chance(1, 2) && K::share(a.p().get())) {
                    refs[a.own]++;
                    loose.push_back(a.own);
                    EV("cxx.shared");
                }
                break;
            }
            default: {
                what = "freeing by hand";
                if (loose.empty())
                    break;
                int o = loose.back();
                loose.pop_back();
                if (!a.alive && g.chance(1, 2)) { // adopt instead
                    new (&a.mem) P(K::wrap(addr[o]));
                    a.alive = true;
                    a.own = o;
                    break;
                }
                drop(o);
                K::destroy(addr[o]);
            }
        }
        audit(what);
    }
    for (auto &s : v)
        if (s.alive) {
            drop(s.own);
            s.p().~P();
            s.alive = false;
        }
    audit("the end of the wrappers");
    for (int o : loose) {
        drop(o);
        K::destroy(addr[o]);
    }
    audit("the end");
    CHECK(blocks.empty(), "cxx:late", "%s: %zu blocks are left", K::name(), blocks.size());
    install_monitor();
    c.nontrivial = true;
    c.text = fmtstr("%d operations on four %s wrappers", n, K::name());
}
void cxx_case(Case &c)
{
    c.mix(c.idx % 5);
    switch (c.idx / opt.nshards % 5) {
        case 0: history<PlainKind<char>>(c); break;
        case 1: history<PlainKind<Pod>>(c); break;
        case 2: history<PlainKind<u64>>(c); break;
        case 3: history<BytesKind>(c); break;
        default: history<EncoderKind>(c);
    }
}
void units_sweep(Sweep &s)
{
    if (s.shard)
        return;
    blocks.clear();
    held.clear();
    in_force = 0;
    fs_set_reallocator(RE[0]);
    for (int i = 0; i < 50; i++) {
        AllocPtr<char> a = other_make_plain(10);
        ByteArrayPtr b = other_make_bytes(100);
        CharstrUrlEncoderPtr e = other_make_encoder("a", "");
        CHECK(!blocks.empty(), "cxx:units", "nothing was allocated");
        other_take(std::move(a));
        other_take(std::move(b));
        other_take(std::move(e));
        CHECK(blocks.empty(), "cxx:units", "wrappers passed to another translation unit left %zu blocks", blocks.size());
        CHECK(!a && !b && !e, "cxx:units", "moved-from wrappers are not empty");
        other_take(ByteArrayPtr());
        other_take(make_byte_array_ptr(nullptr));
        other_take(make_fsalloc_ptr<char>(nullptr));
        other_take(make_charstr_url_encoder_ptr(nullptr));
        s.evals++;
    }
    s.distinct = 1;
    install_monitor();
    EV("cxx.units");
    s.sample("wrappers handed between two translation units");
}
} // namespace
REG_CASES("C30", cxx_history, cxx_case, 60000, 15000, 30, 0);
REG_SWEEP("C30", cxx_units, units_sweep, 1, 1, 0);
