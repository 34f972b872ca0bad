// C04: list against a vector model.
#include "core.h"
#include <fsdyn/list.h>
#include <memory>

namespace {
struct E {
    list_elem_t *e;
    const void *v;
};
struct L {
    list_t *l;
    std::vector<E> m;
};
struct Visit {
    std::vector<const void *> got;
    bool ok = true;
    u64 magic = 99;
};
void visit(const void *v, void *arg)
{
    ((Visit *) arg)->got.push_back(v);
}

struct Rig {
    Case &c;
    Gen &g;
    std::vector<std::unique_ptr<L>> ls;
    u64 nv = 1;
    explicit Rig(Case &cc) : c(cc), g(cc.g)
    {
        ls.emplace_back(new L{make_list(), {}});
    }
    const void *value(L &l)
    {
        if (g.chance(1, 12))
            return nullptr;
        if (g.chance(1, 4) && !l.m.empty())
            return l.m[g.below(l.m.size())].v; // duplicate
        return (const void *) (uintptr_t) (8 * nv++);
    }
    void counts(L &l)
    {
        CHECK(list_size(l.l) == l.m.size(), "list:size", "size %zu, expected %zu", list_size(l.l), l.m.size());
        CHECK(!!list_empty(l.l) == l.m.empty(), "list:empty", "emptiness wrong at size %zu", l.m.size());
        list_elem_t *f = l.m.empty() ? nullptr : l.m.front().e, *b = l.m.empty() ? nullptr : l.m.back().e;
        CHECK(list_get_first(l.l) == f, "list:first", "wrong first element at size %zu", l.m.size());
        CHECK(list_get_last(l.l) == b, "list:last", "wrong last element at size %zu", l.m.size());
    }
    void audit(L &l)
    {
        EV("list.audit");
        counts(l);
        for (size_t i = 0; i < l.m.size(); i++) {
            list_elem_t *e = l.m[i].e;
            CHECK(list_elem_get_value(e) == l.m[i].v, "list:value", "element %zu has a wrong value", i);
            CHECK(list_next(e) == (i + 1 < l.m.size() ? l.m[i + 1].e : nullptr), "list:next",
                  "wrong successor of element %zu of %zu", i, l.m.size());
            CHECK(list_previous(e) == (i ? l.m[i - 1].e : nullptr), "list:prev",
                  "wrong predecessor of element %zu of %zu", i, l.m.size());
        }
        // lookup of each value present, one absent
        for (int k = 0; k < 4; k++) {
            const void *v = l.m.empty() || g.chance(1, 4) ? (const void *) 4 : l.m[g.below(l.m.size())].v;
            list_elem_t *want = nullptr;
            for (auto &x : l.m)
                if (x.v == v) {
                    want = x.e;
                    break;
                }
            CHECK(list_get(l.l, v) == want, "list:get", "lookup by value is not the first match");
            EV("list.get");
        }
        for (int k = 0; k < 5; k++) {
            i64 n = l.m.size();
            int idx = (int) (g.chance(1, 3)   ? g.range(-3, n + 3)
                             : g.chance(1, 3) ? (i64) (int) g.value()
                                              : (i64) g.below(n + 1));
            list_elem_t *want = idx >= 0 && idx < n ? l.m[idx].e : nullptr;
            CHECK(list_get_by_index(l.l, idx) == want, "list:index", "lookup by index %d of %lld wrong", idx,
                  (long long) n);
            EV("list.index");
        }
        Visit v;
        list_foreach(l.l, visit, &v);
        CHECK(v.got.size() == l.m.size(), "list:foreach", "for-each visits %zu of %zu", v.got.size(), l.m.size());
        for (size_t i = 0; i < l.m.size(); i++)
            CHECK(v.got[i] == l.m[i].v, "list:foreach", "for-each visits a wrong value at %zu", i);
    }
    void op(u64 w, bool audits)
    {
        size_t li = g.below(ls.size());
        L &l = *ls[li];
        size_t n = l.m.size();
        if (w < 20) {
            const void *v = value(l);
            TR("%zu: append %p", li, v);
            list_elem_t *e = list_append(l.l, v);
            CHECK(e, "list:append", "append returned nothing");
            l.m.push_back({e, v});
            EV("list.append");
        } else if (w < 40) {
            const void *v = value(l);
            TR("%zu: prepend %p", li, v);
            list_elem_t *e = list_prepend(l.l, v);
            CHECK(e, "list:prepend", "prepend returned nothing");
            l.m.insert(l.m.begin(), {e, v});
            EV("list.prepend");
        } else if (w < 60) {
            if (n) {
                size_t i = g.below(n);
                const void *v = value(l);
                TR("%zu: insert %p before index %zu", li, v, i);
                list_elem_t *e = list_insert_before(l.l, v, l.m[i].e);
                CHECK(e, "list:insert", "insert returned nothing");
                l.m.insert(l.m.begin() + i, {e, v});
                EV("list.insert");
            }
        } else if (w < 76) {
            if (n) {
                size_t i = g.chance(1, 4) ? 0 : g.chance(1, 4) ? n - 1 : g.below(n);
                TR("%zu: remove index %zu of %zu", li, i, n);
                list_remove(l.l, l.m[i].e);
                l.m.erase(l.m.begin() + i);
                EV("list.remove");
            }
        } else if (w < 84) {
            TR("%zu: pop_first", li);
            const void *v = list_pop_first(l.l), *want = n ? l.m[0].v : nullptr;
            CHECK(v == want, "list:pop", "pop_first returned a wrong value at size %zu", n);
            if (n)
                l.m.erase(l.m.begin());
            EV("list.pop_first");
        } else if (w < 92) {
            TR("%zu: pop_last", li);
            const void *v = list_pop_last(l.l), *want = n ? l.m[n - 1].v : nullptr;
            CHECK(v == want, "list:pop", "pop_last returned a wrong value at size %zu", n);
            if (n)
                l.m.pop_back();
            EV("list.pop_last");
        } else if (w < 95) {
            TR("%zu: copy", li);
            EV("list.copy");
            L *k = new L{list_copy(l.l), {}};
            ls.emplace_back(k);
            list_elem_t *e = list_get_first(k->l);
            for (size_t i = 0; i < n; i++) {
                CHECK(e, "list:copy", "the copy ends after %zu of %zu", i, n);
                CHECK(list_elem_get_value(e) == l.m[i].v, "list:copy", "wrong value at %zu in the copy", i);
                CHECK(e != l.m[i].e, "list:copy", "the copy shares an element");
                k->m.push_back({e, l.m[i].v});
                e = list_next(e);
            }
            CHECK(!e, "list:copy", "the copy goes on after %zu", n);
            audit(*k);
            if (ls.size() > 3) {
                size_t d = g.below(ls.size());
                TR("destroy %zu", d);
                destroy_list(ls[d]->l);
                ls.erase(ls.begin() + d);
            }
        }
        for (auto &x : ls)
            counts(*x);
        if (audits)
            for (auto &x : ls)
                audit(*x);
        for (auto &x : ls)
            if (x->m.size() > 2)
                c.nontrivial = true;
    }
    void finish()
    {
        for (auto &x : ls) {
            audit(*x);
            destroy_list(x->l);
        }
        ls.clear();
    }
};
void history(Case &c)
{
    Rig r(c);
    Gen &g = c.g;
    bool small = g.chance(4, 5);
    u64 ops = small ? 5 + g.below(120) : 200 + g.below(2000);
    unsigned grow = g.below(60);
    for (u64 i = 0; i < ops; i++) {
        if (i % 40 == 0)
            grow = g.below(100);
        u64 w = g.below(100) < grow ? g.below(60) : g.below(97);
        if (r.ls[0]->m.size() > 400 && g.chance(1, 2))
            w = 60 + g.below(32);
        c.mix(w);
        r.op(w, small || i % 50 == 0);
    }
    c.text = fmtstr("%llu operations on up to 3 lists, final size %zu", (unsigned long long) ops, r.ls[0]->m.size());
    r.finish();
}
// long lists: filled, drained and filled again
void longlists(Sweep &s)
{
    s.exhaustive = false;
    for (unsigned j = 0; j < 8; j++) {
        if (!s.mine(j))
            continue;
        s.tick();
        s.where(j);
        Case c(mix64(opt.seed * 131 + j), j);
        Rig r(c);
        Gen &g = c.g;
        L &l = *r.ls[0];
        for (int round = 0; round < 3; round++) {
            size_t top = opt.asan() ? 9000 : opt.quick() ? 70000 : 400000;
            top = top / 2 + g.below(top);
            std::vector<E> front, back = l.m; // prepended ones, in reverse
            l.m.clear();
            while (front.size() + back.size() < top) {
                const void *v = (const void *) (uintptr_t) (8 * r.nv++);
                if (g.below(8) < j)
                    front.push_back({list_prepend(l.l, v), v});
                else
                    back.push_back({list_append(l.l, v), v});
            }
            l.m.assign(front.rbegin(), front.rend());
            l.m.insert(l.m.end(), back.begin(), back.end());
            EVN("list.append", back.size());
            r.audit(l);
            s.tick();
            if (round == 1) { // every other element goes
                std::vector<E> keep;
                for (size_t i = 0; i < l.m.size(); i++)
                    if (i % 2)
                        list_remove(l.l, l.m[i].e);
                    else
                        keep.push_back(l.m[i]);
                l.m = keep;
                r.audit(l);
            }
            size_t low = round == 2 ? 0 : g.below(50), a = 0, b = l.m.size();
            while (b - a > low) {
                bool first = g.below(8) < 8 - j;
                const void *v = first ? list_pop_first(l.l) : list_pop_last(l.l);
                CHECK(v == (first ? l.m[a].v : l.m[b - 1].v), "list:pop", "pop at size %zu returned a wrong value", b - a);
                first ? a++ : b--;
                CHECK(list_size(l.l) == b - a, "list:size", "size %zu, expected %zu", list_size(l.l), b - a);
            }
            l.m.assign(l.m.begin() + a, l.m.begin() + b);
            r.audit(l);
            s.tick();
            s.evals += top;
        }
        s.distinct++;
        s.sample(fmtstr("a list of tens of thousands of elements filled and drained three times, %u/8 at the front", j));
        r.finish();
    }
}
// every sequence of up to k operations at every place
void exhaust(Sweep &s)
{
    // operations: append, prepend, insert before i, remove i, pop first, pop last, copy-and-swap
    int depth = opt.quick() ? 7 : 8;
    u64 done = 0;
    std::vector<std::pair<int, int>> path;
    std::function<void(int)> rec;
    auto replay = [&](std::vector<std::pair<int, int>> &p) {
        Case c(1, 0);
        Rig r(c);
        u64 k = 1;
        for (auto &o : p) {
            L &l = *r.ls[0];
            const void *v = (const void *) (uintptr_t) (8 * k++);
            size_t n = l.m.size();
            switch (o.first) {
                case 0: l.m.push_back({list_append(l.l, v), v}); break;
                case 1: l.m.insert(l.m.begin(), {list_prepend(l.l, v), v}); break;
                case 2: l.m.insert(l.m.begin() + o.second, {list_insert_before(l.l, v, l.m[o.second].e), v}); break;
                case 3: list_remove(l.l, l.m[o.second].e); l.m.erase(l.m.begin() + o.second); break;
                case 4: CHECK(list_pop_first(l.l) == (n ? l.m[0].v : nullptr), "list:pop", "pop_first wrong");
                        if (n) l.m.erase(l.m.begin());
                        break;
                case 5: CHECK(list_pop_last(l.l) == (n ? l.m[n - 1].v : nullptr), "list:pop", "pop_last wrong");
                        if (n) l.m.pop_back();
                        break;
            }
        }
        r.audit(*r.ls[0]);
        r.finish();
    };
    u64 counter = 0;
    std::function<void(size_t)> go = [&](size_t size) {
        if ((int) path.size() == depth) {
            if (s.mine(counter++)) {
                if (counter % 4096 < s.nshards)
                    s.tick();
                replay(path);
                done++;
            }
            return;
        }
        auto step = [&](int a, int b, size_t ns) {
            path.push_back({a, b});
            go(ns);
            path.pop_back();
        };
        if (size < 5) {
            step(0, 0, size + 1);
            step(1, 0, size + 1);
            if (size) {
                step(2, 0, size + 1);
                if (size > 2)
                    step(2, size / 2, size + 1);
            }
        }
        if (size) {
            step(3, 0, size - 1);
            if (size > 1)
                step(3, size - 1, size - 1);
            if (size > 2)
                step(3, size / 2, size - 1);
        }
        step(4, 0, size ? size - 1 : 0);
        step(5, 0, size ? size - 1 : 0);
    };
    go(0);
    s.evals += done;
    s.distinct += done;
    s.sample(fmtstr("all operation sequences of length %d from the empty list: %llu in this shard", depth,
                    (unsigned long long) done));
    EVN("list.sequences", done);
}
} // namespace
REG_CASES("C04", list_history, history, 60000, 15000, 20, OWN | THR);
REG_SWEEP("C04", list_long, longlists, 1, 1, 0);
REG_SWEEP("C04", list_exhaust, exhaust, 1, 0, 0);
