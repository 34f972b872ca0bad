// C10: mixed histories of objects whose keys and values are heap blocks of
// the caller, next to the ownership runs of the other monitors.
#include "core.h"
#include <fsdyn/avltree.h>
#include <fsdyn/base64.h>
#include <fsdyn/bytearray.h>
#include <fsdyn/charstr.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <fsdyn/intset.h>
#include <fsdyn/list.h>
#include <fsdyn/priority_queue.h>

namespace {
typedef int (*cmp_t)(const void *, const void *);
struct Things { // the caller's own blocks
    std::map<char *, std::string> live;
    char *make(Gen &g)
    {
        std::string s = fmtstr("%llu", (unsigned long long) g.below(40));
        if (g.chance(1, 8))
            s += std::string(g.below(200), 'x');
        char *p = (char *) fsalloc(s.size() + 1);
        memcpy(p, s.c_str(), s.size() + 1);
        live[p] = s;
        return p;
    }
    void audit(const char *what)
    {
        for (auto &x : live) {
            size_t n;
            CHECK(mem_is_live(x.first, &n) && n == x.second.size() + 1, "mem:foreign", "%s freed or resized a block of the caller", what);
            CHECK(!strcmp(x.first, x.second.c_str()), "mem:foreign", "%s changed a block of the caller", what);
        }
    }
    void drop(const void *p)
    {
        CHECK(live.erase((char *) p), "mem:foreign", "a pointer that was never put in came out");
        fsfree((void *) p);
    }
    ~Things()
    {
        for (auto &x : live)
            fsfree(x.first);
    }
};
void no_reloc(const void *, void *) {}
void mixed(Case &c)
{
    Gen &g = c.g;
    Things th;
    avl_tree_t *tree = make_avl_tree((cmp_t) strcmp);
    hash_table_t *table = make_hash_table(g.below(30), (uint64_t (*)(const void *)) hash_string, (cmp_t) strcmp);
    list_t *list = make_list();
    priorq_t *pq = make_priority_queue((cmp_t) strcmp, no_reloc);
    intset_t *set = make_intset(1 + g.below(300));
    std::vector<byte_array_t *> arrays;
    std::vector<char *> strings;
    std::vector<list_t *> lists;
    std::vector<avl_tree_t *> trees;
    std::vector<avl_elem_t *> loose;
    std::vector<hash_elem_t *> hloose;
    std::vector<charstr_url_encoder_t *> encs;
    int n = 5 + g.below(120);
    for (int i = 0; i < n; i++) {
        int op = g.below(26);
        c.mix(op);
        switch (op) {
            case 0: case 1: {
                avl_elem_t *e = avl_tree_put(tree, th.make(g), th.make(g));
                if (e)
                    loose.push_back(e);
                break;
            }
            case 2: {
                char *k = th.make(g);
                avl_elem_t *e = avl_tree_pop(tree, k);
                if (e)
                    loose.push_back(e);
                th.drop(k);
                break;
            }
            case 3: {
                avl_elem_t *e = g.chance(1, 2) ? avl_tree_get_first(tree) : avl_tree_get_last(tree);
                if (!e)
                    break;
                if (g.chance(1, 2)) {
                    avl_tree_detach(tree, e);
                    loose.push_back(e);
                } else
                    avl_tree_remove(tree, e);
                break;
            }
            case 4: trees.push_back(avl_tree_copy(tree)); break;
            case 5: if (!loose.empty()) {
                destroy_avl_element(loose.back());
                loose.pop_back();
                break;
            } break;
            case 6: case 7: {
                hash_elem_t *e = hash_table_put(table, th.make(g), th.make(g));
                if (e)
                    hloose.push_back(e);
                break;
            }
            case 8: {
                hash_elem_t *e = hash_table_pop_any(table);
                if (e)
                    hloose.push_back(e);
                break;
            }
            case 9: {
                hash_elem_t *e = hash_table_get_any(table);
                if (e)
                    hash_table_remove(table, e);
                break;
            }
            case 10: if (!hloose.empty()) {
                destroy_hash_element(hloose.back());
                hloose.pop_back();
            } break;
            case 11: list_append(list, th.make(g)); break;
            case 12: {
                if (g.chance(1, 2))
                    (void) list_pop_first(list);
                else if (list_get_first(list))
                    list_remove(list, list_get_first(list));
                break;
            }
            case 13: lists.push_back(list_copy(list)); break;
            case 14: priorq_enqueue(pq, th.make(g)); break;
            case 15: if (!priorq_empty(pq)) (void) priorq_dequeue(pq); break;
            case 16: intset_add(set, g.below(300)); break;
            case 17: {
                byte_array_t *a = make_byte_array(g.below(3000));
                byte_array_append(a, "some bytes", g.below(11));
                if (g.chance(1, 2))
                    byte_array_resize(a, g.below(4000), 'z');
                if (g.chance(1, 3))
                    arrays.push_back(share_byte_array(a));
                arrays.push_back(a);
                break;
            }
            case 18: if (!arrays.empty()) {
                size_t j = g.below(arrays.size());
                destroy_byte_array(arrays[j]);
                arrays.erase(arrays.begin() + j);
            } break;
            case 19: {
                char *p = th.make(g);
                list_t *l = charstr_split(p, "0123456789x"[g.below(11)], g.chance(1, 2) ? (unsigned) -1 : g.below(5));
                for (list_elem_t *e = list_get_first(l); e; e = list_next(e))
                    strings.push_back((char *) list_elem_get_value(e));
                destroy_list(l);
                break;
            }
            case 20: {
                char *p = th.make(g);
                switch (g.below(6)) {
                    case 0: strings.push_back(charstr_url_encode(p)); break;
                    case 1: strings.push_back(charstr_url_decode("a%zz", false, nullptr)); break;
                    case 2: strings.push_back(charstr_idna_encode("\xc3\xa5_")); break;
                    case 3: {
                        size_t size;
                        strings.push_back((char *) base64_decode_simple(p, &size));
                        break;
                    }
                    case 4: strings.push_back(charstr_sanitize_utf8("\xff\xfe" "abc")); break;
                    default: strings.push_back(charstr_printf("%s/%s", p, p));
                }
                break;
            }
            case 21: encs.push_back(charstr_create_url_encoder("ab", "!")); break;
            case 22: if (!encs.empty()) {
                charstr_destroy_url_encoder(encs.back());
                encs.pop_back();
            } break;
            case 23: if (!strings.empty()) {
                fsfree(strings.back());
                strings.pop_back();
            } break;
            default: { // a container is destroyed with what it holds, and begun anew
                switch (g.below(4)) {
                    case 0:
                        destroy_avl_tree(tree);
                        th.audit("destroy_avl_tree");
                        tree = make_avl_tree((cmp_t) strcmp);
                        break;
                    case 1:
                        destroy_hash_table(table);
                        th.audit("destroy_hash_table");
                        table = make_hash_table(g.below(30), (uint64_t (*)(const void *)) hash_string, (cmp_t) strcmp);
                        break;
                    case 2:
                        destroy_list(list);
                        th.audit("destroy_list");
                        list = make_list();
                        break;
                    default:
                        destroy_priority_queue(pq);
                        th.audit("destroy_priority_queue");
                        pq = make_priority_queue((cmp_t) strcmp, no_reloc);
                }
                EV("own.destroy.full");
            }
        }
        c.evals++;
    }
    th.audit("an operation");
    destroy_avl_tree(tree);
    destroy_hash_table(table);
    destroy_list(list);
    destroy_priority_queue(pq);
    destroy_intset(set);
    for (auto *x : trees)
        destroy_avl_tree(x);
    for (auto *x : lists)
        destroy_list(x);
    for (auto *x : loose)
        destroy_avl_element(x);
    for (auto *x : hloose)
        destroy_hash_element(x);
    for (auto *x : arrays)
        destroy_byte_array(x);
    for (auto *x : strings)
        fsfree(x);
    for (auto *x : encs)
        charstr_destroy_url_encoder(x);
    th.audit("destruction");
    EV("own.mixed");
    c.nontrivial = true;
    c.text = fmtstr("%d operations on all kinds of objects, the caller's blocks as keys and values", n);
}
} // namespace
REG_CASES("C10", own_mixed, mixed, 30000, 8000, 30, OWN | THR);
