// C29: the monitors of the other properties run in several threads at once,
// each on objects of its own, in fresh processes (concurrent first use),
// under ThreadSanitizer and in the plain build.
#include "core.h"
#include <fsdyn/base64.h>
#include <fsdyn/charstr.h>
#include <fsdyn/date.h>
#include <fsdyn/float.h>
#include <fsdyn/fsalloc.h>
#include <fsdyn/hashtable.h>
#include <fsdyn/integer.h>
#include <atomic>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

std::map<std::string, u64> &ev_totals();
namespace {
enum { MAXT = 8, MAXLOG = 4096, MAXEVENTS = 512 };
struct Shared {
    // what a child left: written by it alone
    int failed_thread;
    char key[64], msg[2000];
    u64 cases, evals, order, switches;
    u64 n_events;
    struct {
        char name[48];
        u64 n;
    } ev[MAXEVENTS];
} *sh;

// a reallocator that is thread-safe without any synchronisation of its own
thread_local std::unordered_map<const void *, size_t> *mine;
void *thread_realloc(void *p, size_t n)
{
    auto &m = *(mine ? mine : mine = new std::unordered_map<const void *, size_t>);
    size_t old = 0;
    if (p) {
        auto it = m.find(p);
        if (it == m.end())
            violate_now("thread:foreign", "a block of another thread, or none, was passed to the reallocator");
        old = it->second;
        m.erase(it);
    }
    void *q = nullptr;
    if (n) {
        q = malloc(n);
        memset(q, 0xc9, n);
        memcpy(q, p, old < n ? old : n);
        m[q] = n;
    }
    free(p);
    return q;
}
bool is_mine(const void *p, size_t *n)
{
    if (!mine)
        return false;
    auto it = mine->find(p);
    if (it == mine->end())
        return false;
    if (n)
        *n = it->second;
    return true;
}

std::vector<const Module *> mods;
struct Plan {
    int nthreads;
    int ncases;
    std::vector<std::vector<std::pair<int, u64>>> t; // module (-1: shared inputs), case
    std::string text;
    u64 sig;
};
struct Inputs {
    std::string s, b64;
    i64 epoch;
    u64 bits;
    u64 cp;
};
int slack = 1;
u64 fnv(u64 h, const void *p, size_t n)
{
    for (size_t i = 0; i < n; i++)
        h = (h ^ ((const u8 *) p)[i]) * 1099511628211ULL;
    return h;
}
// the pure functions on one input, which all threads share
u64 digest(const Inputs &in)
{
    u64 h = 1;
    auto num = [&](u64 v) { h = mix64(h ^ v); };
    auto str = [&](const char *p) { num(p ? fnv(7, p, strlen(p)) : 99); };
    auto own = [&](char *p) {
        str(p);
        fsfree(p);
    };
    auto lst = [&](list_t *l) {
        num(list_size(l));
        while (!list_empty(l))
            own((char *) list_pop_first(l));
        destroy_list(l);
    };
    const char *s = in.s.c_str(), *e = s + in.s.size();
    int cp = (int) in.cp;
    num(charstr_case_cmp(s, in.b64.c_str()) < 0);
    num(charstr_ncase_cmp(s, in.b64.c_str(), 5) < 0);
    num(charstr_ends_with(s, "x"));
    num(charstr_char_class(s[0]) * 256 + charstr_digit_value(s[0]));
    num((u8) charstr_lcase_char(s[0]) * 256 + (u8) charstr_ucase_char(s[0]));
    own(charstr_dupstr(s));
    own(charstr_strip(s));
    lst(charstr_split(s, 'a', 5));
    lst(charstr_split_atoms(s));
    lst(charstr_split_str(s, "ab", 5));
    num(charstr_valid_utf8(s));
    own(charstr_sanitize_utf8(s));
    num(charstr_unicode_category(cp));
    num(charstr_naive_lcase_unicode(cp));
    num(charstr_naive_ucase_unicode(cp));
    num(charstr_allowed_unicode_normal_forms(cp));
    num(charstr_unicode_canonical_combining_class(cp));
    num(charstr_unicode_canonically_composed(s, e));
    num(charstr_unicode_canonically_decomposed(s, e));
    char out[4096];
    char *o = charstr_unicode_decompose(s, e, out, out + sizeof out);
    num(o ? fnv(3, out, o - out) : errno);
    o = charstr_unicode_recompose(s, e, out, out + sizeof out);
    num(o ? fnv(3, out, o - out) : errno);
    o = charstr_encode_utf8_codepoint(cp, out, out + 10);
    num(o ? fnv(3, out, o - out) : 1);
    str(charstr_url_encode_byte(in.cp));
    own(charstr_url_encode(s));
    size_t size = 0;
    char *d = charstr_url_decode(s, true, &size);
    num(d ? fnv(5, d, size) : 3);
    fsfree(d);
    own(charstr_idna_encode(s));
    str(charstr_idna_status(cp));
    str(charstr_idna_mapping(cp));
    own(base64_encode_simple(s, in.s.size()));
    d = (char *) base64_decode_simple(in.b64.c_str(), &size);
    num(d ? fnv(5, d, size) : 3);
    fsfree(d);
    own(charstr_printf("%s-%d", s, cp));
    struct tm tm;
    epoch_to_utc(in.epoch, &tm);
    num(tm.tm_year * 400 + tm.tm_mon * 31 + tm.tm_mday);
    long long n = 0;
    num(binary64_to_integer(in.bits, &n));
    num(n);
    num(hash_string(s));
    return h;
}
Inputs make_inputs(u64 seed)
{
    Gen g(seed);
    Inputs in;
    static const char *const BITS[] = {"a", "ab", "\xc3\xa4", "\xcc\x88", "\xea\xb0\x80", " ", "%41", "X", "1", "=", "\xff", "\xe2\x84\xab", ".", "-", "+"};
    for (int i = g.below(30); i >= 0; i--)
        in.s += BITS[g.below(g.chance(1, 2) ? 15 : 5)];
    for (int i = g.below(20); i >= 0; i--)
        in.b64 += "ABCDabcd0123+/==  "[g.below(18)];
    in.epoch = g.range(-10000000000LL, 10000000000LL);
    in.bits = g.value();
    in.cp = g.below(0x110000);
    return in;
}
Plan make_plan(u64 round)
{
    Gen g(mix64(opt.seed * 0x51ed2701 + 17) ^ mix64(round + 0x7711));
    Plan p;
    p.nthreads = 2 + g.below(MAXT - 1);
    p.t.resize(p.nthreads);
    int how = round % 4;
    p.ncases = 6 + g.below(opt.quick() ? 10 : 30);
    int one = g.below(mods.size());
    u64 seeds = g.raw() >> 20;
    for (int t = 0; t < p.nthreads; t++)
        for (int k = 0; k < p.ncases; k++) {
            int m = how == 0 || how == 1 ? one : how == 2 ? (int) g.below(mods.size()) : -1;
            // the same case in all threads, or one each
            p.t[t].push_back({m, how == 1 || how == 3 ? seeds + k : seeds + t * 1000 + k});
        }
    if (how <= 1)
        p.text = fmtstr("%d threads, %d cases of %s each, %s", p.nthreads, p.ncases, mods[one]->name, how ? "the same ones" : "different ones");
    else if (how == 2)
        p.text = fmtstr("%d threads, %d cases of random monitors each", p.nthreads, p.ncases);
    else
        p.text = fmtstr("%d threads, the pure functions on %d shared inputs", p.nthreads, p.ncases);
    return p;
}

struct Work {
    int id;
    const Plan *plan;
    std::vector<u64> digests;
    u64 cases, evals;
};
std::atomic<int> ready, order_n;
u8 order_log[MAXLOG];
thread_local int my_id = -1;
void on_violation(const std::string &key, const std::string &msg)
{
    sh->failed_thread = my_id;
    snprintf(sh->key, sizeof sh->key, "%s", key.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    _exit(13);
}
void work(Work &w)
{
    my_id = w.id;
    for (auto &c : w.plan->t[w.id]) {
        int at = order_n.fetch_add(1, std::memory_order_relaxed);
        if (at < MAXLOG)
            order_log[at] = (u8) w.id;
        w.cases++;
        if (c.first < 0) {
            w.digests.push_back(digest(make_inputs(c.second)));
            w.evals += 40;
        } else {
            const Module &m = *mods[c.first];
            Case k(case_seed(m, c.second), c.second);
            m.cf(k);
            w.evals += k.evals;
        }
    }
}
void *run(void *a)
{
    Work &w = *(Work *) a;
    ready.fetch_add(1, std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed) < w.plan->nthreads)
        ;
    work(w);
    ev_flush();
    return nullptr;
}
// in the child; only: run this thread's part alone
void child(const Plan &p, int only)
{
    ev_totals().clear();
    violate_hook = on_violation;
    live_hook = is_mine;
    fs_set_reallocator(thread_realloc);
    // the allowance is one of CPU time, which all threads consume
    arm_watchdog(only >= 0 ? slack : slack * p.nthreads);
    std::vector<Work> w(p.nthreads);
    for (int i = 0; i < p.nthreads; i++) {
        w[i].id = i;
        w[i].plan = &p;
        w[i].cases = w[i].evals = 0;
    }
    if (only >= 0) {
        work(w[only]);
        _exit(0);
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16 << 20);
    std::vector<pthread_t> th(p.nthreads);
    for (int i = 0; i < p.nthreads; i++)
        if (pthread_create(&th[i], &at, run, &w[i]))
            _exit(12);
    for (auto &t : th)
        pthread_join(t, nullptr);
    u64 order = 0;
    for (int i = 0; i < order_n && i < MAXLOG; i++)
        order = mix64(order ^ (order_log[i] + 1));
    sh->order = order;
    // all threads must have computed what one alone does
    for (auto &x : w) {
        sh->cases += x.cases;
        sh->evals += x.evals;
    }
    if (!w[0].digests.empty()) {
        for (size_t k = 0; k < w[0].digests.size(); k++) {
            u64 d = digest(make_inputs(p.t[0][k].second));
            for (auto &x : w)
                if (x.digests[k] != d) {
                    my_id = -2;
                    violate("thread:shared", "thread %d of %d got another result for the same input than a single thread", x.id, p.nthreads);
                }
        }
        EVN("thread.shared", w[0].digests.size());
    }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    sh->switches = ru.ru_nvcsw + ru.ru_nivcsw;
    ev_flush();

    sh->n_events = 0;
    for (auto &e : ev_totals())
        if (sh->n_events < MAXEVENTS) {
            auto &x = sh->ev[sh->n_events++];
            snprintf(x.name, sizeof x.name, "%s", e.first.c_str());
            x.n = e.second;
        }
    _exit(0);
}
int spawn(const Plan &p, int only)
{
    memset(sh, 0, sizeof *sh);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0)
        _exit(12);
    if (!pid)
        child(p, only);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
        if (errno != EINTR)
            _exit(12);
    if (WIFSIGNALED(st))
        return -WTERMSIG(st);
    return WEXITSTATUS(st);
}
} // namespace

void thread_run(i64 only)
{
    sh = (Shared *) mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED)
        _exit(12);
    for (auto &m : modules())
        if (m.threads && m.cf)
            mods.push_back(&m);
    u64 n = (u64) ((opt.variant == "tsan" ? 1200 : 1600) * opt.scale * (opt.quick() ? 1 : 20)) + 1;
    for (u64 round = opt.shard; round < n; round += opt.nshards) {
        if (only >= 0)
            round = only;
        Plan p = make_plan(round);
        TR("round %llu: %s", (unsigned long long) round, p.text.c_str());
        arm_watchdog();
        slack = 1;
        int rc = spawn(p, -1);
        if (rc == 11) {
            slack = 3; // twice too slow, or it does not end
            rc = spawn(p, -1);
            if (rc == 0)
                note_event("thread.slow", 1);
        }
        if (rc == 0) {
            for (u64 i = 0; i < sh->n_events; i++)
                note_event(sh->ev[i].name, sh->ev[i].n);
            note_event("thread.rounds", 1);
            note_event("thread.threads", p.nthreads);
            note_event("thread.cases", sh->cases);
            note_event("thread.context_switches", sh->switches);
            note_round(round, sh->cases + sh->evals, mix64(sh->order ^ mix64(round)), p.text);
        } else {
            if (rc == 12)
                _exit(12);
            std::string key = sh->key, msg = sh->msg;
            int who = sh->failed_thread;
            // does any of them fail alone? Then it is not the threads' doing.
            bool foreign = false;
            for (int t = 0; t < p.nthreads && !foreign; t++) {
                int r1 = spawn(p, t);
                if (r1 == 12)
                    _exit(12);
                foreign = r1 != 0;
            }
            note_round(round, 1, round, p.text);
            if (!foreign) {
                if (rc == 13)
                    violate("thread:result", "thread %d of %d: [%s] %s; alone, it gets it right (%s)", who, p.nthreads, key.c_str(),
                            msg.c_str(), p.text.c_str());
                violate(rc == 98 ? "thread:race" : "thread:crash", "%s (status %d): %s", rc == 98 ? "a data race" : "the threads crash or hang",
                        rc, p.text.c_str());
            }
            note_event("thread.foreign", 1);
            TR("round %llu fails also without threads", (unsigned long long) round);
        }
        if (only >= 0)
            break;
    }
}
