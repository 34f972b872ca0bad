// C07: byte array against a std::string model; readers are fault injectors.
#include "core.h"
#include <fsdyn/bytearray.h>

namespace {
struct Reader {
    Gen *g;
    size_t asked = 0; // len of the call
    size_t room = 0;
    unsigned calls = 0;
    int mode = 0;
    ssize_t ret = 0;
    std::string gave;
    size_t offered = 0;
    bool too_much = false;
};
ssize_t reader(void *obj, void *buf, size_t count)
{
    Reader *r = (Reader *) obj;
    r->calls++;
    r->offered = count;
    if (count > r->asked || count > r->room) {
        r->too_much = true;
        return -1;
    }
    size_t n = 0;
    switch (r->mode) {
        case 0: n = count; break;
        case 1: n = count ? 1 + r->g->below(count) : 0; break;
        case 2: n = 0; break;
        case 3: // failure after scribbling over the buffer
            memset(buf, 0xee, count);
            errno = EIO;
            r->ret = -1;
            return -1;
        case 4: // failure at once
            errno = EAGAIN;
            r->ret = -1;
            return -1;
        default: // end of stream, yet the buffer was touched
            memset(buf, 0xdd, count);
            r->ret = 0;
            return 0;
    }
    for (size_t i = 0; i < n; i++) {
        char c = (char) (i < 4096 ? r->g->below(256) : i * 7);
        r->gave += c;
        ((char *) buf)[i] = c;
    }
    if (n < count && r->g->chance(1, 2))
        memset((char *) buf + n, 0xcc, count - n); // scratch use of the rest
    r->ret = n;
    return n;
}

struct Rig {
    Case &c;
    Gen &g;
    byte_array_t *a;
    size_t max;
    std::string m;
    std::vector<byte_array_t *> holders;
    Rig(Case &cc, size_t mx) : c(cc), g(cc.g), max(mx)
    {
        TR("make_byte_array(%zu)", max);
        a = make_byte_array(max);
        CHECK(a, "ba:make", "no array");
        holders.push_back(a);
        audit("make");
    }
    void audit(const char *what)
    {
        CHECK(byte_array_size(a) == m.size(), "ba:size", "after %s the size is %zu, expected %zu (max %zu)", what,
              byte_array_size(a), m.size(), max);
        const char *p = (const char *) byte_array_data(a);
        CHECK(p, "ba:data", "no data after %s", what);
        CHECK(!p[m.size()], "ba:nul", "after %s the byte after the %zu bytes is %02x, not NUL", what, m.size(),
              (u8) p[m.size()]);
        if (memcmp(p, m.data(), m.size())) {
            size_t i = 0;
            while (p[i] == m[i])
                i++;
            violate("ba:content", "after %s byte %zu of %zu is %02x, expected %02x", what, i, m.size(), (u8) p[i],
                    (u8) m[i]);
        }
        CHECK(m.size() < max || m.empty(), "ba:max", "more than the maximum is held");
        EV("ba.audit");
    }
    bool fits(size_t n) const { return n < max; } // n bytes and the NUL
    void expect(bool got, bool want, bool enospc, const char *what, size_t len)
    {
        CHECK(got == want, "ba:result", "%s of %zu bytes %s at size %zu, max %zu", what, len,
              got ? "succeeded" : "failed", m.size(), max);
        if (!want && enospc)
            CHECK(errno == ENOSPC, "ba:errno", "%s failed with errno %d, not ENOSPC", what, errno);
    }
    std::string bytes(size_t n)
    {
        std::string s(n, 0);
        u64 x = g.raw();
        for (size_t i = 0; i < n; i++) {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            s[i] = (char) (x >> 56);
        }
        return s;
    }
    size_t len()
    {
        size_t left = max > m.size() ? max - m.size() : 0;
        switch (g.below(6)) {
            case 0: return left < 100000 ? left + g.below(4) - 1 : g.size(3000); // around the limit
            case 1: return g.below(8);
            case 2: {
                // around the capacity growth steps
                size_t p = 1;
                while (p <= m.size())
                    p *= 2;
                p = p - m.size() + g.below(5) - 2;
                return p < 70000 ? p : 3;
            }
            default: return g.size(g.chance(1, 8) ? 20000 : 600);
        }
    }
    void append(const std::string &s)
    {
        TR("append %zu bytes", s.size());
        Exact e(s);
        bool want = fits(m.size() + s.size());
        errno = 0;
        bool r = byte_array_append(a, e.p, s.size());
        if (!(max == 0 && s.empty()))
            expect(r, want, true, "append", s.size());
        CHECK(e.unchanged(), "ba:source", "append modified its source");
        if (r)
            m += s;
        if (r)
            EV("ba.append");
        else
            EV("ba.append.nospace");
        audit("append");
    }
    void append_self(size_t off, size_t n)
    {
        TR("append own bytes %zu+%zu of %zu", off, n, m.size());
        bool want = fits(m.size() + n);
        std::string s = m.substr(off, n);
        errno = 0;
        bool r = byte_array_append(a, (const char *) byte_array_data(a) + off, n);
        if (!(max == 0 && n == 0))
            expect(r, want, true, "append of own bytes", n);
        if (r)
            m += s;
        EV("ba.append.self");
        audit("append of own bytes");
    }
    void append_string(const std::string &s)
    {
        TR("append_string of %zu bytes", s.size());
        ExactZ e(s);
        std::string z = s.c_str();
        errno = 0;
        bool r = byte_array_append_string(a, e.p);
        if (!(max == 0 && z.empty()))
            expect(r, fits(m.size() + z.size()), true, "append_string", z.size());
        CHECK(e.unchanged(), "ba:source", "append_string modified its source");
        if (r)
            m += z;
        EV("ba.append_string");
        audit("append_string");
    }
    void append_own_string(size_t off)
    {
        std::string z = std::string(m.c_str() + off);
        TR("append_string of own contents from %zu (%zu bytes)", off, z.size());
        errno = 0;
        bool r = byte_array_append_string(a, (const char *) byte_array_data(a) + off);
        if (!(max == 0 && z.empty()))
            expect(r, fits(m.size() + z.size()), true, "append_string", z.size());
        if (r)
            m += z;
        EV("ba.append.self");
        audit("append_string of own contents");
    }
    void put(size_t pos, const std::string &s)
    {
        if (pos <= m.size()) {
            if (pos + s.size() > m.size())
                m.resize(pos + s.size());
            m.replace(pos, s.size(), s);
        }
    }
    void copy(size_t pos, const std::string &s, bool string)
    {
        TR("copy%s %zu bytes at %zu of %zu", string ? "_string" : "", s.size(), pos, m.size());
        std::string z = string ? std::string(s.c_str()) : s;
        bool gap = pos > m.size();
        bool room = !gap && (pos + z.size() <= m.size() || fits(pos + z.size()));
        errno = 0;
        bool r;
        if (string) {
            ExactZ e(z);
            r = byte_array_copy_string(a, pos, e.p);
            CHECK(e.unchanged(), "ba:source", "copy modified its source");
        } else {
            Exact e(z);
            r = byte_array_copy(a, pos, e.p, z.size());
            CHECK(e.unchanged(), "ba:source", "copy modified its source");
        }
        expect(r, room, !gap, string ? "copy_string" : "copy", z.size());
        if (r) {
            put(pos, z);
            EV("ba.copy");
        } else if (gap)
            EV("ba.copy.gap");
        else
            EV("ba.copy.nospace");
        audit("copy");
    }
    void copy_self(size_t pos, size_t off, size_t n)
    {
        TR("copy own bytes %zu+%zu to %zu of %zu", off, n, pos, m.size());
        bool gap = pos > m.size();
        bool room = !gap && (pos + n <= m.size() || fits(pos + n));
        std::string s = m.substr(off, n);
        errno = 0;
        bool r = byte_array_copy(a, pos, (const char *) byte_array_data(a) + off, n);
        expect(r, room, !gap, "copy of own bytes", n);
        if (r)
            put(pos, s);
        EV("ba.copy.self");
        audit("copy of own bytes");
    }
    void huge_len()
    {
        // lengths no array can hold: must be refused whatever the arithmetic
        size_t n = SIZE_MAX - g.below(m.size() + 300);
        if (max > SIZE_MAX / 2)
            return;
        EV("ba.huge");
        char b[8] = "x";
        errno = 0;
        size_t pos = g.below(m.size() + 1);
        bool r;
        const char *what;
        switch (g.below(3)) {
            case 0: what = "append"; r = byte_array_append(a, b, n); break;
            case 1: what = "copy"; r = byte_array_copy(a, pos, b, n); break;
            default: what = "resize"; r = byte_array_resize(a, n, 1); break;
        }
        TR("%s of %zu bytes", what, n);
        expect(r, false, true, what, n);
        audit("an impossible length");
    }
    void stream(size_t n)
    {
        Reader rd;
        rd.g = &g;
        rd.asked = n;
        rd.room = max > m.size() ? max - m.size() - 1 : 0;
        rd.mode = g.chance(1, 2) ? g.below(2) : g.below(6);
        TR("append_stream(%zu), reader mode %d, room %zu", n, rd.mode, rd.room);
        errno = 0;
        ssize_t r = byte_array_append_stream(a, reader, &rd, n);
        int err = errno;
        CHECK(!rd.too_much, "ba:offer", "the reader was offered %zu bytes, %zu were asked for and %zu fit", rd.offered, n,
              rd.room);
        CHECK(rd.calls <= 1, "ba:reader", "the reader was called %u times", rd.calls);
        if (rd.room == 0) {
            if (n) {
                CHECK(r < 0 && err == ENOSPC, "ba:stream", "append_stream with no room returned %zd, errno %d", r, err);
                CHECK(!rd.calls, "ba:reader", "the reader was called although there is no room");
                EV("ba.stream.nospace");
            }
        } else {
            if (n) {
                CHECK(rd.calls == 1, "ba:reader", "the reader was not called");
                CHECK(rd.offered > 0, "ba:offer", "the reader was offered nothing");
            }
            if (rd.calls)
                CHECK(r == rd.ret, "ba:stream", "append_stream returned %zd, the reader %zd", r, rd.ret);
        }
        if (r > 0)
            m += rd.gave;
        if (rd.calls)
{
            if (r > 0)
                EV("ba.stream");
            else if (r == 0)
                EV("ba.stream.eof");
            else
                EV("ba.stream.error");
        }
        audit("append_stream");
    }
    void resize(size_t n, u8 ch)
    {
        TR("resize %zu -> %zu", m.size(), n);
        bool want = n <= m.size() || fits(n);
        errno = 0;
        bool r = byte_array_resize(a, n, ch);
        expect(r, want, true, "resize", n);
        if (r) {
            m.resize(n, (char) ch);
            EV("ba.resize");
        } else
            EV("ba.resize.nospace");
        audit("resize");
    }
    void clear()
    {
        TR("clear");
        byte_array_clear(a);
        m.clear();
        EV("ba.clear");
        audit("clear");
    }
    void share()
    {
        TR("share");
        byte_array_t *b = share_byte_array(a);
        CHECK(byte_array_data(b) == byte_array_data(a), "ba:share", "the shared array is another one");
        holders.push_back(b);
        a = holders[g.below(holders.size())];
        EV("ba.share");
        audit("share");
    }
    void unshare()
    {
        if (holders.size() < 2)
            return;
        size_t i = g.below(holders.size());
        TR("destroy holder");
        destroy_byte_array(holders[i]);
        holders.erase(holders.begin() + i);
        a = holders[0];
        EV("ba.unshare");
        audit("destruction by another holder");
    }
    void finish()
    {
        while (holders.size() > 1)
            unshare();
        audit("all");
        const void *block = byte_array_data(a);
        bool tracked = mem_is_live(block);
        destroy_byte_array(holders[0]);
        CHECK(!tracked || !mem_is_live(block), "ba:released", "the contents live on after the last of %zu holders has destroyed the array",
              holders.size());
        EV("ba.released");
    }
};

void history(Case &c)
{
    Gen &g = c.g;
    size_t max;
    switch (g.below(6)) {
        case 0: max = g.below(5); break;
        case 1: max = 120 + g.below(20); break;
        case 2: max = SIZE_MAX - g.below(3); break;
        case 3: max = ((size_t) 1 << 32) + g.below(5) - 2; break;
        default: max = g.size(5000); break;
    }
    Rig r(c, max);
    u64 ops = 3 + g.below(60);
    c.mix(max);
    for (u64 i = 0; i < ops; i++) {
        unsigned w = g.below(100);
        size_t n = r.len(), at = g.below(r.m.size() + 1);
        if (n > 200000)
            n = 5;
        c.mix((u64) w << 32 ^ n);
        if (r.m.size() > 100000)
            w = 62;
        if (w < 18)
            r.append(r.bytes(n));
        else if (w < 24)
            r.append_self(at, g.below(r.m.size() - at + 1));
        else if (w < 28)
            r.append_own_string(at);
        else if (w < 34)
            r.append_string(r.bytes(n));
        else if (w < 46)
            r.copy(g.chance(1, 8) ? r.m.size() + 1 + g.below(5) : at, r.bytes(n), g.chance(1, 3));
        else if (w < 48)
            r.copy(SIZE_MAX - g.below(3), r.bytes(n), false);
        else if (w < 56)
            r.copy_self(g.below(r.m.size() + 2), at, g.below(r.m.size() - at + 1));
        else if (w < 60)
            r.huge_len();
        else if (w < 64)
            r.resize(g.below(r.m.size() + 1), g.below(256));
        else if (w < 72)
            r.resize(r.m.size() + n, g.chance(1, 4) ? 0 : g.below(256));
        else if (w < 75)
            r.clear();
        else if (w < 90)
            r.stream(g.chance(1, 12) && max < 100000 ? SIZE_MAX - g.below(3) : g.chance(1, 20) ? 0 : n);
        else if (w < 95)
            r.share();
        else
            r.unshare();
        if (r.m.size() > 2)
            c.nontrivial = true;
    }
    c.text = fmtstr("max %zu, %llu operations, final size %zu, %zu holders", max, (unsigned long long) ops, r.m.size(),
                    r.holders.size());
    r.finish();
}

// every (max, size, position, length) of small arrays
void small(Sweep &s)
{
    size_t N = opt.asan() ? 9 : opt.quick() ? 14 : 22;
    u64 id = 0;
    for (size_t max = 0; max <= N; max++)
        for (size_t size = 0; size < (max ? max : 1); size++) {
            if (!s.mine(id++))
                continue;
            s.tick();
            s.where(max, size);
            Case c(mix64(max * 100 + size), 0);
            auto fresh = [&](Rig &r) {
                if (size)
                    r.append(r.bytes(size));
            };
            for (size_t len = 0; len <= N + 2; len++) {
                { Rig r(c, max); fresh(r); r.append(r.bytes(len)); r.finish(); }
                { Rig r(c, max); fresh(r); r.append_string(std::string(len, 'x')); r.finish(); }
                { Rig r(c, max); fresh(r); r.resize(len, 'y'); r.append("z"); r.resize(size, 'q'); r.finish(); }
                { Rig r(c, max); fresh(r); r.stream(len); r.stream(len); r.finish(); }
                for (size_t pos = 0; pos <= size + 2; pos++) {
                    Rig r(c, max);
                    fresh(r);
                    r.copy(pos, r.bytes(len), false);
                    r.copy(pos, std::string(len, 'c'), true);
                    r.finish();
                }
                s.evals += 4 + size;
                s.distinct += 4 + size;
            }
            for (size_t off = 0; off <= size; off++)
                for (size_t len = 0; off + len <= size; len++) {
                    { Rig r(c, max); fresh(r); r.append_self(off, len); r.append_self(off, len); r.finish(); }
                    for (size_t pos = 0; pos <= size; pos++) {
                        Rig r(c, max);
                        fresh(r);
                        r.copy_self(pos, off, len);
                        r.finish();
                    }
                    s.evals += size + 1;
                    s.distinct += size + 1;
                }
            s.sample(fmtstr("max %zu, size %zu: every position and length", max, size));
        }
    // growth of the storage from every size through the powers of two
    for (size_t size = 0; size < (opt.asan() ? 150 : 700); size++) {
        if (!s.mine(size))
            continue;
        s.tick();
        Case c(mix64(size + 5000), 0);
        for (size_t max : {(size_t) 100000, (size_t) 128, (size_t) 129, (size_t) 256, (size_t) 512}) {
            if (size >= max)
                continue;
            for (size_t d : {(size_t) 0, (size_t) 1, (size_t) 2, 127 - size, 128 - size, 255 - size, 256 - size, 511 - size,
                             512 - size, max - size - 1, max - size}) {
                if (d > 2000)
                    continue;
                { Rig r(c, max); r.append(r.bytes(size)); r.append(r.bytes(d)); r.append("tail"); r.finish(); }
                { Rig r(c, max); r.resize(size, 1); r.resize(size + d, 2); r.append("tail"); r.finish(); }
                { Rig r(c, max); r.append(r.bytes(size)); r.stream(d); r.append("tail"); r.finish(); }
                { Rig r(c, max); r.append(r.bytes(size)); r.append_self(0, size); r.append_self(size / 2, size - size / 2); r.finish(); }
                s.evals += 4;
                s.distinct += 4;
            }
        }
    }
    // many holders
    if (s.mine(3)) {
        Case c(3, 0);
        Rig r(c, 100);
        r.append("shared");
        size_t n = 70000;
        for (size_t i = 0; i < n; i++)
            CHECK(share_byte_array(r.a) == r.a, "ba:share", "sharing returned another array");
        r.audit("sharing");
        for (size_t i = 0; i < n; i++) {
            destroy_byte_array(r.a);
            if (i % 1000 == 0 || i > n - 3)
                r.audit("destruction by one of many holders");
        }
        r.append("!");
        r.finish();
        s.evals += n;
        s.distinct++;
    }
}
// beyond 4 GiB
ssize_t claim(void *obj, void *, size_t count) { return *(ssize_t *) obj <= (ssize_t) count ? *(ssize_t *) obj : -2; }
void huge(Sweep &s)
{
    s.exhaustive = false;
    if (!s.mine(0))
        return;
    s.tick();
    u64 lim = mem_limit;
    mem_limit = (u64) 14 << 30;
    size_t G = (size_t) 1 << 32;
    byte_array_t *a = make_byte_array(G * 2 + 1000);
    auto look = [&](size_t size, std::initializer_list<std::pair<size_t, u8>> at) {
        CHECK(byte_array_size(a) == size, "ba:size", "size %zu, expected %zu", byte_array_size(a), size);
        const u8 *p = (const u8 *) byte_array_data(a);
        CHECK(!p[size], "ba:nul", "no NUL after %zu bytes", size);
        for (auto &x : at)
            CHECK(p[x.first] == x.second, "ba:content", "byte %zu of %zu is %02x, expected %02x", x.first, size, p[x.first],
                  x.second);
    };
    CHECK(byte_array_append(a, "ab", 2), "ba:result", "append failed");
    CHECK(byte_array_resize(a, G - 3, 'r'), "ba:result", "resize to 4 GiB - 3 failed");
    s.tick();
    look(G - 3, {{0, 'a'}, {1, 'b'}, {2, 'r'}, {G / 2, 'r'}, {G - 4, 'r'}});
    CHECK(byte_array_append(a, "0123456789", 10), "ba:result", "append across 4 GiB failed");
    look(G + 7, {{0, 'a'}, {2, 'r'}, {G - 4, 'r'}, {G - 3, '0'}, {G, '3'}, {G + 6, '9'}});
    CHECK(byte_array_copy(a, G + 5, "XYZ", 3), "ba:result", "copy across 4 GiB failed");
    look(G + 8, {{0, 'a'}, {5, 'r'}, {G + 4, '7'}, {G + 5, 'X'}, {G + 7, 'Z'}});
    CHECK(!byte_array_copy(a, G + 9, "g", 1), "ba:result", "a copy leaving a gap succeeded");
    CHECK(byte_array_resize(a, G + 6, 0), "ba:result", "shrinking failed");
    look(G + 6, {{G + 5, 'X'}, {6, 'r'}});
    errno = 0;
    CHECK(!byte_array_resize(a, 2 * G + 1000, 0) && errno == ENOSPC, "ba:result", "resize beyond the maximum succeeded");
    CHECK(!byte_array_append(a, "x", G + 994) && errno == ENOSPC, "ba:result", "append beyond the maximum succeeded");
    look(G + 6, {{0, 'a'}});
    CHECK(byte_array_resize(a, 3, 'z'), "ba:result", "shrinking failed");
    look(3, {{0, 'a'}, {1, 'b'}, {2, 'r'}});
    destroy_byte_array(a);
    // readers that deliver more than fits an int at a time
    a = make_byte_array(G * 4);
    for (ssize_t n : {((ssize_t) 1 << 31) + 5, (ssize_t) 3, (ssize_t) G + 1}) {
        s.tick();
        size_t before = byte_array_size(a);
        ssize_t r = byte_array_append_stream(a, claim, &n, n);
        CHECK(r == n, "ba:result", "a reader delivered %zd bytes, append_stream returned %zd", n, r);
        look(before + n, {});
    }
    destroy_byte_array(a);
    mem_limit = lim;
    EV("ba.beyond4g");
    s.evals += 10;
    s.distinct += 10;
    s.sample("an array grown across 4 GiB by resize, append and copy, then shrunk");
}
} // namespace
REG_CASES("C07", bytearray_history, history, 60000, 15000, 20, OWN | THR);
REG_SWEEP("C07", bytearray_small, small, 1, 1, 0);
REG_SWEEP("C07", bytearray_huge, huge, 1, 0, 0);
