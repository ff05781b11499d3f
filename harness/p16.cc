// P16: every sequence of operations on a cache, of every backend, under a clock the check moves
#include "cachesys.hpp"
using namespace cs;
enum { ADD, FIND, GET, REL_FIRST, REL_LAST, GC, RESET, TICK, REOPEN, CONF };
struct Op { int op, a, b; B name; };
struct Caches : System {
    Sys s; std::vector<Op> ops; size_t maxheld; int nticks = 0, maxticks;
    int nops() override { return ops.size(); }
    B name(int o) override { return ops[o].name; }
    void reset() override { s.start(); nticks = 0; s.g.max_age = age0; s.g.max_entries = ent0; s.g.max_size = size0; if (s.c) { s.c->max_age = age0; s.c->max_entries = ent0; s.c->max_size = size0; } }
    double age0; size_t ent0, size0;
    bool apply(int o, B & err) override {
        const Op & p = ops[o];
        switch (p.op) {
            case ADD: s.add(p.a, p.b); break;
            case FIND: s.find(p.a, false); break;
            case GET: if (s.held.size() >= maxheld) return false; { size_t n = s.held.size(); s.find(p.a, true); (void) n; } break;
            case REL_FIRST: if (s.held.empty()) return false; s.release(0); break;
            case REL_LAST: if (s.held.size() < 2) return false; s.release(s.held.size() - 1); break;
            case GC: s.gc(); break;
            case RESET: s.resetcache(); break;
            case TICK: if (nticks >= maxticks) return false; nticks++; clk += p.a; break;
            case REOPEN: if (s.held.size()) return false; s.reopen(); break;
            case CONF: if (s.g.max_age == p.a && s.g.max_entries == (size_t) p.b) return false; s.g.max_age = p.a; s.g.max_entries = p.b; s.c->max_age = p.a; s.c->max_entries = p.b; break;
        }
        s.intact(); if (s.err.empty()) s.stat();
        err = s.err;
        return true;
    }
    uint64_t print() override { uint64_t h = s.print(); return hash(fmt("%g %zu %d", s.g.max_age, s.g.max_entries, nticks), h); }
    void observe(B & err) override { s.look(); err = s.err; }
    void finish(B & err) override { s.stop(err); }
};
static Cfg cfg(int b, double age, size_t ent, size_t size, size_t shm = 65536, size_t slots = 64) { return {b, age, ent, size, shm, slots}; }
static Caches * caches(Cfg g, std::vector<B> keys, int mods, size_t maxheld, int maxticks, bool conf = false) {
    auto * c = new Caches; c->s.g = g; c->s.keys = keys; c->maxheld = maxheld; c->maxticks = maxticks; c->age0 = g.max_age; c->ent0 = g.max_entries; c->size0 = g.max_size;
    auto add = [&](int op, int a, int b, B n) { c->ops.push_back({op, a, b, n}); };
    for (int k = 0; k < (int) keys.size(); k++) {
        for (int m = 0; m < mods; m++) add(ADD, k, m, fmt("store m%d under %c", m, 'a' + k));
        if (maxheld) add(GET, k, 0, fmt("find %c", 'a' + k)); else add(FIND, k, 0, fmt("find and release %c", 'a' + k));
    }
    if (maxheld) add(REL_FIRST, 0, 0, "release the first"); if (maxheld > 1) add(REL_LAST, 0, 0, "release the last");
    add(GC, 0, 0, "collect"); add(RESET, 0, 0, "reset");
    if (g.max_age >= 0 || g.max_entries || g.max_size || conf) { add(TICK, 1, 0, "1 s passes"); if (g.max_age >= 0) add(TICK, 3, 0, "3 s pass"); }
    if (g.backend == LMDB) add(REOPEN, 0, 0, "close and open");
    if (conf) for (int a : {-1, 0, 2}) for (int e : {0, 1}) add(CONF, a, e, fmt("max age %d max entries %d", a, e));
    return c;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P16";
    m.rule = "every operation applied in every reachable state of a cache, under a clock moved by the check; after each one every key is looked up, every module in use compared, the statistics compared, and the content compared with those the documentation allows; non-trivial: distinct states";
    m.parse(argc, argv);
    bool th = m.thorough();
    dir = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp16.%d", getpid()); mkdir(dir.c_str(), 0700);
    modules({"{{a}}", "text {{b.c}} {{#if d}}more{{/if}}", "x"});
    uint64_t lim = th ? 1 << 23 : 1 << 20;
    // {{{ histories
    struct X { const char * name; int b; double age; size_t ent, size; int nk, nm; size_t held; int ticks, quick, deep; size_t shm, slots; bool conf; };
    size_t s0 = msize[0], s1 = msize[1];
    std::vector<X> xs = {
        {"simple-unlimited", SIMPLE, -1, 0, 0, 3, 2, 2, 0, 6, 9},
        {"simple-age", SIMPLE, 2, 0, 0, 3, 1, 1, 6, 8, 11},
        {"simple-age0", SIMPLE, 0, 0, 0, 2, 1, 1, 3, 8, 12},
        {"simple-1entry", SIMPLE, -1, 1, 0, 3, 1, 1, 5, 8, 11},
        {"simple-2entries-age", SIMPLE, 2, 2, 0, 3, 1, 1, 5, 7, 10},
        {"simple-size", SIMPLE, -1, 0, s0 + s1, 3, 2, 1, 4, 6, 9},
        {"simple-configured", SIMPLE, -1, 0, 0, 2, 1, 1, 4, 7, 10, 65536, 64, true},
        {"mmap-distinct", MMAP, -1, 0, 0, 3, 2, 2, 0, 6, 8, 65536, 64},
        {"mmap-one-slot", MMAP, -1, 0, 0, 2, 2, 2, 0, 7, 10, 65536, 1},
        {"mmap-age", MMAP, 2, 0, 0, 2, 1, 2, 5, 7, 10, 65536, 3},
        {"mmap-small", MMAP, -1, 0, 0, 2, 2, 2, 0, 8, 12, 8192 + 4096, 8},
        {"lmdb-unlimited", LMDB, -1, 0, 0, 2, 2, 1, 0, 6, 9},
        {"lmdb-age", LMDB, 2, 0, 0, 2, 1, 1, 4, 6, 9},
        {"lmdb-age0", LMDB, 0, 0, 0, 2, 1, 0, 3, 6, 9},
    };
    for (auto & x : xs) m.explore(x.name, th ? x.deep : x.quick, [=] {
        std::vector<B> k; for (int i = 0; i < x.nk; i++) k.push_back(B(1, 'a' + i));
        return caches(cfg(x.b, x.age, x.ent, x.size, x.shm, x.slots), k, x.nm, x.held, x.ticks, x.conf);
    }, lim);
    // }}}
    // {{{ every pair of unlike keys
    auto keys = special_keys(); size_t nk = keys.size();
    static const char * on[] = {"store m0 under A", "store m1 under B", "find A", "find B", "collect", "reset"};
    for (int b : {SIMPLE, MMAP, LMDB}) for (size_t slots : b == MMAP ? std::vector<size_t>{1, 64} : std::vector<size_t>{64}) {
        int len = b == LMDB ? th ? 4 : 3 : th ? 5 : 4;
        uint64_t seqs = ipow(6, len);
        auto show = [=](uint64_t i) { B s = fmt("%s, A=%s B=%s:", bname[b], esc(keys[i / seqs / nk].substr(0, 20)).c_str(), esc(keys[i / seqs % nk].substr(0, 20)).c_str()); uint64_t q = i % seqs; for (int j = 0; j < len; j++, q /= 6) s += fmt("%s %s", j ? ";" : "", on[q % 6]); return s; };
        m.add(fmt("keys-%s%s", bname[b], b == MMAP ? fmt("-%zu-slots", slots).c_str() : ""), nk * nk * seqs, [=](Case & c) {
            int i = c.idx / seqs / nk, j = c.idx / seqs % nk;
            if (i == j) { c.skip(); return; }
            static Sys * s = new Sys; s->g = cfg(b, -1, 0, 0, 65536 * 2, slots); s->keys = {keys[i], keys[j]};
            s->start();
            uint64_t q = c.idx % seqs;
            for (int n = 0; n < len && s->err.empty(); n++, q /= 6) {
                switch (q % 6) { case 0: s->add(0, 0); break; case 1: s->add(1, 1); break; case 2: s->find(0, false); break; case 3: s->find(1, false); break; case 4: s->gc(); break; case 5: s->resetcache(); break; }
                if (s->err.empty()) s->stat();
            }
            if (s->err.empty()) s->look();
            c.transitions(len); c.outcome(s->print());
            B e = s->err; s->stop(e);
            if (e.size()) c.fail("P16", e);
        }, show, 64);
    }
    // }}}
    // {{{ sizes of the shared memory: an error or a cache that works
    std::vector<size_t> sizes = {0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 16384, 65536, (size_t) -1, (size_t) -4096, (size_t) 1 << 63}, slots = {0, 1, 2, 511, 512, 513, 1024, 2053, (size_t) 1 << 29, (size_t) 1 << 32, (size_t) -1};
    m.add("mmap-sizes", sizes.size() * slots.size(), [=](Case & c) {
        static Sys * s = new Sys; size_t z = sizes[c.idx / slots.size()], n = slots[c.idx % slots.size()];
        s->g = cfg(MMAP, -1, 0, 0, z, n); s->keys = {"a", "b"}; s->start();
        c.outcome(s->c != nullptr);
        if (!s->c) { if (z <= 1 << 20 && z >= 4096 * 4 && n && n <= 512) c.fail("P16", s->err); os_end(); return; }
        for (int r = 0; r < 30 && s->err.empty(); r++) { s->add(r & 1, r % 3 == 0); s->stat(); s->look(); }
        B e = s->err; s->stop(e);
        if (e.size()) c.fail("P16", e);
    }, [=](uint64_t i) { return fmt("size %zu slots %zu", sizes[i / slots.size()], slots[i % slots.size()]); }, 4);
    // }}}
    int r = m.go(argc, argv);
    if (dir.size() > 8) { for (auto & f : {dir}) { (void) f; } std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    return r;
}
