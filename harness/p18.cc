// P18: the on-disk cache: other processes, faults and crashes at every store operation, damaged records
#include "cachesys.hpp"
#include <lmdb.h>
#include <sys/wait.h>
using namespace cs;
// {{{ the store, failing or dying at its n-th operation
static int callno, failat, failcode, dieat, dieafter; static int opentxn; static bool counting;
static int hit(const char *) { if (!counting) return 0; callno++; if (callno == dieat && !dieafter) _exit(77); return callno == failat ? failcode : 0; }
static int done(int r) { if (counting && callno == dieat && dieafter) _exit(77); return r; }
extern "C" {
#define WRAP(name, params, args) int __real_##name params; int __wrap_##name params { if (int e = hit(#name)) return e; return done(__real_##name args); }
WRAP(mdb_env_create, (MDB_env ** e), (e))
WRAP(mdb_env_open, (MDB_env * e, const char * p, unsigned f, mdb_mode_t m), (e, p, f, m))
WRAP(mdb_dbi_open, (MDB_txn * t, const char * n, unsigned f, MDB_dbi * d), (t, n, f, d))
WRAP(mdb_get, (MDB_txn * t, MDB_dbi d, MDB_val * k, MDB_val * v), (t, d, k, v))
WRAP(mdb_put, (MDB_txn * t, MDB_dbi d, MDB_val * k, MDB_val * v, unsigned f), (t, d, k, v, f))
WRAP(mdb_del, (MDB_txn * t, MDB_dbi d, MDB_val * k, MDB_val * v), (t, d, k, v))
WRAP(mdb_cursor_open, (MDB_txn * t, MDB_dbi d, MDB_cursor ** c), (t, d, c))
WRAP(mdb_cursor_get, (MDB_cursor * c, MDB_val * k, MDB_val * v, MDB_cursor_op o), (c, k, v, o))
WRAP(mdb_cursor_put, (MDB_cursor * c, MDB_val * k, MDB_val * v, unsigned f), (c, k, v, f))
WRAP(mdb_cursor_del, (MDB_cursor * c, unsigned f), (c, f))
WRAP(mdb_drop, (MDB_txn * t, MDB_dbi d, int x), (t, d, x))
WRAP(mdb_stat, (MDB_txn * t, MDB_dbi d, MDB_stat * s), (t, d, s))
WRAP(mdb_env_set_mapsize, (MDB_env * e, size_t n), (e, n))
int __real_mdb_txn_begin(MDB_env *, MDB_txn *, unsigned, MDB_txn **); int __real_mdb_txn_commit(MDB_txn *); void __real_mdb_txn_abort(MDB_txn *);
int __wrap_mdb_txn_begin(MDB_env * e, MDB_txn * p, unsigned f, MDB_txn ** t) { if (int r = hit("")) return r; int r = __real_mdb_txn_begin(e, p, f, t); if (!r) opentxn++; return done(r); }
int __wrap_mdb_txn_commit(MDB_txn * t) { opentxn--; if (int r = hit("")) { __real_mdb_txn_abort(t); return r; } return done(__real_mdb_txn_commit(t)); }
void __wrap_mdb_txn_abort(MDB_txn * t) { opentxn--; hit(""); __real_mdb_txn_abort(t); done(0); }
}
// }}}
enum { ADD00, ADD01, ADD10, FIND0, FIND1, GC, RESET, STAT, REOPEN, PASS, NOPS };
static const char * on[] = {"store m0 under a", "store m1 under a", "store m0 under b", "find a", "find b", "collect", "reset", "statistics", "close and open", "3 s pass"};
static void perform(Sys & s, int o) {
    switch (o) {
        case ADD00: s.add(0, 0); break; case ADD01: s.add(0, 1); break; case ADD10: s.add(1, 0); break; case FIND0: s.find(0, false); break; case FIND1: s.find(1, false); break;
        case GC: s.gc(); break; case RESET: s.resetcache(); break; case STAT: s.stat(); break; case REOPEN: s.reopen(); break; case PASS: clk += 3; break;
    }
}
// what an operation does to the content
static void model(Sys & s, int o) {
    switch (o) { case ADD00: s.m_add(0, 0, true); break; case ADD01: s.m_add(0, 1, true); break; case ADD10: s.m_add(1, 0, true); break; case GC: s.m_gc(-1); break; case RESET: s.m_reset(); break; }
}
static B seq(uint64_t q, int len, int base) { B s; for (int i = 0; i < len; i++, q /= base) s += (i ? "; " : "") + B(on[q % base]); return s; }
static void forget(Sys & s) { std::set<World> n; for (auto x : s.w) { x.hits = x.misses = 0; n.insert(x); } s.w = n; }
static void anycount(Sys & s) { // the counters start from wherever they are
    s.rdstat(); std::set<World> n; for (auto x : s.w) { x.hits = s.st.hits; x.misses = s.st.misses; n.insert(x); } s.w = n;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P18";
    m.rule = "every sequence of operations up to a length; the last one failing, or the process dying, at each of its store operations in turn; every byte of a stored record altered, every truncation; operations of two processes in every order";
    m.parse(argc, argv);
    bool th = m.thorough();
    dir = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp18.%d", getpid()); mkdir(dir.c_str(), 0700);
    modules({"{{a}}", "text {{b.c}} {{#if d}}more{{/if}}", "x"});
    auto longs = special_keys(); B longkey, longkey2; for (auto & k : longs) if (k.size() >= 600 && k.size() < 700) (longkey.empty() ? longkey : longkey2) = k;
    static Cfg g; g.backend = LMDB; g.max_age = 2; g.max_entries = g.max_size = 0;
    std::vector<std::vector<B>> keysets = {{"a", "b"}, {longkey, "b"}};
    // {{{ a failing operation
    struct Code { int e; const char * n; }; static const Code codes[] = {{EIO, "EIO"}, {ENOMEM, "ENOMEM"}, {MDB_MAP_FULL, "MDB_MAP_FULL"}, {MDB_CORRUPTED, "MDB_CORRUPTED"}, {MDB_READERS_FULL, "MDB_READERS_FULL"}, {MDB_NOTFOUND, "MDB_NOTFOUND"}, {ENOSPC, "ENOSPC"}, {EACCES, "EACCES"}};
    const int NC = th ? 8 : 4, MAXCALLS = 10;
    int plen = th ? 4 : 3;
    for (size_t ks = 0; ks < keysets.size(); ks++) for (int len = 1; len <= plen; len++) {
        uint64_t S = ipow(NOPS, len);
        m.add(fmt("fault-%zu-%d", ks, len), S * NC, [=](Case & c) {
            uint64_t q = c.idx / NC; const Code & code = codes[c.idx % NC];
            int last = q / ipow(NOPS, len - 1);
            if (last == PASS) { c.skip(); return; }
            for (int n = 1; n <= MAXCALLS; n++) {
                static Sys * s = new Sys; s->g = g; s->keys = keysets[ks]; counting = false; opentxn = 0; failat = 0; s->start();
                uint64_t p = q; for (int i = 0; i + 1 < len && s->err.empty(); i++, p /= NOPS) perform(*s, p % NOPS);
                if (s->err.size()) { c.fail("P18", "before anything failed: " + s->err); return; }
                auto before = s->w;
                if (last == REOPEN) { if (s->c) s->guard([&] { handlebars_cache_dtor(s->c); }); s->c = nullptr; forget(*s); before = s->w; }
                dieat = 0; failat = n; failcode = code.e; callno = 0; counting = true;
                if (last == REOPEN) s->open(); else perform(*s, last);
                counting = false;
                bool reached = callno >= n, raised = s->err.size();
                c.transitions();
                if (opentxn) { c.fail("P18", fmt("a transaction is left open when store operation %d fails with %s", n, code.n)); return; }
                if (!reached) { B e = s->err; s->stop(e); if (e.size()) c.fail("P18", e); break; }
                // what may be there now: as before, or as if it had worked
                std::set<World> after = s->w; s->w = before;
                if (!raised) { auto keep = s->w; model(*s, last); keep.insert(s->w.begin(), s->w.end()); keep.insert(after.begin(), after.end()); s->w = keep; }
                B was = s->err; s->err.clear();
                if (s->tmp) s->end();
                if (last == REOPEN && raised) {
                    if (was.find("cannot be opened") == B::npos) { c.fail("P18", was); return; }
                    // what remains of a failed opening goes with the context
                    s->open();
                }
                anycount(*s);
                if (s->err.empty()) s->look();
                if (s->err.empty()) { s->add(1, 1); s->look(); }
                if (s->err.empty() && last != REOPEN) { s->reopen(); s->look(); }
                if (s->err.size()) { c.fail("P18", fmt("after store operation %d failed with %s (%s): %s", n, code.n, raised ? was.c_str() : "not reported", s->err.c_str())); return; }
                c.outcome(was + fmt("%d", last)); c.trace();
                B e; if (last == REOPEN && raised) { os_end(); unlink(s->g.path.c_str()); } else s->stop(e);
                if (e.size()) { c.fail("P18", fmt("after store operation %d failed with %s: %s", n, code.n, e.c_str())); return; }
            }
        }, [=](uint64_t i) { return B(ks ? "long key; " : "") + seq(i / NC, len, NOPS) + fmt("; store operations of the last fail with %s", codes[i % NC].n); }, 16);
        // the process dies
        if (th || len <= 2) m.add(fmt("crash-%zu-%d", ks, len), S * 2, [=](Case & c) {
            uint64_t q = c.idx / 2; int last = q / ipow(NOPS, len - 1);
            if (last == PASS) { c.skip(); return; }
            for (int n = 1; n <= MAXCALLS; n++) {
                static Sys * s = new Sys; s->g = g; s->keys = keysets[ks]; counting = false; failat = 0; s->start();
                uint64_t p = q; for (int i = 0; i + 1 < len && s->err.empty(); i++, p /= NOPS) perform(*s, p % NOPS);
                if (s->err.size()) { c.fail("P18", "before anything died: " + s->err); return; }
                if (!s->guard([&] { handlebars_cache_dtor(s->c); })) { c.fail("P18", "closing failed"); return; }
                s->c = nullptr; forget(*s);
                pid_t pid = fork();
                if (!pid) {
                    alarm(15);
                    dieat = n; dieafter = c.idx & 1; callno = 0;
                    if (last == REOPEN) counting = true;
                    s->open(); counting = true;
                    if (s->c && last != REOPEN) perform(*s, last);
                    _exit(s->err.size() ? 78 : 0);
                }
                int st; waitpid(pid, &st, 0); c.transitions();
                bool died = WIFEXITED(st) && WEXITSTATUS(st) == 77;
                if (!died && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { c.fail("P18", fmt("the operation failed (status %x)", st)); return; }
                auto before = s->w; model(*s, last); if (died) s->w.insert(before.begin(), before.end());
                if (!died && (last == FIND0 || last == FIND1)) { }   // what it removed, if anything, was too old
                forget(*s); s->open(); 
                if (s->err.empty()) s->look();
                if (s->err.empty()) { s->add(1, 1); s->look(); }
                B e = s->err;
                if (e.size()) { c.fail("P18", fmt("after the process died %s store operation %d: %s", dieafter ? "after" : "before", n, e.c_str())); return; }
                s->stop(e); if (e.size()) { c.fail("P18", e); return; }
                c.trace();
                if (!died) break;
            }
        }, [=](uint64_t i) { return B(ks ? "long key; " : "") + seq(i / 2, len, NOPS) + fmt("; the process dies %s each store operation of the last", i & 1 ? "after" : "before"); }, 4, 60);
    }
    // }}}
    // {{{ damaged records
    enum { XOR1, XOR80, INV, CUT, CUTFRONT, GROW, KINDS };
    static const char * kn[] = {"bit 0 altered", "bit 7 altered", "inverted", "cut off here", "cut off up to here", "this many bytes more"};
    for (size_t ks = 0; ks < keysets.size(); ks++) for (int mod = 0; mod < 3; mod++) {
        if (!th && mod == 1 && ks) continue;
        uint64_t S = msize[mod] + (ks ? longkey.size() : 0) + 1;
        m.add(fmt("damage-%zu-m%d", ks, mod), S * KINDS, [=](Case & c) {
            size_t pos = c.idx / KINDS; int kind = c.idx % KINDS;
            static Sys * s = new Sys; s->g = g; s->g.max_age = -1; s->keys = keysets[ks]; counting = false; failat = 0; s->start();
            s->add(0, mod); s->add(1, 1); 
            if (s->err.empty()) s->look();
            if (s->err.empty()) { handlebars_cache_dtor(s->c); s->c = nullptr; }
            if (s->err.size()) { c.fail("P18", "undamaged: " + s->err); return; }
            // through the store itself
            MDB_env * env; MDB_txn * t; MDB_dbi d; MDB_cursor * cu; MDB_val k, v; int found = 0, rc = 0; bool same = false;
            rc |= mdb_env_create(&env); rc |= mdb_env_open(env, s->g.path.c_str(), MDB_NOSUBDIR, 0644); rc |= mdb_txn_begin(env, nullptr, 0, &t); rc |= mdb_dbi_open(t, nullptr, 0, &d); rc |= mdb_cursor_open(t, d, &cu);
            B bad, key;
            while (!rc && mdb_cursor_get(cu, &k, &v, MDB_NEXT) == 0) {
                B kk((char *) k.mv_data, k.mv_size);
                if (kk == B("b\0", 2)) continue;
                found++; key = kk; B r((char *) v.mv_data, v.mv_size);
                if (pos > r.size()) { same = true; continue; }
                if (kind <= INV) { if (pos >= r.size()) { same = true; continue; } r[pos] ^= kind == XOR1 ? 1 : kind == XOR80 ? 0x80 : 0xff; }
                else if (kind == CUT) { if (pos >= r.size()) { same = true; continue; } r.resize(pos); }
                else if (kind == CUTFRONT) { if (!pos) { same = true; continue; } r.erase(0, pos); }
                else { if (!pos) { same = true; continue; } r += B(pos, '\0'); }
                bad = r;
            }
            mdb_cursor_close(cu);
            if (!same && !rc) { k.mv_size = key.size(); k.mv_data = key.data(); v.mv_size = bad.size(); v.mv_data = bad.data(); rc |= mdb_put(t, d, &k, &v, 0); }
            rc |= mdb_txn_commit(t); mdb_env_close(env);
            if (rc || found != 1) { c.fail("P18", fmt("cannot alter the record: %d, %d records", rc, found)); return; }
            if (same) { c.skip(); B e; s->open(); s->stop(e); return; }
            forget(*s); s->open();
            // absent, for finding; the record may still count, until it is replaced
            std::set<World> n; for (auto x : s->w) { int i = x.at(0); if (i >= 0) x.e.erase(x.e.begin() + i); n.insert(x); } s->w = n;
            if (s->err.empty()) s->find(0, false);
            if (s->err.empty()) s->find(1, false);
            if (s->err.empty()) { int r = -1; if (!s->guard([&] { r = handlebars_cache_gc(s->c); })) s->err = fmt("collecting failed: %s", os_msg); if (r > 1) s->err = "collecting removed more than the damaged record"; }
            if (s->err.empty()) s->find(1, false);
            c.transitions(4);
            if (s->err.empty()) { s->add(0, 2); if (s->err.empty()) s->look(); }
            c.outcome(s->err.empty()); c.state(hash(bad)); c.trace();
            B e = s->err;
            if (e.size()) { c.fail("P18", e); return; }
            s->stop(e); if (e.size()) c.fail("P18", e);
        }, [=](uint64_t i) { return fmt("the record of m%d under %s, byte %zu: %s", mod, ks ? "a long key" : "a", (size_t) i / KINDS, kn[i % KINDS]); }, 16);
    }
    // records with a hash that is right
    enum { VERSION, VERSION0, HEADER, OTHERKEY, NOTHING, TEXT, FOREIGN };
    static const char * fn[] = {"of a later version", "of version 0", "with another header", "of another key", "of no bytes", "that is text"};
    m.add("foreign", keysets.size() * FOREIGN, [=](Case & c) {
        int ks = c.idx / FOREIGN, kind = c.idx % FOREIGN;
        static Sys * s = new Sys; s->g = g; s->g.max_age = -1; s->keys = keysets[ks]; counting = false; failat = 0; s->start();
        s->add(0, 0); s->add(1, 1); if (s->err.empty()) s->look();
        if (s->err.empty()) { handlebars_cache_dtor(s->c); s->c = nullptr; } else { c.fail("P18", s->err); return; }
        MDB_env * env; MDB_txn * t; MDB_dbi d; MDB_cursor * cu; MDB_val k, v; int rc = 0; B key, rec, other;
        rc |= mdb_env_create(&env); rc |= mdb_env_open(env, s->g.path.c_str(), MDB_NOSUBDIR, 0644); rc |= mdb_txn_begin(env, nullptr, 0, &t); rc |= mdb_dbi_open(t, nullptr, 0, &d); rc |= mdb_cursor_open(t, d, &cu);
        while (!rc && mdb_cursor_get(cu, &k, &v, MDB_NEXT) == 0) { B kk((char *) k.mv_data, k.mv_size), r((char *) v.mv_data, v.mv_size); if (kk == B("b\0", 2)) other = r; else key = kk, rec = r; }
        mdb_cursor_close(cu);
        auto * x = (handlebars_module *) rec.data();
        switch (kind) {
            case VERSION: x->version++; handlebars_module_generate_hash(x); break; case VERSION0: x->version = 0; handlebars_module_generate_hash(x); break;
            case HEADER: memset(x->header, 'x', sizeof x->header); handlebars_module_generate_hash(x); break;
            case OTHERKEY: rec = other; break;   // for a long key: without the key; for a short one it is simply another module
            case NOTHING: rec = ""; break; case TEXT: rec = B(4096, '{'); break;
        }
        k.mv_size = key.size(); k.mv_data = key.data(); v.mv_size = rec.size(); v.mv_data = rec.data(); rc |= mdb_put(t, d, &k, &v, 0); rc |= mdb_txn_commit(t); mdb_env_close(env);
        if (rc) { c.fail("P18", fmt("cannot write the record: %d", rc)); return; }
        forget(*s); s->open();
        std::set<World> n; for (auto w : s->w) { int i = w.at(0); if (kind == OTHERKEY && !ks) w.e[i].mod = 1; else w.e.erase(w.e.begin() + i); n.insert(w); } s->w = n;
        for (int i = 0; i < 2 && s->err.empty(); i++) { s->find(0, false); if (s->err.empty()) s->find(1, false); if (s->err.empty() && !i && !s->guard([&] { handlebars_cache_gc(s->c); })) s->err = os_msg; }
        if (s->err.empty()) { s->add(0, 2); if (s->err.empty()) s->look(); }
        c.outcome(kind); c.transitions(5);
        B e = s->err; if (e.size()) { c.fail("P18", e); return; }
        s->stop(e); if (e.size()) c.fail("P18", e);
    }, [=](uint64_t i) { return fmt("a record %s under %s", fn[i % FOREIGN], i / FOREIGN ? "a long key" : "a"); }, 1);
    // files that are no store: an error, not a crash
    m.add("files", 8, [=](Case & c) {
        B path = fmt("%s/f%d", dir.c_str(), getpid()); unlink(path.c_str()); unlink((path + "-lock").c_str()); rmdir(path.c_str());
        bool must = true;
        if (c.idx == 0) mkdir(path.c_str(), 0700); else if (c.idx == 1) path = dir + "/no/such"; else if (c.idx == 7) path = "";
        else { FILE * f = fopen(path.c_str(), "w"); B s = c.idx == 2 ? "" : c.idx == 3 ? B("x") : c.idx == 4 ? B(4096, 'x') : c.idx == 5 ? B(65536, '\0') : B(100000, '\xff'); fwrite(s.data(), 1, s.size(), f); fclose(f); if (c.idx == 2) must = false; }
        static Sys * s = new Sys; s->g = g; s->g.max_age = -1; s->keys = {"a", "b"}; os_reset(); counting = false; s->w = {World{}}; s->held.clear(); s->err.clear(); s->c = nullptr; s->g.path = path;
        s->open(); c.transitions(); c.outcome(s->err);
        if (s->err.empty()) { if (must && c.idx != 5) c.fail("P18", "it can be opened"); else { s->add(0, 0); if (s->err.empty()) s->look(); if (s->err.size()) c.fail("P18", s->err); handlebars_cache_dtor(s->c); } }
        else if (!must) c.fail("P18", s->err);
        os_end(); os_ctx = nullptr;
        unlink(path.c_str()); unlink((path + "-lock").c_str()); rmdir(path.c_str());
    }, [=](uint64_t i) { static const char * n[] = {"a directory", "a path that does not exist", "an empty file", "one byte", "a page of text", "zeros", "ones", "no name"}; return B(n[i]); }, 1);
    // }}}
    // {{{ two processes
    static const int pops[] = {ADD00, ADD01, FIND0, GC, RESET, REOPEN, PASS}; const int NP = 7;
    for (int len = 2; len <= (th ? 5 : 3); len++) {
        uint64_t S = ipow(NP * 2, len);
        m.add(fmt("two-processes-%d", len), S, [=](Case & c) {
            bool other = false; uint64_t q = c.idx; for (int i = 0; i < len; i++, q /= NP * 2) { int o = q % (NP * 2); if (o >= NP) { other = true; if (pops[o - NP] == PASS) { c.skip(); return; } } }
            if (!other) { c.skip(); return; }
            static Sys * s = new Sys; s->g = g; s->keys = keysets[0]; counting = false; failat = dieat = 0; s->start();
            if (s->err.size()) { c.fail("P18", s->err); return; }
            // the other process opens it itself
            int to[2], from[2]; if (pipe(to) || pipe(from)) { c.fail("P18", "pipe"); return; }
            handlebars_cache_dtor(s->c); s->c = nullptr;
            pid_t pid = fork();
            if (!pid) {
                alarm(15); close(to[1]); close(from[0]);
                s->open(); int msg[2] = {}; if (write(from[1], msg, sizeof(int)) < 0) _exit(1);
                while (read(to[0], msg, sizeof msg) == (ssize_t) sizeof msg) {
                    clk = msg[1]; int r = -1; s->begin();
                    bool ok = s->guard([&] {
                        switch (msg[0]) {
                            case ADD00: case ADD01: handlebars_cache_add(s->c, s->str(s->keys[0]), handlebars_program_serialize(s->tmp, progs[msg[0] == ADD01])); break;
                            case FIND0: { handlebars_string * k = s->str(s->keys[0]); handlebars_module * m = handlebars_cache_find(s->c, k); if (m) { r = which(m); if (r < 0) r = -3; handlebars_cache_release(s->c, k, m); } break; }
                            case GC: r = handlebars_cache_gc(s->c); break; case RESET: handlebars_cache_reset(s->c); break;
                            case REOPEN: handlebars_cache_dtor(s->c); s->open(); break;
                        }
                    });
                    s->end();
                    if (!ok || s->err.size()) r = -9;
                    if (write(from[1], &r, sizeof r) != sizeof r) break;
                }
                _exit(0);
            }
            close(to[0]); close(from[1]);
            { int r; if (read(from[0], &r, sizeof r) != sizeof r) { c.fail("P18", "the other process died"); return; } }
            s->open();
            q = c.idx;
            for (int i = 0; i < len && s->err.empty(); i++, q /= NP * 2) {
                int o = q % (NP * 2); c.transitions();
                if (o < NP) { perform(*s, pops[o]); continue; }
                int msg[2] = {pops[o - NP], (int) clk}, r = -9;
                s->was();
                if (write(to[1], msg, sizeof msg) != sizeof msg || read(from[0], &r, sizeof r) != sizeof r) s->err = "the other process died";
                else if (r == -9) s->err = "the operation of the other process failed";
                else if (r == -3) s->err = "what the other process found is no module that was stored";
                else {
                    auto zero = s->w; 
                    std::map<World, World> back;
                    if (msg[0] == FIND0) { std::set<World> n; size_t h = s->w.begin()->hits, mi = s->w.begin()->misses; s->m_find(0, r); for (auto x : s->w) { x.hits = h; x.misses = mi; n.insert(x); } s->w = n; }
                    else if (msg[0] == GC) s->m_gc(r);
                    else if (msg[0] == RESET) { std::set<World> n; for (auto x : s->w) { x.e.clear(); n.insert(x); } s->w = n; }
                    else model(*s, msg[0]);
                    s->keep(fmt("%s by the other process gave %d with %s", on[msg[0]], r, s->before.c_str()));
                }
            }
            if (s->err.empty()) s->look();
            close(to[1]); close(from[0]); int st; waitpid(pid, &st, 0);
            c.trace(); c.outcome(s->print());
            B e = s->err; if (e.size()) { c.fail("P18", e); return; }
            s->stop(e); if (e.size()) c.fail("P18", e);
        }, [=](uint64_t i) { B r; for (int j = 0; j < len; j++, i /= NP * 2) r += fmt("%s%s%s", j ? "; " : "", i % (NP * 2) >= NP ? "the other process: " : "", on[pops[i % NP]]); return r; }, 8);
    }
    // }}}
    int r = m.go(argc, argv);
    if (dir.size() > 8) { B cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    return r;
}
