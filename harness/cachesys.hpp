// A cache of any backend next to the set of contents it may have: an operation whose effect the
// documentation leaves open (which of two entries of one age goes first) leads to several, and what is
// observed rules out all but those that agree.
#pragma once
#include "hx.hpp"
#include "objshim.h"
#include "libh.hpp"
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
extern "C" {
#include "handlebars_parser.h"
#include "handlebars_ast.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
}
namespace cs {
using namespace hx;
typedef std::string B;
enum { SIMPLE, MMAP, LMDB };
inline const char * bname[] = {"simple", "mmap", "lmdb"};
inline B dir;   // for the files of the on-disk cache
inline long clk = 1000000, slept = 0; inline bool inlib;
// {{{ modules: the bytes of each, wherever it stands and whenever it was made
inline handlebars_context * mctx; inline std::vector<handlebars_program *> progs; inline std::vector<B> image; inline std::vector<size_t> msize;
inline B module_image(handlebars_module * m) {
    if (m->size < sizeof *m || m->size > 1 << 20) return "size";
    B c((const char *) m, m->size);
    auto * x = (handlebars_module *) c.data();
    handlebars_module_patch_pointers(x);
    handlebars_module_normalize_pointers(x, (void *) 0);
    x->ts = 0; x->hash = 0;
    return c;
}
inline void modules(std::vector<B> tmpls) {
    mctx = handlebars_context_ctor();
    for (auto & t : tmpls) {
        auto * ast = handlebars_parse_ex(handlebars_parser_ctor(mctx), handlebars_string_ctor(mctx, t.data(), t.size()), 0);
        progs.push_back(handlebars_compiler_compile_ex(handlebars_compiler_ctor(mctx), ast));
        handlebars_module * m = handlebars_program_serialize(mctx, progs.back());
        image.push_back(module_image(m)); msize.push_back(m->size);
    }
}
inline int which(handlebars_module * m) {
    if (m->addr != m) return -1;
    B i = module_image(m);
    for (size_t k = 0; k < image.size(); k++) if (i == image[k]) return k;
    return -1;
}
// }}}
struct Ent { int key, mod; long ts; bool operator<(const Ent & o) const { return std::tie(key, mod, ts) < std::tie(o.key, o.mod, o.ts); } };
struct World {
    std::vector<Ent> e; size_t hits = 0, misses = 0;
    int at(int k) const { for (size_t i = 0; i < e.size(); i++) if (e[i].key == k) return i; return -1; }
    size_t size() const { size_t s = 0; for (auto & x : e) s += msize[x.mod]; return s; }
    bool operator<(const World & o) const { return std::tie(hits, misses, e) < std::tie(o.hits, o.misses, o.e); }
    B str() const { B s = "{"; for (auto & x : e) s += fmt("%s%d=m%d@%ld", s.size() > 1 ? " " : "", x.key, x.mod, x.ts); return s + fmt("} hits %zu misses %zu", hits, misses); }
};
struct Cfg { int backend; double max_age; size_t max_entries, max_size, shm = 65536, slots = 64; B path; };
struct Sys {
    Cfg g; std::vector<B> keys; handlebars_cache * c = nullptr; std::set<World> w;
    struct Held { int key, mod; handlebars_module * m; }; std::vector<Held> held;
    handlebars_context * tmp = nullptr;
    handlebars_string * str(const B & s) { return handlebars_string_ctor(tmp, s.data(), s.size()); }
    void begin() { if (!tmp) tmp = handlebars_context_ctor(); }
    void end() { handlebars_context_dtor(tmp); tmp = nullptr; }   // what the caller owned is gone
    B err; size_t blocks0;
    template<class F> bool guard(F f) {   // false: an error was raised
        jmp_buf buf; jmp_buf * prev = os_ctx->e->jmp; bool ok = true;
        if (handlebars_setjmp_ex(os_ctx, &buf)) { ok = false; snprintf(os_msg, sizeof os_msg, "%s", os_ctx->e->msg ? os_ctx->e->msg : "(none)"); os_ctx->e->num = HANDLEBARS_SUCCESS; } else { inlib = true; f(); }
        inlib = false;
        os_ctx->e->jmp = prev;
        return ok;
    }
    void open() {
        if (!guard([&] {
            c = g.backend == SIMPLE ? handlebars_cache_simple_ctor(os_ctx) : g.backend == MMAP ? handlebars_cache_mmap_ctor(os_ctx, g.shm, g.slots) : handlebars_cache_lmdb_ctor(os_ctx, g.path.c_str());
            c->max_age = g.max_age; c->max_entries = g.max_entries; c->max_size = g.max_size;
        })) { err = fmt("cannot be opened: %s", os_msg); }
    }
    void start() {
        if (os_ctx) os_end();
        os_reset(); clk = 1000000; slept = 0; err.clear();
        if (tmp) end();
        if (g.backend == LMDB) { g.path = fmt("%s/c%d.mdb", dir.c_str(), getpid()); unlink(g.path.c_str()); unlink((g.path + "-lock").c_str()); }
        held.clear(); w = {World{}}; c = nullptr; blocks0 = talloc_total_blocks(os_ctx);
        open();
    }
    bool over(const World & x) { return (g.max_entries && x.e.size() > g.max_entries) || (g.max_size && x.size() > g.max_size); }
    int aged(const Ent & e) { if (g.max_age < 0) return -1; long a = clk - e.ts; return a < g.max_age ? -1 : a > g.max_age; }   // 0: just the maximum age
    int slot(int k) { return handlebars_string_hash(keys[k].data(), keys[k].size()) % g.slots; }
    // every way to collect
    void gcs(const World & x, int n, std::set<std::pair<World, int>> & out) {
        if (g.backend != SIMPLE) {
            std::vector<std::pair<World, int>> r{{x, n}}; r[0].first.e.clear();
            for (auto & e : x.e) {
                int a = aged(e); size_t m = r.size();
                if (a == 0) { auto cp = r; r.insert(r.end(), cp.begin(), cp.end()); }
                for (size_t i = 0; i < r.size(); i++) if (a < 0 || (a == 0 && i < m)) r[i].first.e.push_back(e); else r[i].second++;
            }
            for (auto & y : r) out.insert(y);
            return;
        }
        long first = 0; for (auto & e : x.e) if (!first || e.ts < first) first = e.ts;
        bool must = x.e.size() && over(x), may = true;
        for (auto & e : x.e) if (aged(e) > 0) must = true; else if (aged(e) == 0) may = false;
        (void) may;
        if (!must) {
            out.insert({x, n});
            bool edge = false; for (auto & e : x.e) if (aged(e) == 0) edge = true;
            if (!edge) return;
        }
        for (size_t i = 0; i < x.e.size(); i++) if (x.e[i].ts == first) { World y = x; y.e.erase(y.e.begin() + i); gcs(y, n + 1, out); }
    }
    void keep(const B & what) {
        if (w.empty() && err.empty()) err = what;
        if (w.size() > 4096 && err.empty()) err = "too many contents agree";
    }
    B before; void was() { before.clear(); for (auto & x : w) { before += (before.empty() ? "" : " or ") + x.str(); if (before.size() > 400) break; } }
    void m_add(int k, int m, bool room) {
        std::set<World> n;
        for (auto & x : w) {
            std::set<std::pair<World, int>> pre{{x, 0}};
            if (g.backend == SIMPLE && over(x)) gcs(x, 0, pre);
            for (auto & p : pre) {
                World y = p.first; int i = y.at(k);
                bool clash = false;
                if (g.backend == MMAP) for (auto & e : y.e) if (e.key != k && slot(e.key) == slot(k)) clash = true;
                if (!room) { n.insert(y); World z = y; z.e.clear(); n.insert(z); }
                if (clash) n.insert(y);   // the slot is taken: either stays or goes
                if (g.backend == LMDB && keys[k].size() >= 511) for (size_t j = 0; j < y.e.size(); j++) if (y.e[j].key != k && keys[y.e[j].key].size() >= 511 && handlebars_string_hash(keys[k].data(), keys[k].size()) == handlebars_string_hash(keys[y.e[j].key].data(), keys[y.e[j].key].size())) { y.e.erase(y.e.begin() + j); i = y.at(k); break; }
                if (clash) for (size_t j = y.e.size(); j-- > 0;) if (y.e[j].key != k && slot(y.e[j].key) == slot(k)) y.e.erase(y.e.begin() + j);
                i = y.at(k);
                if (i >= 0) y.e[i] = {k, m, clk}; else y.e.push_back({k, m, clk});
                n.insert(y);
                if (!room) { World z; z.hits = y.hits; z.misses = y.misses; z.e = {{k, m, clk}}; n.insert(z); }
            }
        }
        w = n;
    }
    void add(int k, int m) {
        begin(); was();
        if (g.backend == MMAP) rdstat(); handlebars_string * s = str(keys[k]);
        handlebars_module * mod = handlebars_program_serialize(tmp, progs[m]);
        bool room = g.backend != MMAP || st.current_data_size + msize[m] + keys[k].size() + 256 < st.total_data_size;
        if (!guard([&] { handlebars_cache_add(c, s, mod); })) err = fmt("storing failed: %s", os_msg);
        m_add(k, m, room);
        end();
    }
    void m_find(int k, int id) {
        std::set<World> n;
        for (auto & x : w) {
            int i = x.at(k), a = i < 0 ? 1 : aged(x.e[i]);
            World y = x;
            if (id >= 0) {
                if (i < 0 || x.e[i].mod != id) continue;
                if (g.backend != SIMPLE && a > 0) continue;
                y.hits++; if (g.backend == SIMPLE) y.e[i].ts = clk;
                n.insert(y);
            } else {
                if (i >= 0 && a < 0) continue;
                y.misses++; n.insert(y);
                if (i >= 0) { y.e.erase(y.e.begin() + i); n.insert(y); }
            }
        }
        w = n;
    }
    // hold: keep what is found
    void find(int k, bool hold) {
        begin(); was();
        handlebars_string * s = str(keys[k]); handlebars_module * m = nullptr;
        if (!guard([&] { m = handlebars_cache_find(c, s); })) { err = fmt("finding failed: %s", os_msg); end(); return; }
        int id = m ? which(m) : -1;
        if (m && id < 0) { err = fmt("what was found for key %d is no module that was stored", k); end(); return; }
        m_find(k, id);
        keep(fmt("find of key %d gave %s with %s", k, m ? fmt("module %d", id).c_str() : "nothing", before.c_str()));
        if (m) {
            if (hold) held.push_back({k, id, m}); else handlebars_cache_release(c, s, m);
        }
        end();
    }
    void release(size_t i) {
        begin();
        Held h = held[i]; held.erase(held.begin() + i);
        if (!guard([&] { handlebars_cache_release(c, str(keys[h.key]), h.m); })) err = fmt("releasing failed: %s", os_msg);
        end();
    }
    // r < 0: any number
    void m_gc(int r) {
        std::set<World> n;
        for (auto & x : w) { std::set<std::pair<World, int>> o; gcs(x, 0, o); for (auto & p : o) if (r < 0 || p.second == r) n.insert(p.first); }
        w = n;
    }
    void gc() {
        was(); int r = -1;
        if (!guard([&] { r = handlebars_cache_gc(c); })) { err = fmt("collecting failed: %s", os_msg); return; }
        m_gc(r);
        keep(fmt("collection removed %d with %s", r, before.c_str()));
    }
    void resetcache() {
        if (!guard([&] { handlebars_cache_reset(c); })) { err = fmt("resetting failed: %s", os_msg); return; }
        m_reset();
    }
    void m_reset() {
        std::set<World> n;
        for (auto & x : w) { World y; n.insert(y); y.hits = x.hits; y.misses = x.misses; n.insert(y); }
        w = n;
    }
    void reopen() {
        if (!guard([&] { handlebars_cache_dtor(c); })) err = "closing failed";
        std::set<World> n; for (auto x : w) { x.hits = x.misses = 0; n.insert(x); } w = n;
        open();
    }
    struct handlebars_cache_stat st;
    void rdstat() { if (!guard([&] { st = handlebars_cache_stat(c); })) { err = fmt("the statistics failed: %s", os_msg); memset(&st, 0, sizeof st); } }
    void stat() {
        rdstat(); was();
        if (!err.empty()) return;
        std::set<World> n;
        for (auto & x : w) if (x.e.size() == st.current_entries && x.hits == st.hits && x.misses == st.misses && (g.backend != SIMPLE || x.size() == st.current_size)) n.insert(x);
        w = n;
        keep(fmt("the statistics are: entries %zu size %zu hits %zu misses %zu, with %s", st.current_entries, st.current_size, st.hits, st.misses, before.c_str()));
        if (err.empty() && g.backend != LMDB && st.refcount != held.size()) err = fmt("the statistics count %zu in use, not %zu", st.refcount, held.size());
        if (err.empty() && strcmp(st.name, bname[g.backend])) err = fmt("it calls itself %s", st.name);
    }
    void intact() { for (auto & h : held) if (err.empty() && which(h.m) != h.mod) err = fmt("the module found for key %d, not released yet, changed", h.key); }
    // everything that can be asked
    void look() {
        stat(); intact();
        for (size_t k = 0; k < keys.size() && err.empty(); k++) { find(k, false); intact(); }
        if (err.empty()) stat();
    }
    uint64_t print() {
        uint64_t x = hash(&g.backend, 4);
        std::set<B> s;
        for (auto & y : w) { B t; for (auto & e : y.e) t += fmt("%d=%d@%ld ", e.key, e.mod, std::min(clk - e.ts, (long) g.max_age + 2)); s.insert(t); }
        for (auto & t : s) x = hash(t, x);
        for (auto & h : held) x = hash(fmt("%d:%d %d", h.key, h.mod, (int) (g.backend == SIMPLE && [&] { for (auto & y : w) if (y.at(h.key) >= 0) return true; return false; }())), x);
        if (g.backend == MMAP) x = hash(fmt("%zu", st.current_data_size), x);
        return x;
    }
    void stop(B & e) {
        if (e.empty()) e = err;
        if (!os_ctx) return;
        if (tmp) end();
        if (e.empty()) while (held.size()) { release(held.size() - 1); intact(); }
        if (e.empty()) {
            resetcache(); stat();
            for (size_t k = 0; k < keys.size() && err.empty(); k++) find(k, false);
            if (g.backend != MMAP && err.empty()) {
                size_t n = talloc_total_blocks(c);
                handlebars_cache_dtor(c); c = nullptr; open();
                size_t n2 = talloc_total_blocks(c);
                if (n != n2) err = fmt("%zd blocks remain in the cache after a reset", n - n2);
            }
            if (c && err.empty()) { handlebars_cache_dtor(c); c = nullptr; if (talloc_total_blocks(os_ctx) > blocks0) err = fmt("%zu blocks remain of a closed cache", talloc_total_blocks(os_ctx) - blocks0); }
            e = err;
        }
        if (e.empty()) os_end(); else { if (g.backend != SIMPLE && c) talloc_free(c); os_ctx = nullptr; }
        if (g.backend == LMDB) { unlink(g.path.c_str()); unlink((g.path + "-lock").c_str()); }
    }
};
inline std::vector<B> special_keys() {
    std::vector<B> k = {"", B("\0", 1), "a", B("a\0", 2), B("a\0b", 3), "kv8nRXc", "kexAf1u", "hash:0"};
    // two long keys of one hash
    std::map<uint32_t, int> seen; B base(600, 'x');
    for (int i = 0;; i++) {
        B s = base + fmt("%d", i); uint32_t h = handlebars_string_hash(s.data(), s.size());
        if (seen.count(h)) { k.push_back(base + fmt("%d", seen[h])); k.push_back(s); k.push_back(fmt("hash:%u", h)); break; }
        seen[h] = i;
    }
    for (int n : {509, 510, 511, 512, 513}) k.push_back(B(n, 'y'));
    k.push_back(B(3000, 'z'));
    return k;
}
}
extern "C" time_t time(time_t * t) noexcept { if (t) *t = cs::clk; return cs::clk; }
// the library does not wait, the driver does
extern "C" int usleep(useconds_t n) { if (cs::inlib) { cs::slept++; return 0; } struct timespec t = {(time_t) n / 1000000, (long) n % 1000000 * 1000}; return nanosleep(&t, nullptr); }
