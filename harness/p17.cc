// P17: every schedule of operations on one shared-memory cache
#include "sched.hpp"
#include "libh.hpp"
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
extern "C" {
#include "handlebars_parser.h"
#include "handlebars_ast.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
}
using namespace hx;
typedef std::string B;
static long clk = 1000000;
extern "C" time_t time(time_t * t) noexcept { if (t) *t = clk; return clk; }
// {{{ modules
static handlebars_context * mctx;
static handlebars_module * mod[2][2]; static B image[2];   // [which][made long ago]
static B module_image(const char * p, size_t n) {
    B c(p, n);
    auto * x = (handlebars_module *) c.data();
    handlebars_module_patch_pointers(x); handlebars_module_normalize_pointers(x, (void *) 0);
    x->ts = 0; x->hash = 0;
    return c;
}
static void modules() {
    mctx = handlebars_context_ctor();
    const char * t[] = {"a", "{{b c}}"};
    for (int old = 1; old >= 0; old--, clk += 10) for (int i = 0; i < 2; i++) {
        auto * ast = handlebars_parse_ex(handlebars_parser_ctor(mctx), handlebars_string_ctor(mctx, t[i], strlen(t[i])), 0);
        auto * p = handlebars_compiler_compile_ex(handlebars_compiler_ctor(mctx), ast);
        mod[i][old] = handlebars_program_serialize(mctx, p);
        image[i] = module_image((char *) mod[i][old], mod[i][old]->size);
    }
    clk -= 10;
}
static int which(handlebars_module * m) {
    using namespace sc;
    if ((char *) m < lo || (char *) m + sizeof *m > hi) return -2;
    access(m, sizeof *m, false);
    if (m->addr != m || m->size < sizeof *m || (char *) m + m->size > hi) return -2;
    size_t n = m->size;
    access(m, n, false);
    B i = module_image((char *) m, n);
    for (int k = 0; k < 2; k++) if (i == image[k]) return k;
    return -2;
}
// }}}
enum Kind { FIND, HOLD, ADD, GC, RESET, STAT };
struct Op { Kind k; int key, mod; };
static const std::vector<Op> ops = {{FIND, 0}, {ADD, 0, 0}, {ADD, 0, 1}, {RESET}, {HOLD, 0}, {ADD, 1, 1}, {GC}, {FIND, 1}, {STAT}};
static B opname(const Op & o) {
    switch (o.k) { case FIND: return fmt("find %d", o.key); case HOLD: return fmt("find and keep %d", o.key); case ADD: return fmt("store %d=m%d", o.key, o.mod); case GC: return "collect"; case RESET: return "reset"; default: return "statistics"; }
}
struct Init { const char * name; std::vector<Op> pre; double age; size_t shm, slots; bool full; };
static const std::vector<Init> inits = {
    {"holding 0", {{ADD, 0, 0}}, -1, 32768, 509},
    {"empty", {}, -1, 32768, 509},
    {"holding 0 and 1", {{ADD, 0, 0}, {ADD, 1, 1}}, 3, 32768, 509},
    {"holding 0, too old", {{ADD, 0, 0}}, 3, 32768, 509},
    {"almost full, holding 0", {{ADD, 0, 0}}, -1, 12288, 509, true},
    {"of one slot, holding 0", {{ADD, 0, 0}}, -1, 32768, 1},
    {"holding 0 and 1, too old", {{ADD, 1, 0}, {ADD, 0, 1}}, 3, 32768, 509},
    {"almost full and of one slot, holding 1", {{ADD, 1, 0}}, -1, 12288, 1, true},
};
struct Ev { Op o; int th; long s, e; long r; };
struct Scenario { const Init * in; std::vector<std::vector<Op>> th; };
static B showsc(const Scenario & s) {
    B r = fmt("a cache %s;", s.in->name);
    for (size_t i = 0; i < s.th.size(); i++) { r += fmt(" P%zu:", i); for (auto & o : s.th[i]) r += " " + opname(o) + ","; }
    r.back() = ' ';
    return r;
}
// {{{ is the history that of some order?
struct St { signed char v[2]; bool operator<(const St & o) const { return std::tie(v[0], v[1]) < std::tie(o.v[0], o.v[1]); } };  // -1 nothing, module + 2 if too old
static std::vector<Ev> hist; static const Init * hin; static std::set<std::pair<uint32_t, St>> seen; static bool sameslot;
static bool changes(const Ev & e) { return e.o.k == ADD || e.o.k == RESET || e.o.k == GC; }
static bool lin(uint32_t done, St s) {
    if (done + 1 == 1u << hist.size()) return true;
    if (!seen.insert({done, s}).second) return false;
    long first = LONG_MAX;
    for (size_t i = 0; i < hist.size(); i++) if (!(done >> i & 1)) first = std::min(first, hist[i].e);
    for (size_t i = 0; i < hist.size(); i++) {
        if (done >> i & 1 || hist[i].s > first) continue;
        Ev & e = hist[i]; uint32_t d = done | 1u << i; int k = e.o.key; St n = s, none = {{-1, -1}};
        switch (e.o.k) {
            case FIND: case HOLD:
                if (e.r >= 0) { if (s.v[k] == e.r && lin(d, s)) return true; break; }
                if (s.v[k] < 0) { if (lin(d, s)) return true; break; }
                if (s.v[k] >= 2) { n.v[k] = -1; if (lin(d, s) || lin(d, n)) return true; break; }
                for (auto & x : hist) if (x.th != e.th && changes(x) && x.s < e.e && e.s < x.e) { if (lin(d, s)) return true; break; }
                break;
            case ADD: {
                n.v[k] = e.o.mod;
                bool clash = sameslot && s.v[1 - k] >= 0;
                if (clash && lin(d, s)) return true;
                if (hin->full) { St o = none; if (lin(d, s) || lin(d, o)) return true; o.v[k] = e.o.mod; if (lin(d, o)) return true; }
                if (clash) n.v[1 - k] = -1;
                if (lin(d, n)) return true;
                break;
            }
            case GC: { long r = 0; for (auto & v : n.v) if (v >= 2) { v = -1; r++; } if (r == e.r && lin(d, n)) return true; break; }
            case RESET: if (lin(d, none)) return true; break;
            case STAT: { long r = 0; for (auto & v : n.v) r += v >= 0; if ((e.r < 0 || r == e.r) && lin(d, s)) return true; break; }
        }
    }
    return false;
}
// }}}
static handlebars_string * keys[sc::MAXT + 1][2];
static B showhist() {
    B r;
    for (auto & e : hist) r += (r.empty() ? "" : "; ") + (e.th < 0 ? B("afterwards") : fmt("P%d", e.th)) + " " + opname(e.o) + (e.o.k == FIND || e.o.k == HOLD ? e.r < 0 ? " -> nothing" : fmt(" -> m%ld", e.r) : e.o.k == GC || e.o.k == STAT ? fmt(" -> %ld", e.r) : "") + fmt(" [%ld-%ld]", e.s, e.e);
    return r;
}
static bool once(const Scenario & s, B & err, handlebars_cache ** left) {
    handlebars_context * ctx = handlebars_context_ctor();
    sc::cur = -1; sc::lo = sc::hi = nullptr;
    handlebars_cache * c = handlebars_cache_mmap_ctor(ctx, s.in->shm, s.in->slots);
    c->max_age = s.in->age;
    sc::segment(c->internal, s.in->shm);
    sc::plo = sc::phi = nullptr;
    for (auto & r : sc::ro) r = true;
    static struct handlebars_cache_stat st0;
    St init = {{-1, -1}};
    int old = s.in->age >= 0 && strstr(s.in->name, "old");
    for (auto & o : s.in->pre) { handlebars_cache_add(c, keys[sc::MAXT][o.key], mod[o.mod][old]); init.v[o.key] = o.mod + 2 * old; }
    if (s.in->full) { int k = s.in->pre[0].key, m = s.in->pre[0].mod; for (;;) { st0 = handlebars_cache_stat(c); if (st0.current_data_size + mod[1][0]->size * 2 + 256 > st0.total_data_size) break; handlebars_cache_add(c, keys[sc::MAXT][k], mod[m][old]); } }
    hist.clear(); long tick = 0; int users = 0;
    hist.reserve(64);
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < s.th.size(); t++) bodies.push_back([&, t] {
        struct Held { handlebars_module * m; int key, id; }; std::vector<Held> held;
        auto check = [&](const Held & h) {
            int w = which(h.m);
            if (w != h.id && err.empty()) { err = fmt("the module found by P%zu for key %d %s", t, h.key, h.id < 0 ? "is none that was stored" : "changed before it was released"); sc::quit(err); }
        };
        for (auto & o : s.th[t]) {
            sc::co[t].impatient = sc::co[t].patience = 0;
            size_t i = hist.size(); hist.push_back({o, (int) t, ++tick, LONG_MAX, -1});
            switch (o.k) {
                case FIND: case HOLD: {
                    handlebars_module * m = handlebars_cache_find(c, keys[t][o.key]);
                    hist[i].e = ++tick;
                    if (!m) break;
                    Held h{m, o.key, -1};
                    h.id = which(m); hist[i].r = h.id;
                    check(h);
                    if (o.k == HOLD) held.push_back(h);
                    else { sc::point(); check(h); sc::co[t].nopoint = 1; handlebars_cache_release(c, keys[t][o.key], m); sc::co[t].nopoint = 0; }
                    break;
                }
                case ADD: handlebars_cache_add(c, keys[t][o.key], mod[o.mod][0]); break;
                case GC: hist[i].r = handlebars_cache_gc(c); break;
                case RESET: handlebars_cache_reset(c); break;
                case STAT: handlebars_cache_stat(c); break;
            }
            if (hist[i].e == LONG_MAX) hist[i].e = ++tick;
        }
        if (held.size()) sc::point();
        for (auto & h : held) { check(h); sc::co[t].nopoint = 1; handlebars_cache_release(c, keys[t][h.key], h.m); sc::co[t].nopoint = 0; }
    });
    sc::run(bodies);
    if (err.empty()) err = sc::err;
    if (!err.empty()) return false;
    // afterwards, alone
    struct handlebars_cache_stat st = handlebars_cache_stat(c);
    auto ev = [&](Op o, long r) { ++tick; hist.push_back({o, -1, tick, tick, r}); ++tick; };
    auto find = [&](int k) { handlebars_module * m = handlebars_cache_find(c, keys[sc::MAXT][k]); int w = m ? which(m) : -1; if (m && w < 0) err = fmt("afterwards, what is found for key %d is no module", k); if (m) handlebars_cache_release(c, keys[sc::MAXT][k], m); ev({FIND, k}, w); };
    if (st.refcount) err = fmt("afterwards %zd modules count as in use", (ssize_t) st.refcount);
    size_t hits = 0, misses = 0; bool cleared = s.in->full; for (auto & e : hist) { if (e.o.k == FIND || e.o.k == HOLD) (e.r < 0 ? misses : hits)++; if (e.o.k == RESET) cleared = true; }
    if (err.empty() && !cleared && (st.hits != hits || st.misses != misses)) err = fmt("afterwards %zu hits and %zu misses are counted, there were %zu and %zu", st.hits, st.misses, hits, misses);
    ev({STAT}, st.current_entries);
    find(0); find(1); ev({STAT}, handlebars_cache_stat(c).current_entries);
    handlebars_cache_gc(c); handlebars_cache_reset(c); ev({RESET}, 0); ev({STAT}, handlebars_cache_stat(c).current_entries);
    find(0);
    bool full = s.in->full;
    handlebars_cache_add(c, keys[sc::MAXT][0], mod[1][0]); handlebars_module * m = handlebars_cache_find(c, keys[sc::MAXT][0]);
    if (err.empty() && (!m || which(m) != 1)) err = "afterwards nothing can be stored";
    if (m) handlebars_cache_release(c, keys[sc::MAXT][0], m);
    if (err.empty() && handlebars_cache_stat(c).current_data_size > 1 << 12) err = "afterwards a reset does not make room";
    if (err.empty()) {
        hin = s.in; seen.clear();
        sameslot = handlebars_string_hash("k0", 2) % s.in->slots == handlebars_string_hash("k1", 2) % s.in->slots;
        if (!lin(0, init)) err = "no order of the operations has these results: " + showhist();
    }
    (void) full; (void) users;
    handlebars_cache_dtor(c);
    handlebars_context_dtor(ctx);
    return err.empty();
}
struct Counts { enum { RACY, FINE }; };
static void all(Case & c, const Scenario & s, int bound, int finebound, long limit) {
    for (int fine = 0; fine < 2; fine++) {
        sc::path.clear(); sc::fine = fine; sc::bound = fine ? finebound : bound; sc::steplimit = 200000;
        bool race = false; B what; long n = 0;
        do {
            B err;
            if (!once(s, err, nullptr)) { B e = err + fmt(" (schedule %s%s)", sc::sched.c_str(), fine ? ", preempted at memory accesses" : ""); c.fail("P17", e + "; " + showhist()); return; }
            c.transitions(sc::steps); c.trace();
            c.outcome(showhist());
            { uint64_t h = 0; for (auto & e : hist) { h = hash(&e.r, sizeof e.r, h); h = hash(&e.s, sizeof e.s, h); } c.state(h); }
            if (sc::race) { race = true; what = sc::racewhat; }
            if (race && !fine) break;
            if (getenv("P17_TRACE")) { printf("%s |", sc::sched.c_str()); for (auto & p : sc::path) printf(" %d/%d", p.pick, p.n); printf("\n"); }
            if (limit && ++n >= limit) { c.fail("P17", fmt("more than %ld schedules", limit)); return; }
        } while (sc::next());
        if (!race) return;
        c.count(0);
        if (getenv("P17_RACE")) printf("race at %s: %s, schedule %s\n", what.c_str(), showsc(s).c_str(), sc::sched.c_str());
    }
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P17";
    m.rule = "for every combination of short operation sequences of 2-3 participants, every schedule that preempts at lock operations, sleeps and uses of a found module; at every access to shared memory where accesses are not ordered by locks";
    m.parse(argc, argv);
    bool th = m.thorough();
    modules();
    for (int t = 0; t <= sc::MAXT; t++) for (int k = 0; k < 2; k++) { keys[t][k] = handlebars_string_ctor(mctx, k ? "k1" : "k0", 2); hbs_str_hash(keys[t][k]); }
    auto seqs = [](int len, int nops) { std::vector<std::vector<Op>> r; for (uint64_t i = 0; i < ipow(nops, len); i++) { std::vector<Op> q; uint64_t x = i; for (int j = 0; j < len; j++, x /= nops) q.push_back(ops[x % nops]); r.push_back(q); } return r; };
    auto add = [&](const char * name, std::vector<std::vector<std::vector<Op>>> th, int bound, int finebound, std::vector<int> ins, bool sym, double limit = 20) {
        auto * l = new std::vector<Scenario>;
        for (int i : ins) {
            std::vector<size_t> x(th.size());
            for (;;) {
                bool ok = true;
                if (sym) for (size_t j = 1; j < x.size(); j++) if (th[j].size() == th[j - 1].size() && x[j] < x[j - 1]) ok = false;
                if (ok) { Scenario s; s.in = &inits[i]; for (size_t j = 0; j < x.size(); j++) s.th.push_back(th[j][x[j]]); l->push_back(s); }
                size_t j = 0; while (j < x.size() && ++x[j] == th[j].size()) x[j++] = 0;
                if (j == x.size()) break;
            }
        }
        m.add(name, l->size(), [=](Case & c) { all(c, (*l)[c.idx], bound, finebound, 0); }, [=](uint64_t i) { return showsc((*l)[i]); }, 4, limit);
    };
    std::vector<int> every; for (size_t i = 0; i < inits.size(); i++) every.push_back(i);
    int N = ops.size();
    add("1x1", {seqs(1, N), seqs(1, N)}, 1000, th ? 4 : 3, every, true);
    add("2x1", {seqs(2, N), seqs(1, N)}, 1000, th ? 3 : 2, every, true);
    add("1x1x1", {seqs(1, N), seqs(1, N), seqs(1, N)}, 1000, 2, every, true);
    add("2x2", {seqs(2, N), seqs(2, N)}, 1000, 2, every, true, 60);
    add("2x1x1", {seqs(2, N), seqs(1, N), seqs(1, N)}, th ? 1000 : 3, 2, th ? every : std::vector<int>{0, 2, 4}, true, 60);
    if (th) { add("3x2", {seqs(3, N), seqs(2, N)}, 1000, 2, every, true, 120); add("1x1x1x1", {seqs(1, N), seqs(1, N), seqs(1, N), seqs(1, N)}, 5, 1, every, true, 120); add("2x2x1", {seqs(2, N), seqs(2, N), seqs(1, N)}, 3, 1, every, true, 120); }
    return m.go(argc, argv);
}
