// P19: every sequence of renderings sharing one cache, against the same renderings without one
#include "lang.hpp"
#include "libh.hpp"
extern "C" {
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
#include "handlebars_compiler.h"
}
using namespace hx; using namespace lang;
typedef std::string B;
static long clk = 1000000; static bool inlib;
extern "C" time_t time(time_t * t) noexcept { if (t) *t = clk; return clk; }
extern "C" int usleep(useconds_t n) { if (inlib) return 0; struct timespec t = {(time_t) n / 1000000, (long) n % 1000000 * 1000}; return nanosleep(&t, nullptr); }
enum { SIMPLE, MMAP, LMDB };
struct Render { B name, t; Setup s; Ctx x; hres alone; };
static std::vector<Render *> rs;
struct Cfg { const char * name; int backend; double age; size_t entries, size, shm, slots; };
static B dir;
static B lots(const char * tail) { return "{{a}}" + B(600, 'x') + tail; }
static const char * keep(const B & s) { return strdup(s.c_str()); }
static void run(const Render & r, handlebars_cache * c, hres & o) {
    hreq q = req(r.s, r.t, r.x); q.cache = c;
    inlib = true; hb_render(&q, &o); inlib = false;
}
static bool same(const hres & a, const hres & b) { return a.err == b.err && a.calls == b.calls && (a.err ? a.stage == b.stage && !strcmp(a.msg, b.msg) : a.outlen == b.outlen && !memcmp(a.out, b.out, a.outlen)); }
int main(int argc, char ** argv) {
    Main m; m.prop = "P19";
    m.rule = "every sequence of renderings, collection, reset and passage of time on one cache; each rendering compared with the same rendering without a cache; non-trivial: distinct outputs";
    m.parse(argc, argv);
    bool th = m.thorough();
    dir = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp19.%d", getpid()); mkdir(dir.c_str(), 0700);
    enum { COMPAT = 1, NOESC = 8, KHO = 16, PREV = 32, EXPL = 128, STRICT = 1 << 10, ASSUME = 1 << 11, MUST = 1 << 12, IGN = 1 << 8 };
    const char * C0 = "{a:'<A>',b:'B',n:{a:'in',n:{a:'deep'}},l:[{a:1},{a:2},{}],kv8nRXc:'zero'}", * C1 = "{a:'other',c:1,l:[]}";
    auto add = [&](B t, std::vector<hpartial> ps, unsigned long f, const char * c = nullptr, int mode = HM_NATIVE) {
        auto * r = new Render; r->t = t; r->s.partials = ps; r->s.flags = f; r->s.ctxmode = mode; r->x = ctx(c ? c : C0);
        r->s.helpers = {{"boom", HF_THROW}, {"rec", HF_REC}, {"id", HF_ID}, {"blk", HF_BLK}};
        r->name = show(r->s, t, r->x);
        memset(&r->alone, 0, sizeof r->alone);
        rs.push_back(r);
    };
    // one text, everything else differs
    for (unsigned long f : std::initializer_list<unsigned long>{0, NOESC, STRICT, COMPAT}) add("{{> p}}|{{#with n}}{{> p}}{{/with}}", {part("p", "{{a}}{{b}}")}, f);
    for (unsigned long f : std::initializer_list<unsigned long>{0, COMPAT, PREV, COMPAT | PREV, IGN}) add(" {{> p}}\n    {{> p}}\n{{> p}}", {part("p", "{{a}}\n{{b}}\n")}, f);
    add("{{> p}}", {part("p", "{{b}}{{a}}")}, 0); add("{{> p}}", {part("p", "{{a}}{{b}}"), part("q", "{{b}}{{a}}")}, 0, C1); add("{{> q b=\"new\"}}", {part("q", "{{a}}{{b}}")}, 0);
    add("{{> p}}", {part("p", "{{rec a}}{{#if c}}{{a}}{{/if}}")}, 0, C1); add("{{> p}}", {part("p", "{{rec a}}{{#if c}}{{a}}{{/if}}")}, KHO);
    add("{{#n}}{{> p}}{{/n}}", {part("p", "{{a}}{{b}}")}, EXPL);
    // delimiters
    add("{{> p}}", {part("p", "<%a%>{{=<% %>=}}<%a%>{{a}}")}, COMPAT); add("{{> p}}", {part("p", "<%a%>{{=<% %>=}}<%a%>{{a}}")}, 0);
    add("{{> p}}", {part("p", "<%a%>{{a}}")}, COMPAT);
    for (const char * t : {"{{#l}}<%a%>{{a}}{{/l}}", "{{=<% %>=}}<%#l%><%a%>{{a}}<%/l%>", "{{#l}}{{a}}{{/l}}"}) { add(t, {}, COMPAT | MUST, "{a:'<A>',b:'B',l:$lamtmpl}"); }
    // nested, recursive, through blocks
    add("{{> p}}{{> q}}", {part("p", "{{> q}}{{> r}}"), part("q", "{{a}}{{b}}"), part("r", "{{> q}}!")}, 0);
    for (unsigned long f : std::initializer_list<unsigned long>{0, COMPAT}) add("{{#with n}}{{> p}}{{/with}}", {part("p", "{{a}}{{#if n}}{{#with n}}{{> p}}{{/with}}{{/if}}")}, f);
    add("{{#> p}}{{a}}{{b}}{{/p}}", {part("p", "{{#each l}}{{> @partial-block}}{{else}}none{{/each}}")}, 0);
    add("{{#each l}}{{> (id \"p\")}}{{/each}}", {part("p", "{{a}}{{b}}")}, 0, nullptr, HM_JSON);
    add("{{#each l}}{{> p}}{{> q}}{{/each}}", {part("p", "{{a}}"), part("q", "({{> p}})")}, 0);
    // failing
    add("{{> p}}{{> q}}", {part("p", "{{a}}{{b}}"), part("q", "{{#a}}{{b}}")}, 0); add("x{{> q}}", {part("q", "{{> p}}{{> missing}}"), part("p", "{{a}}{{b}}")}, 0);
    add("{{> p}}{{> q}}", {part("p", "{{a}}{{b}}"), part("q", "{{> p}}{{boom}}")}, 0); add("{{> p}}", {part("p", "{{a}}{{> p}}")}, 0);
    add("{{> p}}", {part("p", "{{a}}{{b}}")}, STRICT, C1); add("{{> p}}", {part("p", "{{#unknown 1}}{{/unknown}}")}, 0);
    // lengths and hashes
    add("{{> p}}", {part("p", ""), part("q", " ")}, 0); add("{{> q}}{{> p}}", {part("p", " "), part("q", "\n")}, COMPAT);
    { std::map<uint32_t, int> seen; for (int i = 0;; i++) { B s = lots(keep(fmt("%d", i))); uint32_t h = handlebars_string_hash(s.data(), s.size()); if (seen.count(h)) { add("{{> p}}", {part("p", keep(lots(keep(fmt("%d", seen[h])))))}, 0); add("{{> p}}", {part("p", keep(s))}, 0); break; } seen[h] = i; } }
    add("{{> p}}", {part("p", "{{kv8nRXc}}{{lookup this \"kv8nRXc\"}}{{rec kv8nRXc=kexAf1u}}{{#blk a as |kexAf1u|}}{{kexAf1u}}{{/blk}}")}, 0);
    add("{{> p}}", {part("p", "kv8nRXc")}, 0); add("{{> p}}", {part("p", "kexAf1u")}, 0);
    add("{{> p}}", {part("p", "{{#each l as |v i|}}{{i}}{{v.a}}{{@index}}{{../a}}{{n.n.a}}{{id (id \"x\" 1.5 true y=2)}}{{else}}{{&a}}{{/each}}")}, 0);
    if (getenv("P19_SHOW")) for (auto * r : rs) { run(*r, nullptr, r->alone); printf("%s -> %s\n", r->name.c_str(), showres(r->alone).c_str()); }
    for (auto * r : rs) { Render c = *r; run(*r, nullptr, r->alone); }
    static const char * other[] = {"collect", "reset", "2 s pass"};
    int nr = rs.size(), n = nr + 3;
    std::vector<Cfg> cfgs = {
        {"simple", SIMPLE, -1, 0, 0}, {"simple-age1", SIMPLE, 1, 0, 0}, {"simple-age0", SIMPLE, 0, 0, 0}, {"simple-1entry", SIMPLE, -1, 1, 0}, {"simple-size", SIMPLE, -1, 0, 1},
        {"mmap", MMAP, -1, 0, 0, 1 << 18, 509}, {"mmap-age1", MMAP, 1, 0, 0, 1 << 18, 509}, {"mmap-1slot", MMAP, -1, 0, 0, 1 << 18, 1}, {"mmap-small", MMAP, -1, 0, 0, 16384, 7},
        {"lmdb", LMDB, -1, 0, 0}, {"lmdb-age1", LMDB, 1, 0, 0},
    };
    auto name = [=](int o) { return o < nr ? rs[o]->name : B(other[o - nr]); };
    for (auto & g : cfgs) {
        int len = g.backend == LMDB ? th ? 3 : 2 : th ? 4 : 3;
        if (!th && strcmp(g.name, "simple") && strcmp(g.name, "mmap") && strcmp(g.name, "simple-1entry")) len = 2;
        m.add(g.name, ipow(n, len), [=](Case & c) {
            static hres o;
            std::vector<int> p; uint64_t q = c.idx; for (int i = 0; i < len; i++, q /= n) p.push_back(q % n);
            if (p.back() >= nr) { c.skip(); return; }
            clk = 1000000;
            B path = fmt("%s/c%d.mdb", dir.c_str(), getpid());
            if (g.backend == LMDB) { unlink(path.c_str()); unlink((path + "-lock").c_str()); }
            handlebars_context * ctx = handlebars_context_ctor();
            // an error of the cache itself, outside of any rendering
            jmp_buf buf;
            if (handlebars_setjmp_ex(ctx, &buf)) { c.fail("P19", fmt("the cache failed: %s", ctx->e->msg)); return; }
            handlebars_cache * k = g.backend == SIMPLE ? handlebars_cache_simple_ctor(ctx) : g.backend == MMAP ? handlebars_cache_mmap_ctor(ctx, g.shm, g.slots) : handlebars_cache_lmdb_ctor(ctx, path.c_str());
            k->max_age = g.age; k->max_entries = g.entries; k->max_size = g.size;
            for (size_t i = 0; i < p.size(); i++) {
                if (p[i] < nr) {
                    run(*rs[p[i]], k, o); c.transitions();
                    if (!same(o, rs[p[i]]->alone)) { c.fail("P19", fmt("rendering %zu (%s) gave %s; without a cache %s", i + 1, rs[p[i]]->name.c_str(), showres(o).c_str(), showres(rs[p[i]]->alone).c_str())); return; }
                    c.outcome(o.err ? o.msg : B(o.out, o.outlen));
                } else if (p[i] == nr) handlebars_cache_gc(k); else if (p[i] == nr + 1) { inlib = true; handlebars_cache_reset(k); inlib = false; } else clk += 2;
            }
            if (g.backend != LMDB && handlebars_cache_stat(k).refcount) c.fail("P19", fmt("%zu modules remain in use", handlebars_cache_stat(k).refcount));
            handlebars_cache_dtor(k);
            handlebars_context_dtor(ctx);
            c.trace();
        }, [=](uint64_t i) { B s = fmt("%s:", g.name); for (int j = 0; j < len; j++, i /= n) s += (j ? "; then " : " ") + name(i % n); return s; }, 32);
    }
    int r = m.go(argc, argv);
    if (dir.size() > 8) { B cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    return r;
}
