// P26: what several threads do at once, each with its own context, and what is done again with one template
#define SC_STACK 2048 * 1024
#include "sched.hpp"
#include "suite.hpp"
#include "anyshim.h"
#include "thrshim.h"
#include <link.h>
#include <sys/syscall.h>
extern "C" {
#include "handlebars.h"
#include "handlebars_memory.h"
}
using namespace hx; using namespace lang; using B = std::string; typedef std::vector<B> L;
extern char __data_start[], _end[];
// {{{ jobs
enum { PIPE, SHARED, PARSE, ANY };
struct Job { int kind; B t; unsigned long flags; int x, mode, pipe, nojmp; const void * mod; B image; B alone; };
static Setup * S0; static Ctx X[2];
static std::vector<Job> jobs;
static B show(const Job & j) { static const char * k[] = {"render", "render the shared module of", "parse and print", "all stages of"}; return fmt("%s '%s'%s%s flags %lu", k[j.kind], esc(j.t).c_str(), j.mode == HM_JSON ? " json" : j.mode == HM_YAML ? " yaml" : j.mode == HM_JSON_CONVERT ? " converted" : "", j.nojmp ? " no handler" : "", j.flags); }
struct Res { hres r; hparse p; ares a; };
static Res * res[sc::MAXT + 1];
static B text(const hres & r) { return r.err ? fmt("error %d '%s' at %d:%d", r.err, r.msg, r.line, r.col) : B(r.out ? r.out : "", r.outlen); }
static void work(const Job & j, Res * r) {
    Setup u = *S0; u.flags = j.flags; u.ctxmode = j.mode; u.pipe = j.pipe; u.nojmp = j.nojmp;
    hreq rq = req(u, j.t, X[j.x]);
    if (j.kind == PIPE) hb_render(&rq, &r->r);
    else if (j.kind == SHARED) { rq.placed = j.mod; hb_render(&rq, &r->r); }
    else if (j.kind == PARSE) hb_parse(j.t.data(), j.t.size(), j.flags, 7, &r->p);
    else an_run(&rq, 0, &r->a);
}
static B result(const Job & j, Res * r) {
    if (j.kind == PARSE) return text(r->p.tree) + "|" + text(r->p.print) + "|" + text(r->p.tree2) + "|" + text(r->p.print2) + "|" + text(r->p.tokens);
    if (j.kind == ANY) { B s; for (auto & x : r->a.r) s += text(x) + "|"; return s; }
    return text(r->r);
}
static void prepare(Job & j) { // a template's module, read-only for everyone
    if (j.kind == SHARED) {
        Setup u = *S0; u.flags = j.flags; u.pipe = HP_MODULE;
        hreq rq = req(u, j.t, X[j.x]); hres r = {};
        hb_render(&rq, &r);
        if (r.err) { fprintf(stderr, "%s: %s\n", j.t.c_str(), r.msg); exit(3); }
        size_t n = (r.outlen + 4095) & ~4095ul;
        void * at = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memcpy(at, r.out, r.outlen);
        auto * c = handlebars_context_ctor();
        if (!th_place(at, c)) { fprintf(stderr, "module\n"); exit(3); }
        handlebars_context_dtor(c);
        j.image.assign((char *) at, r.outlen);
        syscall(SYS_mprotect, at, n, PROT_READ);
        j.mod = at;
    }
}
static const B & alone(Job & j) { if (j.alone.empty()) { work(j, res[0]); j.alone = result(j, res[0]); if (j.alone.empty()) j.alone = " "; } return j.alone; }
// }}}
static void start() {
    static bool on; if (on) return; on = true;
    for (auto & r : res) r = new Res();
    sc::segment(__data_start, _end - __data_start);
    dl_iterate_phdr([](dl_phdr_info * i, size_t, void *) { // the thread-local variables of the program itself
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { auto & p = i->dlpi_phdr[k]; sc::tlsn = (p.p_memsz + p.p_align - 1) & ~(p.p_align - 1); }
        return 1;
    }, nullptr);
    sc::tls = (char *) __builtin_thread_pointer() - sc::tlsn;
    if (sc::tlsn > sizeof sc::tlss[0]) { fprintf(stderr, "thread-local variables\n"); exit(3); }
    th_points([] { sc::point(); });
    sc::path.reserve(1 << 20); sc::sched.reserve(1 << 20);
    for (auto & j : jobs) prepare(j);
}
static void together(Case & c, std::vector<int> who, int bound) {
    start();
    L want; for (int w : who) want.push_back(alone(jobs[w]));
    sc::path.clear(); sc::bound = bound; sc::fine = false; sc::steplimit = 10000000;
    do {
        std::vector<std::function<void()>> b;
        for (size_t i = 0; i < who.size(); i++) { b.push_back([=] { work(jobs[who[i]], res[i + 1]); }); memcpy(sc::tlss[i + 1], sc::tls, sc::tlsn); }
        sc::run(b);
        c.transitions(sc::steps); c.trace();
        if (sc::err.size()) { c.fail("P26", sc::err + " (schedule " + sc::sched + ")"); return; }
        if (sc::race) { c.fail("P26", fmt("two threads use the same variable (data+%s) and at least one writes it", sc::racewhat.c_str())); return; }
        uint64_t h = hash(sc::sched, 1);
        for (size_t i = 0; i < who.size(); i++) {
            B got = result(jobs[who[i]], res[i + 1]);
            if (got != want[i] && !(want[i] == " " && got.empty())) { c.fail("P26", fmt("%s gives '%s', alone '%s' (schedule %s)", show(jobs[who[i]]).c_str(), esc(got).c_str(), esc(want[i]).c_str(), sc::sched.c_str())); return; }
            h = hash(got, h);
        }
        for (auto & p : sc::path) h = hash(&p.pick, sizeof p.pick, h);
        c.state(h); c.outcome(h);
    } while (sc::next());
    for (int w : who) if (jobs[w].kind == SHARED && memcmp(jobs[w].mod, jobs[w].image.data(), sizeof(void *) * 0 + jobs[w].image.size())) { c.fail("P26", "the shared module changed"); return; }
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P26";
    m.rule = "every pair (some triples) of jobs - render, render a shared read-only module, parse and print, all stages, each with its own context - under every schedule with the listed preemptions at allocations, every access to the library's variables checked for conflicts; every template compiled, serialized and rendered again and again, every object compared; non-trivial: distinct schedules with results";
    m.parse(argc, argv);
    bool th = m.thorough();
    S0 = suite::setup(); auto & ps = S0->partials; (void) ps;
    X[0] = ctx(suite::texts()[0]); X[1] = ctx(suite::texts()[2]);
    auto pipe = [&](const B & t, unsigned long f = 0, int x = 0, int mode = HM_NATIVE, int pi = HP_DIRECT, int nojmp = 0) { jobs.push_back({PIPE, t, f, x, mode, pi, nojmp}); };
    static const L T = {"{{n}}{{{n}}}", "{{#each l as |v i|}}{{i}}{{v}}{{@index}}{{../n}}{{/each}}", "{{> p}}{{#> pb}}B{{n}}{{/pb}}", "  {{> ml}}\n", "{{rec (id n) k=(rec 1)}}{{safe n}}", "{{#if n}}{{#with a}}{{b.n}}{{/with}}{{else}}E{{/if}}", "{{#blk a}}{{n}}{{this}}{{else}}e{{/blk}}", "{{#a}}{{^zz}}{{n}}{{/zz}}{{/a}}", "{{> rc}}", "{{lookup a s}}{{unknown}}"};
    for (auto & t : T) { pipe(t); jobs.push_back({SHARED, t, 0, 0}); jobs.push_back({SHARED, t, 0, 1, HM_JSON}); }
    size_t core = jobs.size();
    pipe("{{#each l}}{{fail}}{{/each}}"); pipe("{{#if}}", 0); pipe("a\n{{b", 0, 0, HM_NATIVE, HP_DIRECT, 1); pipe("{{> none}}", 0, 0, HM_NATIVE, HP_DIRECT, 1); pipe("{{unknown 1}}"); pipe("{{zz}}", 1ul << 10); pipe("{{#a}}{{> fails}}{{/a}}");
    pipe("{{=<% %>=}}<%n%><%#a%><%n%><%/a%>", 1); pipe("{{#lt}}{{n}}{{/lt}}{{lv}}", 1ul << 12 | 1); pipe("{{l}}{{m.x.n}}", 0, 0, HM_JSON); pipe("{{#each m}}{{@key}}{{/each}}", 0, 0, HM_YAML); pipe("{{#each m}}{{@key}}{{/each}}{{l}}", 0, 1, HM_JSON_CONVERT, HP_RELOC); pipe("{{n", 0, 0, HM_YAML);
    for (auto & t : {"{{#each l as |v|}}{{~ a.b (c 'd' e=1) ~}}{{else}}x{{/each}}", "{{{{raw}}}}{{x}}{{{{/raw}}}}{{!-- c --}}\\{{n}}", "{{#a}}{{/b}}"}) jobs.push_back({PARSE, t, 0});
    for (auto & t : {"{{#each l}}{{> p a k=n}}{{/each}}", "{{* d}}{{#*inline 'i'}}x{{/inline}}{{n}}", "{{! c", "{{a.[b c].d 1.5 \"x\"}}"}) for (unsigned long f : {0ul, 0x207ul}) jobs.push_back({ANY, t, f});
    size_t n = jobs.size();
    auto shown = [](std::vector<int> w) { B r; for (int i : w) r += (r.empty() ? "" : " || ") + show(jobs[i]); return r; };
    auto pr = [=](uint64_t i) { return std::vector<int>{(int) (i / n), (int) (i % n)}; };
    m.add("pairs", n * n, [=](Case & c) { auto w = pr(c.idx); if (w[0] <= w[1]) together(c, w, 1); }, [=](uint64_t i) { return shown(pr(i)); }, 8, 60);
    size_t k = th ? 9 : 3;
    m.add("pairs-2-preemptions", k * k, [=](Case & c) { std::vector<int> w{(int) (c.idx / k), (int) (c.idx % k)}; if (w[0] <= w[1]) together(c, w, 2); }, [=](uint64_t i) { return shown({(int) (i / k), (int) (i % k)}); }, 1, 300);
    size_t q = th ? 12 : 5;
    auto tr = [=](uint64_t i) { return std::vector<int>{(int) (i / q / q), (int) (i / q % q), (int) (i % q)}; };
    m.add("triples", q * q * q, [=](Case & c) { auto w = tr(c.idx); if (w[0] <= w[1] && w[1] <= w[2]) together(c, w, 1); }, [=](uint64_t i) { return shown(tr(i)); }, 4, 60);
    L * tm = new L(suite::templates(th ? 2 : 1));
    for (auto & t : {"{{* d}}", "{{#*inline 'i'}}x{{/inline}}{{n}}", "{{#a}}{{* d 1 k=2}}{{/a}}"}) tm->push_back(t);
    static const std::vector<unsigned long> fl = {0, 1, 7, 1ul << 3 | 1ul << 8, 1ul << 4, 1ul << 9, 1ul << 10 | 1ul << 6, 0x1fff};
    m.add("again", tm->size() * fl.size(), [=](Case & c) {
        Setup u = *S0; u.flags = fl[c.idx % fl.size()]; const B & t = (*tm)[c.idx / fl.size()];
        hreq rq = req(u, t, X[0]);
        static char msg[4000];
        for (unsigned long o : {0ul, 0x1fful, 1ul << 9}) { th_reuse(&rq, o, msg, sizeof msg); c.transitions(12); if (msg[0]) { c.fail("P26", msg); return; } }
        c.outcome(t);
    }, [=](uint64_t i) { return fmt("'%s' flags %lu", esc((*tm)[i / fl.size()]).c_str(), fl[i % fl.size()]); });
    return m.go(argc, argv);
}
