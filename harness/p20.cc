// P20: every allocation of every operation fails in turn
#include "suite.hpp"
#include "oomshim.h"
using namespace hx; using namespace lang;
typedef std::string B;
static ores RES;
struct Job { B name; oreq q; Setup * s; Ctx x; long calls = 0; hres gold, goldafter, goldbefore; };
static std::vector<Job *> jobs; static B dir;
static void cpy(hres & d, const hres & s) { d = s; d.out = (char *) malloc(s.outlen + 1); memcpy(d.out, s.out, s.outlen); d.out[s.outlen] = 0; }
static void grow(hres & h) { h.out = (char *) realloc(h.out, h.outcap = 1 << 16); }
static bool same(const hres & a, const hres & b) { return a.err == b.err && (a.err || (a.outlen == b.outlen && !memcmp(a.out, b.out, a.outlen))); }
static B text(const hres & r) { return r.err ? fmt("error %d '%s'", r.err, r.msg) : "'" + esc(B(r.out ? r.out : "", r.outlen)).substr(0, 400) + "'"; }
static bool memerr(const hres & r) { return r.err == 2 /* HANDLEBARS_NOMEM */ || (r.err && strstr(r.msg, "Cannot allocate memory")); /* ... or one of the system */ }
static void wipe(const oreq & q) { if (q.kind == OK_OP && q.backend == 2) { unlink((dir + fmt("/db.%d", getpid())).c_str()); unlink((dir + fmt("/db.%d-lock", getpid())).c_str()); } }
static oreq target(const Job & j) {
    oreq q = j.q;
    if (q.kind != OK_OP) { hreq r = req(*j.s, j.name, j.x); if (j.s->ctxmode != HM_NATIVE) { r.ctxtext = j.x.text.c_str(); r.ctxlen = j.x.text.size(); } q.rq = r; }
    static char p[256]; snprintf(p, sizeof p, "%s/db.%d", dir.c_str(), getpid());
    q.dir = q.backend == 2 ? p : strdup(dir.c_str());
    return q;
}
static const char * kinds[] = {"whole pipeline", "parse alone", "compile alone", "execute alone", "execute alone under a handler", "lex and print", "operation"};
static void one(Case & c, Job & j, int mode, long at, long at2) {
    oreq q = target(j);
    if (!RES.first.out) { for (hres * h : {&RES.first, &RES.again, &RES.before, &RES.after}) { grow(*h); } oo_run(&q, 0, 0, 0, &RES); wipe(q); oo_run(&q, 0, 0, 0, &RES); wipe(q); }
    oo_run(&q, mode, at, at2, &RES);
    wipe(q);
    c.transitions(); c.count(0, RES.calls);
    c.outcome(j.name + fmt("%d", j.q.kind) + text(RES.first));
    B e;
    if (RES.first.err == -3) e = "cannot be prepared: " + text(RES.first);
    else if (!same(RES.first, j.gold) && !(memerr(RES.first) && RES.failed)) e = "gave " + text(RES.first) + " instead of " + text(j.gold);
    else if (RES.first.err && !same(RES.again, j.gold)) e = fmt("the same operation afterwards gave %s instead of %s (first: %s)", text(RES.again).c_str(), text(j.gold).c_str(), text(RES.first).c_str());
    else if (j.q.kind == OK_OP && RES.after.err) e = text(RES.after);
    else if (j.q.kind == OK_OP && !same(RES.after, RES.first.err && !j.gold.err ? j.goldbefore : j.goldafter) && !same(RES.after, j.goldafter)) e = "objects are left as " + text(RES.after) + ", before " + text(j.goldbefore) + ", without failure after " + text(j.goldafter);
    else if (RES.leak && !(q.kind == OK_OP && q.backend == 2)) e = fmt("%ld bytes remain after the context is gone", RES.leak);
    if (e.size()) c.fail("P20", e + fmt(" (%ld allocations, %ld failed)", RES.calls, RES.failed));
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P20";
    m.rule = "every allocation of every operation fails, alone or with all later ones; result, state of the objects, a repetition of the operation and the memory left are compared with those of the undisturbed operation; non-trivial: distinct outcomes";
    m.parse(argc, argv);
    bool th = m.thorough();
    dir = B(access("/dev/shm", W_OK) ? "/tmp" : "/dev/shm") + fmt("/hbsp20.%d", getpid()); mkdir(dir.c_str(), 0700);
    for (const char * n : {"/p.hbs", "/p2.hbs"}) { FILE * f = fopen((dir + n).c_str(), "w"); fprintf(f, "file %s", n); fclose(f); }
    auto job = [&](int kind, B t, Setup * s, B ctx_, int mode = HM_NATIVE) { Job * j = new Job; j->q = oreq(); j->q.kind = kind; j->name = t; j->s = new Setup(*s); j->s->ctxmode = mode; if (mode == HM_NATIVE) j->x = ctx(ctx_); else j->x.text = ctx_; jobs.push_back(j); };
    for (int i = 0; i < oo_count(); i++) for (int b = 0; b < (B(oo_name(i)).substr(0, 5) == "cache" ? 3 : 1); b++) { Job * j = new Job; j->q = oreq(); j->q.kind = OK_OP; j->q.op = i; j->q.backend = b; j->name = B(oo_name(i)) + (b == 1 ? " (mmap)" : b == 2 ? " (lmdb)" : ""); j->s = nullptr; jobs.push_back(j); }
    // {{{ templates: every construct, under the settings that change how it is processed
    enum { COMPAT = 1, KHO = 16, USED = 64, EXPL = 128, STRICT = 1 << 10, ASSUME = 1 << 11, MUST = 1 << 12 };
    B C0 = suite::texts()[0];
    static std::vector<B> ts = {"x{{a.n}}y", "{{{n}}}{{&n}}{{../n}}{{@root.n}}", "{{rec (id n) (rec l.[0] k=(id 'q')) u=undefined v=null}}", "{{#each l}}{{.}}{{@index}}{{@last}}{{else}}none{{/each}}", "{{#each m as |v k|}}{{v.n}}{{k}}{{/each}}", "{{#with a as |v|}}{{v.n}}{{/with}}", "{{#if zz}}1{{else if n}}2{{else}}3{{/if}}",
        "{{> p}} {{> p a}} {{> p n='H'}}", "  {{> ml}}\n", "{{#> pb}}B{{n}}{{/pb}}", "{{#> none}}D{{n}}{{/none}}", "{{> pp}}", "{{> rc}}", "{{> (lookup . 's')}}", "{{> none}}", "{{! c }}\\{{n}}{{~n~}} ", "{{fail}}", "{{unknown 1}}", "{{{{raw}}}}{{n}} {{{{/raw}}}}", "{{#blk a}}b{{n}}{{else}}e{{/blk}}{{#blk2}}2{{else}}E{{/blk2}}", "{{#a}}{{n}}{{/a}}{{^zz}}inv{{/zz}}{{#l}}{{this}}{{/l}}", "{{lookup a 'n'}}{{safe n}}{{arr}}{{f}}{{o.f 1}}", "{{#a}", "{{#a}}{{/b}}", "{{> bad}}", "{{log n}}", "a\n {{#if n}}\n b\n {{/if}}\nc", "{{\"n\"}}{{12}}{{true}}{{[x y]}}", "{{#unless zz}}{{#each l}}{{#with ../a}}{{n}}{{../this}}{{/with}}{{/each}}{{/unless}}"};
    std::vector<B> ts2 = ts;
    if (th) for (auto & t : suite::templates(1)) ts2.push_back(t);
    auto * su = suite::setup(); su->partials.push_back(part("bad", "{{#x}}"));
    for (auto & t : ts2) { for (int k : {OK_RENDER, OK_EXEC}) job(k, t, su, C0); }
    for (auto & t : ts) for (int k : {OK_PARSE, OK_COMPILE, OK_EXECJ, OK_PRINT}) job(k, t, su, C0);
    for (unsigned long f : {(unsigned long) COMPAT, (unsigned long) STRICT, (unsigned long) ASSUME, (unsigned long) KHO, (unsigned long) EXPL, (unsigned long) COMPAT | MUST}) { auto * s = suite::setup(f); for (auto & t : ts) if ((th || f == COMPAT || (&t - &ts[0]) % 3 == 0) && !((f & COMPAT) && t == "{{> rc}}" /* 40000 allocations until the depth is exceeded */)) job(OK_RENDER, t, s, C0); }
    { auto * s = suite::setup(COMPAT | MUST); s->partials.push_back(part("dl", "{{=<% %>=}}<%n%>")); for (B t : {"{{=<% %>=}}<%n%><%#a%>x<%/a%><%> dl%>", " {{> ml}}\n", "{{#lt}}{{n}}{{/lt}}{{lv}}"}) for (int k : {OK_RENDER, OK_EXEC}) job(k, t, s, "{n:1,a:{n:2},lt:$lamtmpl,lv:$lamval}"); }
    { auto * s = suite::setup(KHO); s->known = {"rec", "id"}; job(OK_RENDER, "{{rec 1}}{{id n}}", s, C0); }
    { auto * s = suite::setup(); s->data = J("{v:{n:1}}"); job(OK_RENDER, "{{@v.n}}", s, C0); }
    const char * js = "{\"n\":\"N<&>\",\"a\":{\"n\":\"AN\"},\"l\":[1,\"two\",null,[2,3]],\"m\":{\"x\":{\"n\":\"mx\"},\"y\":7.5}}";
    for (int mode : {HM_JSON, HM_JSON_CONVERT, HM_YAML}) for (B t : {"{{n}}{{a.n}}{{l.[1]}}{{l}}", "{{#each l}}{{.}},{{/each}}{{#each m}}{{@key}}{{n}}{{/each}}", "{{#a}}{{n}}{{/a}}{{#with m.x as |q|}}{{q.n}}{{/with}}{{#l}}{{this}}{{/l}}", "{{> p a}}{{> p l}}{{> p a n=1}}"}) for (int k : {OK_RENDER, OK_EXEC}) job(k, t, su, js, mode);
    // }}}
    // undisturbed runs
    for (hres * h : {&RES.first, &RES.again, &RES.before, &RES.after}) grow(*h);
    uint64_t total = 0, pairs = 0; static std::vector<uint64_t> off, poff; static std::vector<Job *> pj;
    for (auto * j : jobs) {
        oreq q = target(*j); RES.again.err = 0;
        oo_run(&q, OOM_ONE, 0, 0, &RES); wipe(q);
        j->calls = RES.calls; cpy(j->gold, RES.first); cpy(j->goldafter, RES.after); cpy(j->goldbefore, RES.before);
        if (getenv("P20_LIST")) printf("%-14s %5ld  %s -> %s\n", kinds[j->q.kind], j->calls, j->name.c_str(), text(j->gold).c_str());
        off.push_back(total); total += j->calls * 2 + 1;
        if (j->calls && j->calls <= (th ? 120 : 30)) { poff.push_back(pairs); pj.push_back(j); pairs += j->calls * j->calls; }
    }
    static auto find = [](const std::vector<uint64_t> & o, uint64_t i) { return (size_t) (std::upper_bound(o.begin(), o.end(), i) - o.begin()) - 1; };
    auto show = [=](const Job & j) { return fmt("%s: %s%s", kinds[j.q.kind], esc(j.name).c_str(), j.s && j.s->flags ? fmt(" flags %lu", j.s->flags).c_str() : "") + (j.s && j.s->ctxmode != HM_NATIVE ? fmt(" data %d", j.s->ctxmode) : ""); };
    m.add("one-and-all-later", total, [=](Case & c) { size_t k = find(off, c.idx); uint64_t n = c.idx - off[k]; one(c, *jobs[k], n % 2 ? OOM_FROM : OOM_ONE, n == (uint64_t) jobs[k]->calls * 2 ? 0 : n / 2 + 1, 0); },
        [=](uint64_t i) { size_t k = find(off, i); uint64_t n = i - off[k]; return show(*jobs[k]) + (n == (uint64_t) jobs[k]->calls * 2 ? B(", none fails") : fmt(", allocation %lu%s fails", (unsigned long) (n / 2 + 1), n % 2 ? " and all later ones" : "")); }, 64);
    m.add("two", pairs, [=](Case & c) { size_t k = find(poff, c.idx); uint64_t n = c.idx - poff[k]; long a = n / pj[k]->calls + 1, b = n % pj[k]->calls + 1; if (b <= a) { c.skip(); return; } one(c, *pj[k], OOM_TWO, a, b); },
        [=](uint64_t i) { size_t k = find(poff, i); uint64_t n = i - poff[k]; return show(*pj[k]) + fmt(", allocations %lu and %lu fail", (unsigned long) (n / pj[k]->calls + 1), (unsigned long) (n % pj[k]->calls + 1)); }, 64);
    int r = m.go(argc, argv);
    if (dir.size() > 8) { std::string cmd = "rm -rf '" + dir + "'"; if (system(cmd.c_str())) {} }
    return r;
}
