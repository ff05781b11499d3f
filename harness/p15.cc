#include <malloc.h>
#include "suite.hpp"
using namespace suite;
static thread_local hres A, B;
static std::string out(const hres & r) { return std::string(r.out ? r.out : "", r.outlen); }
static bool differ(const hres & a, const hres & b) { return a.err != b.err || (a.err ? strcmp(a.msg, b.msg) || a.line != b.line || a.col != b.col : out(a) != out(b)) || a.calls != b.calls; }
// built twice, the module is the same but for the time; it renders at four addresses what the template renders
static void reloc(hx::Case & c, const Setup & s, const std::string & t, const Ctx & x) {
    hreq rq = req(s, t, x);
    mallopt(M_PERTURB, 0x11);   // fresh memory has other contents in the second build
    rq.pipe = HP_MODULE; hb_render(&rq, &B); std::string m1 = out(B);
    mallopt(M_PERTURB, 0x77);
    if (B.err) { c.skip(); return; }
    rq.pipe = HP_DIRECT; hb_render(&rq, &A);
    { void * p[3]; for (auto & q : p) q = memset(malloc(4096), 0x5c, 4096); for (auto & q : p) free(q); }
    rq.pipe = HP_MODULE; hb_render(&rq, &B); std::string m2 = out(B);
    c.transitions(3);
    std::string n1 = m1, n2 = m2;
    size_t ts = 8 + 8 + 8 + 8 + 8;   // header, hash, version, address, size; then the time
    for (std::string * p : {&n1, &n2}) { p->replace(8, 8, 8, '\0'); if (p->size() > ts + 8) p->replace(ts, 8, 8, '\0'); }
    if (n1 != n2) { size_t i = 0; while (i < n1.size() && n1[i] == n2[i]) i++; c.fail("P15", fmt("two modules of the same template differ at byte %zu of %zu", i, n1.size())); return; }
    for (int i : {24, 25, 26, 27, 28, 29, 30, 31}) if (m1[i]) { c.fail("P15", "base address is not in the module"); return; }
    hreq rm = req(s, t, x); rm.mod = m1.data(); rm.modlen = m1.size(); rm.mods = 4;
    hb_render(&rm, &B); c.transitions();
    if (differ(A, B)) c.fail("P15", "module: " + showres(B) + fmt(" after %ld calls", B.calls) + "; template: " + showres(A) + fmt(" after %ld calls", A.calls));
    c.outcome(m1.substr(48));
}
// every byte altered in every listed way is recognised
static void corrupt(hx::Case & c, const std::string & mod, size_t at, int how) {
    std::string b = mod;
    unsigned char v = b[at];
    b[at] = how < 8 ? v ^ (1 << how) : how == 8 ? v + 1 : how == 9 ? 0xff - v : how == 10 ? v - 1 : ~0x5a ^ v;
    if (b[at] == (char) v) { c.skip(); return; }
    hreq rm; memset(&rm, 0, sizeof rm); rm.mod = b.data(); rm.modlen = b.size(); rm.mods = 1;
    hb_render(&rm, &B); c.transitions();
    if (!B.err || B.stage != 1) c.fail("P15", fmt("byte %zu of %zu changed from %02x to %02x: used as a valid module, %s", at, b.size(), v, (unsigned char) b[at], showres(B).c_str()));
    c.outcome(std::string(B.msg).substr(0, 16));
}
extern "C" uint64_t handlebars_module_generate_hash(struct handlebars_module *);
static const int deltas[] = {1, -1, 2, 100, -100, 10000, 1 << 20, -2147483647};
static void version(hx::Case & c, const std::string & mod) {
    char * b = (char *) malloc(mod.size()); memcpy(b, mod.data(), mod.size());
    *(int *) (b + 16) += deltas[c.idx];
    handlebars_module_generate_hash((struct handlebars_module *) b);
    hreq rm; memset(&rm, 0, sizeof rm); rm.mod = b; rm.modlen = mod.size(); rm.mods = 1;
    hb_render(&rm, &B); c.transitions();
    if (!B.err || B.stage != 1) c.fail("P15", fmt("module of version %+d used as valid: %s", deltas[c.idx], showres(B).c_str()));
    c.outcome(B.msg);
    free(b);
}
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P15";
    m.rule = "every template of the family (every construct in every block) times contexts and options: module built twice has the same bytes, and, with its source gone, renders at four addresses what the template renders; every byte of every listed module altered in every listed way is rejected; non-trivial: distinct modules, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    auto tl = new L(templates(th ? 2 : 1));
    auto cx = new std::vector<Ctx>; for (auto & t : texts()) cx->push_back(ctx(t));
    for (unsigned long f : {0ul, 1ul, 32ul, 16ul, 64ul, 128ul, 1ul << 10, 1ul << 11, 1ul << 12, 8ul}) {
        auto s = setup(f);
        if (!th && f > 1) { cx = new std::vector<Ctx>; cx->push_back(ctx(texts()[0])); }
        m.add(fmt("reloc-%lu", f), tl->size() * cx->size(), [=](hx::Case & c) { reloc(c, *s, (*tl)[c.idx / cx->size()], (*cx)[c.idx % cx->size()]); }, [=](uint64_t i) { return show(*s, (*tl)[i / cx->size()], (*cx)[i % cx->size()]); }, 64);
    }
    L some = {"", "x", "{{n}}", "{{#each l as |v w|}}{{v}}{{rec 1 a='b' c=(id n)}}{{else}}e{{> p}}{{/each}}", "  {{> ml}}\n{{#if n}}{{n}}{{else if s}}{{s}}{{/if}}", "{{#> pb}}{{@key}}{{a.b.n}}{{/pb}}{{lookup l 0}}"};
    for (unsigned k = 0; k < some.size(); k++) {
        auto s = setup();
        hreq rq = req(*s, some[k], ctx("{}")); rq.pipe = HP_MODULE;
        static hres R; hb_render(&rq, &R);
        auto mod = new std::string(out(R));
        auto t = new std::string(some[k]);
        m.add(fmt("corrupt-%u", k), mod->size() * 12, [=](hx::Case & c) { corrupt(c, *mod, c.idx / 12, c.idx % 12); }, [=](uint64_t i) { return fmt("module of '%s', byte %zu, alteration %u", hx::esc(*t).c_str(), (size_t) i / 12, (unsigned) i % 12); }, 256);
        m.add(fmt("version-%u", k), 8, [=](hx::Case & c) { version(c, *mod); }, [=](uint64_t i) { return fmt("module of '%s' with a consistent hash, version changed by %d", hx::esc(*t).c_str(), deltas[i]); });
    }
    return m.go(argc, argv);
}
