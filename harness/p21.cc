// P21: after any failure the same context and renderer behave as if it had not happened
#include "suite.hpp"
#include "seqshim.h"
using namespace hx; using namespace lang;
typedef std::string B;
struct Op { B t; Ctx * x; unsigned long f; hres gold[2]; bool rerun = false; };
static hres RR; static char bad[512];
static void cpy(hres & d, const hres & s) { d = s; d.out = (char *) malloc(s.outlen + 1); memcpy(d.out, s.out, s.outlen + 1); d.outcap = s.outlen + 1; }
static B str(const hres & r) { return r.err ? fmt("error %d '%s' at %d:%d, %ld calls", r.err, esc(r.msg).substr(0, 300).c_str(), r.line, r.col, r.calls) : "'" + esc(B(r.out, r.outlen)).substr(0, 300) + fmt("', %ld calls", r.calls); }
static bool same(const hres & a, const hres & b) { return a.err == b.err && a.calls == b.calls && (a.err ? !strcmp(a.msg, b.msg) && a.line == b.line && a.col == b.col : a.outlen == b.outlen && !memcmp(a.out, b.out, a.outlen)); }
static Setup base;
static hreq rq(const Op & o) { hreq r = req(base, o.t, *o.x); r.flags = o.f; if (o.rerun) r.tmpl = nullptr; return r; }
static void gold(Op & o) {
    for (int how : {SQ_RET, SQ_JMP}) { hreq r = rq(o); sq_open(&r, SC_NONE); sq_step(&r, how, &RR, bad, sizeof bad); sq_close(); cpy(o.gold[how], RR); }
}
static bool step(Case & c, const Op & o, int how, const char * when) {
    hreq r = rq(o);
    sq_step(&r, how, &RR, bad, sizeof bad);
    c.transitions();
    if (bad[0]) { c.fail("P21", fmt("%s: '%s': %s (%s)", when, esc(o.t).c_str(), bad, str(RR).c_str())); return false; }
    if (!same(RR, o.gold[how])) { c.fail("P21", fmt("%s: '%s' gave %s; alone %s", when, esc(o.t).c_str(), str(RR).c_str(), str(o.gold[how]).c_str())); return false; }
    return true;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P21";
    m.rule = "sequences of successful and failing calls on one context and renderer; every result - output or error number, message and position - is that of the call made alone, the caller's handler is back in place and no cached template stays held; non-trivial: sequences with a failure that is followed by a rendering";
    m.parse(argc, argv);
    bool th = m.thorough();
    enum { COMPAT = 1, KHO = 16, STRICT = 1 << 10, ASSUME = 1 << 11, MUST = 1 << 12 };
    base = *suite::setup(); Setup * su = suite::setup();
    for (auto * s : {&base, su}) {
        for (auto p : {part("bad", "{{#x}}"), part("bad2", "a\n{{#x}}\n{{/y}}"), part("pf", "a{{fail}}b"), part("pfd", "{{#with a}}{{#each ../l as |q|}}{{> pf}}{{/each}}{{/with}}"), part("deep", "{{#if n}}{{> deep}}{{/if}}"), part("pd", "{{#> pb}}{{> @partial-block}}{{fail}}{{/pb}}"), part("dl", "{{=<% %>=}}<%n%><% fail %>"), part("down", "{{#if d}}{{n}}{{#with d}}{{> down}}{{/with}}{{/if}}")}) s->partials.push_back(p);
        s->helpers.push_back({"err", HF_ERRARG});
    }
    static std::vector<Ctx> xs; for (auto & t : suite::texts()) xs.push_back(ctx(t));
    // data nested below the limit of recursion
    B nest = "{n:'z'}"; for (int i = 0; i < 40; i++) nest = fmt("{n:%d,d:", i) + nest + "}";
    static Ctx deepx = ctx(nest), lam = ctx("{n:1,a:{n:2},lt:$lamtmpl,lv:$lamval,bad:'{{#x}}',zz:'z'}");
    std::vector<B> fails = {"{{fail}}", "{{rec (fail)}}", "{{rec k=(fail) j=1}}", "{{rec n (id (fail))}}", "{{unknown 1}}", "{{> none}}", "{{> bad}}", "{{> bad2}}", "{{> pf}}", "{{> pfd}}", "{{#> none}}{{fail}}{{/none}}", "{{> (lookup . 'zz')}}", "{{> deep}}", "{{#> pb}}{{fail}}{{/pb}}", "{{> pd}}", "{{#> pp}}{{> pd}}{{/pp}}", "{{err n}}", "{{err 'a %s %n %d'}}", "{{#blk a}}{{fail}}{{/blk}}", "{{#each l as |q i|}}{{q}}{{fail}}{{/each}}", "{{#with a as |q|}}{{#if q}}{{unknown q}}{{/if}}{{/with}}", "{{#blk2}}x{{else}}{{fail}}{{/blk2}}", "{{id (unknown 2)}}", "{{f.g.h 1}}{{> (fail)}}", "{{#each m}}{{@key}}{{#each ../l}}{{> pf k=@index}}{{/each}}{{/each}}", "{{#if (fail)}}{{/if}}", "{{lookup}}", "{{#each}}{{/each}}", "{{log (fail)}}"};
    std::vector<B> syntax = {"{{#a}", "{{#a}}{{/b}}", "{{/a}}", "{{#a}}x", "{{", "a\nb{{> x y z}}", "{{#each l}}\n{{else}}{{/if}}", "{{{n}}", "{{!-- x", "\xff{{\xff}}", "{{a..b}}", "{{#if}}{{else}}{{else}}{{/if}}", "{{{{raw}}}}x", "{{#a as |}}{{/a}}", "{{n 'x}}"};
    B many = "{{n}}"; for (int i = 0; i < 140; i++) many = "{{#if n}}" + many + "{{/if}}";
    B manyp = "{{n}}"; for (int i = 0; i < 140; i++) manyp = "{{#with . as |b|}}" + manyp + "{{/with}}";
    static std::vector<Op *> probes, ops, some;
    auto op = [&](B t, Ctx * x, unsigned long f = 0) { Op * o = new Op{t, x, f, {}}; gold(*o); return o; };
    B P0 = "{{n}}|{{@index}}{{@key}}|{{../n}}|{{v}}|{{#each l}}{{.}}{{@index}}{{/each}}{{#each m}}{{@key}}{{/each}}{{#with a as |v|}}{{v.n}}{{../n}}{{/with}}{{> p}}{{#> pb}}B{{n}}{{/pb}}{{rec 1 k=2}}{{> @partial-block}}";
    // {{> @partial-block}} outside of a partial fails by itself; a probe without it, with each kind of state, and one that needs the whole depth
    probes = {op(P0.substr(0, P0.rfind("{{> @")), &xs[0]), op("{{> down}}", &deepx), op("{{> @partial-block}}", &xs[0]), op("{{#lt}}{{n}}{{/lt}}{{lv}}{{n}}{{> p}} {{> ml}}\n", &lam, COMPAT | MUST)};
    // {{{ one failure at any depth, then a rendering
    static std::vector<B> f1, f2; std::vector<B> all = fails; all.insert(all.end(), syntax.begin(), syntax.end());
    auto & bl = suite::blocks();
    for (auto & f : all) for (auto & b : bl) f1.push_back(suite::put(b, f));
    for (auto & f : all) for (auto & b : bl) for (auto & d : bl) if (b != "$B" && d != "$B") f2.push_back(suite::put(b, suite::put(d, f)));
    if (th) for (auto & f : fails) for (auto & b : bl) for (auto & d : bl) for (auto & e : bl) if (b != "$B" && d != "$B" && e != "$B") f2.push_back(suite::put(b, suite::put(d, suite::put(e, f))));
    // mod: handlers and caches each template is combined with; 1: one combination, another one for each template
    auto after = [&](const char * name, std::vector<B> * l, int mod) { auto pick = [=](uint64_t i, int & how, int & cache) -> const B & { uint64_t k = i / mod; int v = mod == 6 ? i % 6 : k % 6; how = v % 2; cache = v / 2; return (*l)[k]; };
    m.add(name, l->size() * mod, [=](Case & c) {
        int how, cache; const B & t = pick(c.idx, how, cache);
        Op o{t, &xs[0], 0, {}};
        // the failure itself: as defined
        hreq r0 = rq(o);
        if (t.find("> deep") == B::npos && cache == SC_NONE) { hreq rd = r0; ref::Out d; try { d = ref::render(rd, xs[0].v); } catch (std::exception & e) { c.fail("P21", B("model: ") + e.what()); return; } if (d.err && d.stage == 3) { c.skip(); return; } hb_render(&rd, &RR); if (!compare(c, "P21", RR, d)) return; }
        sq_open(&r0, cache);
        sq_step(&r0, how, &RR, bad, sizeof bad); c.transitions();
        if (bad[0]) { c.fail("P21", fmt("%s (%s)", bad, str(RR).c_str())); sq_close(); return; }
        hres first; cpy(first, RR);
        bool ok = true;
        for (size_t i = 0; ok && i < probes.size(); i++) ok = step(c, *probes[i], (how + i) % 2, "afterwards");
        if (ok) { sq_step(&r0, how, &RR, bad, sizeof bad); c.transitions(); if (!same(RR, first)) c.fail("P21", "again: " + str(RR) + "; first: " + str(first)); c.outcome(str(first)); }
        free(first.out);
        sq_close();
    }, [=](uint64_t i) { int how, cache; const B & t = pick(i, how, cache); return fmt("%s, %s, '%s'", how ? "under a handler" : "without a handler", !cache ? "no cache" : cache == 1 ? "simple cache" : "shared cache", esc(t).c_str()); }, 32); };
    after("failure-in-a-block", &f1, 6); after("failure-in-nested-blocks", &f2, th ? 6 : 1);
    // }}}
    // {{{ sequences
    for (auto & f : fails) ops.push_back(op(f, &xs[0]));
    for (auto & f : syntax) ops.push_back(op(f, &xs[0]));
    for (auto & t : suite::pieces()) ops.push_back(op("<" + t + ">", &xs[1]));
    for (auto & p : probes) ops.push_back(p);
    for (B t : {"{{zz}}", "{{#if n}}{{a.zz.y}}{{/if}}", "{{> p}}{{> pf}}", "{{#each l}}{{zz}}{{/each}}"}) for (unsigned long f : {(unsigned long) STRICT, (unsigned long) ASSUME}) ops.push_back(op(t, &xs[0], f));
    for (B t : {"{{unknown 1}}", "{{#unknown}}{{/unknown}}", "{{rec 1}}"}) ops.push_back(op(t, &xs[0], KHO));
    for (B t : {"{{=<% %>=}}<%#a%><%n%><%fail%><%/a%>", "{{=<% %>=}}<%n%>{{n}}", "{{> dl}}", "{{#a}}{{zz}}{{fail}}{{/a}}", "{{#lt}}{{fail}}{{/lt}}", "{{#lt}}{{#x}}{{/lt}}", "{{=<% %>=}}<%#lt%><%> dl%><%/lt%>", " {{> ml}}\n", " {{> bad}}\n"}) ops.push_back(op(t, &lam, COMPAT | MUST));
    ops.push_back(op(many, &xs[0])); ops.push_back(op(manyp, &xs[0]));
    { Op * o = new Op{"", &xs[0], 0, {}}; o->t = ""; ops.push_back(o); gold(*o); }
    // the ones used for longer sequences: one of each kind of failure and of state
    for (auto * o : ops) { static const std::vector<B> pick = {"{{fail}}", "{{rec (fail)}}", "{{> none}}", "{{> bad}}", "{{> pfd}}", "{{> deep}}", "{{#> pb}}{{fail}}{{/pb}}", "{{#each l as |q i|}}{{q}}{{fail}}{{/each}}", "{{#a}}{{/b}}", "{{{{raw}}}}x", "{{unknown 1}}", "<{{> @partial-block}}>", "<{{#> pb}}B{{n}}{{/pb}}>", "{{=<% %>=}}<%#a%><%n%><%fail%><%/a%>", "{{#lt}}{{fail}}{{/lt}}", "{{#each l}}{{zz}}{{/each}}", "<{{#each l}}{{.}},{{else}}none{{/each}}>", "{{err 'a %s %n %d'}}"}; for (auto & p : pick) if (o->t == p) { some.push_back(o); break; } }
    for (auto * o : probes) some.push_back(o);
    auto seq = [&](const char * name, std::vector<Op *> * l, int n, int caches) {
        uint64_t total = ipow(l->size(), n) * 2 * caches;
        m.add(name, total, [=](Case & c) {
            uint64_t i = c.idx; int how = i % 2; i /= 2; int cache = i % caches; i /= caches;
            hreq r0 = rq(*(*l)[0]); r0.flags = 0;
            sq_open(&r0, cache);
            B t; bool f = false, g = false;
            for (int k = 0; k < n; k++) { Op & o = *(*l)[i % l->size()]; i /= l->size(); if (!step(c, o, how == 0 ? SQ_RET : k % 2, fmt("call %d", k + 1).c_str())) break; if (o.gold[0].err) f = true; else if (f) g = true; }
            if (g) c.outcome(fmt("%lu", (unsigned long) c.idx));
            sq_close();
        }, [=](uint64_t i) { B r = i % 2 ? "with and without a handler in turn" : "without a handler"; i /= 2; r += fmt(", cache %d:", (int) (i % caches)); i /= caches; for (int k = 0; k < n; k++) { Op & o = *(*l)[i % l->size()]; i /= l->size(); r += " '" + esc(o.t).substr(0, 200) + "'" + (o.f ? fmt(" (flags %lu)", o.f) : ""); } return r; }, 64);
    };
    seq("two-calls", &ops, 2, 3);
    seq("three-calls", &some, 3, th ? 3 : 1);
    if (th) { seq("three-calls-of-all", &ops, 3, 1); seq("four-calls", &some, 4, 1); }
    // }}}
    return m.go(argc, argv);
}
