#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
static hv * strv(const std::string & s, bool safe) { hv * v = (hv *) calloc(1, sizeof(hv)); v->kind = HV_STR; v->s = hval::R::dup(s); v->n = s.size(); v->safe = safe; return v; }
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P02";
    m.rule = "every string over the listed alphabet up to the listed length, interpolated in every way; every text without tags over an alphabet; every sequence of interpolations of safe and other values; non-trivial: distinct outputs, by hash";
    m.parse(argc, argv);
    Setup * s = new Setup;
    s->helpers = {{"safe", HF_SAFE}, {"id", HF_ID}, {"blk", HF_BLK}, {"lam", HF_LAMBDA}, {"arr", HF_ARR}};
    s->partials = {part("p", "[{{this}}{{{this}}}]"), part("q", "{{a}}{{x}}{{{x}}}"), part("b", "<{{> @partial-block}}>")};
    Setup * ne = new Setup(*s); ne->flags = 1u << 3; // no_escape
    // 1: every string
    static const char A[] = {'&', '<', '>', '"', '\'', '`', 'a', '\0', '\x80', ';', '=', '\n'};
    const unsigned na = sizeof A, len = m.thorough() ? 6 : 5;
    static L ways = {"{{a}}|{{{a}}}|{{&a}}", "{{#each l}}{{.}}{{/each}}{{l}}{{{l}}}", "{{id a}}{{#with a}}{{this}}{{/with}}{{#a}}{{{.}}}{{/a}}"};
    auto mkstr = [](uint64_t i) { std::string r; for (unsigned k : hx::nthseq(i, sizeof A)) r += A[k]; return r; };
    for (int w = 0; w < 3; w++) for (int fl = 0; fl < 2; fl++) {
        auto * setup = fl ? ne : s; std::string t = ways[w];
        m.add(hx::fmt("strings-%d-%d", w, fl), hx::nstrings(na, fl || w ? len - 2 : len - 1), [=](hx::Case & c) {
            std::string v = mkstr(c.idx);
            hv l{}, map{}; hv * sv = strv(v, false); hv * items[2] = {sv, sv}; l.kind = HV_ARR; l.n = 2; l.items = items;
            hv * mi[2] = {sv, &l}; const char * ks[2] = {"a", "l"}; map.kind = HV_MAP; map.n = 2; map.items = mi; map.keys = ks;
            Ctx x; x.text = "a=" + v; x.h = &map; x.v = ref::from(&map);
            one(c, "P02", *setup, t, x);
            free((void *) sv->s); free(sv);
        }, [=](uint64_t i) { return "template '" + t + "' a='" + hx::esc(mkstr(i)) + "'" + (fl ? " no_escape" : ""); }, 512);
    }
    // 2: text is copied
    static const char B[] = {'a', '{', '}', '\\', '&', '\n', ' ', '<', '\x80', '"', '\r', '~'};
    auto mktxt = [](uint64_t i) { std::string r; for (unsigned k : hx::nthseq(i, sizeof B)) r += B[k]; return r; };
    Ctx * nx = new Ctx(ctx("{n:'<v>'}"));
    for (int w = 0; w < 3; w++) {
        auto tm = [=](uint64_t i) { std::string t = mktxt(i); return w == 0 ? t : w == 1 ? t + "{{n}}" : "{{n}}" + t; };
        m.add(hx::fmt("text-%d", w), hx::nstrings(sizeof B, m.thorough() ? 5 : 4), [=](hx::Case & c) {
            std::string t = mktxt(c.idx);
            // backslashes before an opening are escapes: P09
            if (t.find("{{") != std::string::npos || (w == 1 && !t.empty() && (t.back() == '{' || t.back() == '\\')) ) { c.skip(); return; }
            one(c, "P02", *s, tm(c.idx), *nx);
        }, [=](uint64_t i) { return "template '" + hx::esc(tm(i)) + "'"; }, 512);
    }
    // 3: safe marks
    std::vector<std::string> vals = {"'<'", "~'<'", "['<',~'&']", "[~'<']", "{x:~'<',y:'<'}", "null", "7", "true", "[]", "~''", "''", "['<']", "{}", "~'0'", "$lam", "$lambda", "['<','>','&']", "[[],'\"']", "[null,'<',['<','a','>']]", "['a',~'<','<']", "[1,true,'`']", "[{},'<']"};
    std::vector<Ctx> * cx = new std::vector<Ctx>;
    for (auto & v : vals) for (auto & u : {"'<'", "~'>'", "null", "['<']", "['x','<']"}) { if (v == "$lam") continue; cx->push_back(ctx("{a:" + v + ",b:" + u + ",x:'&'}")); }
    L units = {"{{a}}", "{{{a}}}", "{{&b}}", "{{safe a}}", "{{{safe a}}}", "{{id a}}", "{{id (safe a)}}", "{{safe (id b)}}", "{{#with (safe a)}}{{this}}{{/with}}", "{{#each (safe a)}}{{this}},{{/each}}", "{{#each a}}{{this}}{{safe this}}{{this}}{{/each}}", "{{#blk (safe a)}}{{.}}{{/blk}}", "{{#blk a as |k|}}{{k}}{{{k}}}{{/blk}}", "{{lam}}", "{{{lam}}}", "{{arr}}", "{{b}}", "{{lookup a 'x'}}", "{{lookup a 0}}", "{{#a}}{{this}}{{x}}{{/a}}", "{{#if (safe a)}}{{b}}{{/if}}", "{{#with a as |k|}}{{k}}{{/with}}", "{{> p a}}", "{{> q x=a}}", "{{> q a x=(safe b)}}", "{{#> b}}{{a}}{{safe b}}{{/b}}", "{{#id a}}{{/id}}", "{{#safe a}}{{/safe}}", "{{#lam}}x{{/lam}}", "{{a.x}}{{a.y}}", "{{a.[0]}}{{a.[1]}}", "{{\"<\"}}", "{{id '<&'}}", "{{safe '<&'}}", "<&>\"'`"};
    L * t1 = new L(units);
    for (auto & a : units) for (auto & b : units) t1->push_back(a + b);
    product(m, "safe", s, t1, cx);
    L * t2 = new L(t1->begin(), m.thorough() ? t1->end() : t1->begin() + 400);
    product(m, "safe-noescape", ne, t2, cx);
    if (m.thorough()) {
        L * t3 = new L;
        for (auto & a : units) for (auto & b : units) for (auto & c : units) t3->push_back(a + b + c);
        product(m, "safe3", s, t3, cx);
    }
    return m.go(argc, argv);
}
