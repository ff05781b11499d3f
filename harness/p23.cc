// P23: every nesting depth works or is an error
#include "lang.hpp"
using namespace hx; using namespace lang; using B = std::string; typedef std::vector<B> L;
static B rep(const B & s, unsigned n) { B r; r.reserve(s.size() * n); while (n--) r += s; return r; }
static hv * mk(int k, unsigned n = 0) { hv * v = (hv *) calloc(1, sizeof(hv)); v->kind = k; if (k == HV_ARR || k == HV_MAP) { v->n = n; v->items = (hv **) calloc(n + 1, sizeof(hv *)); if (k == HV_MAP) v->keys = (const char **) calloc(n + 1, sizeof(char *)); } return v; }
static hv * mstr(const char * s) { hv * v = mk(HV_STR); v->s = s; v->n = strlen(s); return v; }
static void freehv(hv * v) { // no recursion: these are deep
    std::vector<hv *> q{v};
    while (q.size()) { hv * x = q.back(); q.pop_back(); if (x->kind == HV_ARR || x->kind == HV_MAP) { for (size_t i = 0; i < x->n; i++) q.push_back(x->items[i]); free(x->items); free(x->keys); } free(x); }
}
// data nested d times: {a:{a:..{n:'N'}}}, or [[..['N']]], always with n and l
static thread_local bool toodeep; // destroying data built by the caller takes stack
static hv * maps(unsigned d) { if (d > 3000) { toodeep = true; d = 0; } hv * in = nullptr; for (unsigned i = 0; i <= d; i++) { hv * m = mk(HV_MAP, in ? 2 : 1); m->keys[0] = "n"; m->items[0] = mstr("N"); if (in) { m->keys[1] = "a"; m->items[1] = in; } in = m; } return in; }
static hv * arrs(unsigned d) { if (d > 3000) { toodeep = true; d = 0; } hv * in = mstr("N"); for (unsigned i = 0; i < d; i++) { hv * m = mk(HV_ARR, 1); m->items[0] = in; in = m; } return in; }
static hv * one(const char * k, hv * v) { hv * m = mk(HV_MAP, 3); m->keys[0] = "n"; m->items[0] = mstr("N"); m->keys[1] = "one"; m->items[1] = arrs(1); m->keys[2] = k; m->items[2] = v; return m; }
struct Part { B name, text; };
struct Job { B t, want; hv * ctx = nullptr; std::vector<Part> parts; bool any = false; /* an error at every depth over 0 */ };
struct Form { const char * name; unsigned min /* up to here it must work */, max; std::function<Job(unsigned)> make; unsigned long flags = 0; };
static std::vector<Form> forms;
static void F(const char * n, unsigned min, unsigned max, std::function<Job(unsigned)> f, unsigned long fl = 0) { forms.push_back({n, min, max, f, fl}); }
static Job wrap(const B & open, const B & close, unsigned d, const B & in = "x", const B & want = "x") { Job j; j.t = rep(open, d) + in + rep(close, d); j.want = want; return j; }
struct Wrap { const char * open, * close, * before, * after; };
static const Wrap wraps[] = {
    {"{{#if @root.n}}", "{{/if}}", "", ""}, {"{{#unless @root.zz}}", "{{/unless}}", "", ""}, {"{{#each @root.one}}", "{{/each}}", "", ""}, {"{{#with @root.o}}", "{{/with}}", "", ""}, {"{{#@root.n}}", "{{/@root.n}}", "", ""}, {"{{^@root.zz}}", "{{/@root.zz}}", "", ""},
    {"{{#with @root.o as |v|}}", "{{/with}}", "", ""}, {"{{#each @root.one as |v w|}}", "{{/each}}", "", ""}, {"{{#blk @root.o}}", "{{/blk}}", "", ""}, {"{{#> b}}", "{{/b}}", "<", ">"}, {"{{#> none}}", "{{/none}}", "", ""}, {"{{#> b @root.o n=1}}", "{{/b}}", "<", ">"}, {"{{#if @root.zz}}no{{else}}", "{{/if}}", "", ""},
    {"{{#if (id @root.n)}}", "{{/if}}", "", ""}, {"{{#blk2}}", "{{else}}E{{/blk2}}", nullptr, nullptr},
};
static thread_local hres R, RT;
int main(int argc, char ** argv) {
    Main m;
    m.prop = "P23";
    m.rule = "each nesting form, and each ordered pair of block forms alternating, at every depth from 0 to the listed one and at depths far beyond, under every listed mode; non-trivial: distinct results, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    const unsigned FAR = 1u << 30, NOCOMPAT = FAR + 1; // what is missing at the innermost level is found further out then
    auto P = [](const char * n, const B & t) { return Part{n, t}; };
    for (auto & w : wraps) if (w.before) { Wrap x = w; F(strdup((B("wrap ") + w.open).c_str()), 0, FAR, [=](unsigned d) { Job j = wrap(x.open, x.close, d); j.want = rep(x.before, d) + "x" + rep(x.after, d); j.parts = {P("b", "<{{> @partial-block}}>")}; return j; }); }
    F("if this", 0, FAR, [](unsigned d) { return wrap("{{#if n}}", "{{/if}}", d); });
    F("lines", 0, FAR, [](unsigned d) { return wrap("{{#if n}}\n", "{{/if}}\n", d, "x\n", "x\n"); });
    F("trimmed", 0, FAR, [](unsigned d) { return wrap(" {{~#if n~}} ", " {{~/if~}} ", d, "x", "x"); });
    F("with a", 0, FAR, [](unsigned d) { Job j = wrap("{{#with a}}", "{{/with}}", d, "{{n}}", "N"); j.ctx = maps(d); return j; });
    F("#a", 0, FAR, [](unsigned d) { Job j = wrap("{{#a}}", "{{/a}}", d, "{{n}}", "N"); j.ctx = maps(d); return j; });
    F("with a, up again", 0, FAR, [](unsigned d) { Job j = wrap("{{#with a}}", "{{/with}}", d, "{{" + rep("../", d) + "n}}", "N"); j.ctx = maps(d); return j; });
    F("with a, up too far", 0, FAR, [](unsigned d) { Job j = wrap("{{#with a}}", "{{/with}}", d, "[{{" + rep("../", d + 1) + "n}}]", "[]"); j.ctx = maps(d); return j; });
    F("up from the root", 0, FAR, [](unsigned d) { Job j; j.t = "[{{" + rep("../", d) + "n}}]"; j.want = d ? "[]" : "[N]"; return j; });
    F("each", 0, FAR, [](unsigned d) { Job j = wrap("{{#each l}}{{#each .}}", "{{/each}}{{/each}}", d ? 1 : 0); j.t = rep("{{#each " + B("this") + "}}", d) + "{{this}}" + rep("{{/each}}", d); j.want = "N"; j.ctx = arrs(d); return j; });
    F("each with block params", 0, FAR, [](unsigned d) { Job j = wrap("{{#each one as |v k|}}{{#with @root as |o|}}", "{{/with}}{{/each}}", d, "{{v}}{{k}}{{o.n}}", d ? "N0N" : "N"); return j; });
    F("block params of each level", 0, 2000, [](unsigned d) { Job j; for (unsigned i = 0; i < d; i++) j.t += fmt("{{#with @root as |v%u|}}", i); for (unsigned i = 0; i < d; i++) { j.t += fmt("{{v%u.n}}", i); j.want += "N"; } j.t += rep("{{/with}}", d); return j; });
    F("else in else", 0, FAR, [](unsigned d) { return wrap("{{#if zz}}no{{else}}", "{{/if}}", d); });
    F("else if", 0, FAR, [](unsigned d) { Job j; j.t = "{{#if zz}}no" + rep("{{else if zz}}no", d) + "{{else}}x{{/if}}"; j.want = "x"; return j; });
    F("else if, last true", 0, FAR, [](unsigned d) { Job j; j.t = "{{#if zz}}no" + rep("{{else if zz}}no", d) + "{{else if n}}x{{else}}no{{/if}}"; j.want = "x"; return j; });
    F("else if, first true", 0, FAR, [](unsigned d) { Job j; j.t = "{{#if n}}x" + rep("{{else if zz}}no", d) + "{{/if}}"; j.want = "x"; return j; });
    F("else with block params", 0, FAR, [](unsigned d) { Job j; j.t = "{{#if zz}}no" + rep("{{else with zz as |v|}}no", d) + "{{else}}x{{/if}}"; j.want = "x"; return j; });
    F("inverse", 0, FAR, [](unsigned d) { return wrap("{{^zz}}", "{{/zz}}", d); });
    F("twice", 0, 10, [](unsigned d) { return wrap("{{#blk2}}", "{{else}}E{{/blk2}}", d, "x", rep("x", 1u << std::min(d, 10u)) /* and the else blocks */); });
    forms.pop_back();
    F("subexpressions", 0, FAR, [](unsigned d) { Job j; j.t = "{{id " + rep("(id ", d) + "n" + rep(")", d) + "}}"; j.want = "N"; return j; });
    F("subexpressions in hashes", 0, FAR, [](unsigned d) { Job j; j.t = "{{id n k=" + rep("(id n k=", d) + "n" + rep(")", d) + "}}"; j.want = "N"; return j; });
    F("subexpressions after arguments", 0, FAR, [](unsigned d) { Job j; j.t = "{{id n 1 " + rep("(id 2 3 4 ", d) + "n" + rep(")", d) + "}}"; j.want = "N"; return j; });
    F("subexpressions of a block", 0, FAR, [](unsigned d) { Job j; j.t = "{{#if " + rep("(id ", d) + "n" + rep(")", d) + "}}x{{/if}}"; j.want = "x"; return j; });
    F("subexpressions of a partial", 0, FAR, [=](unsigned d) { Job j; j.t = "{{> c n=" + rep("(id ", d) + "n" + rep(")", d) + "}}"; j.want = "<N>"; j.parts = {P("c", "<{{n}}>")}; return j; });
    F("subexpressions as names", 0, FAR, [=](unsigned d) { Job j; j.t = "{{> " + (d ? rep("(id ", d) + "'c'" + rep(")", d) : B("c")) + "}}"; j.want = "<N>"; j.parts = {P("c", "<{{n}}>")}; return j; });
    F("lookup of lookup", 0, FAR, [](unsigned d) { Job j; j.t = "{{lookup " + rep("(lookup ", d) + "this" + rep(" 'a')", d) + " 'n'}}"; j.want = "N"; j.ctx = maps(d); return j; });
    F("arguments", 0, FAR, [](unsigned d) { Job j; j.t = "{{id n" + rep(" 1", d) + "}}"; j.want = "N"; return j; });
    F("arguments of a block", 0, FAR, [](unsigned d) { Job j; j.t = "{{#blk this" + rep(" n", d) + "}}x{{/blk}}"; j.want = "x"; return j; });
    F("subexpressions as arguments", 0, FAR, [](unsigned d) { Job j; j.t = "{{id n" + rep(" (id 1)", d) + "}}"; j.want = "N"; return j; });
    F("hash arguments", 0, FAR, [](unsigned d) { Job j; j.t = "{{id n"; for (unsigned i = 0; i < d; i++) j.t += fmt(" k%u=1", i); j.t += "}}"; j.want = "N"; return j; });
    F("hash of a partial", 0, FAR, [=](unsigned d) { Job j; j.t = "{{> c"; for (unsigned i = 0; i < d; i++) j.t += fmt(" k%u=n", i); j.t += "}}"; j.want = "<N" + B(d ? "N" : "") + ">"; j.parts = {P("c", d ? fmt("<{{n}}{{k%u}}>", d - 1) : B("<{{n}}>"))}; return j; });
    F("block parameters", 0, FAR, [](unsigned d) { Job j; j.t = "{{#with this as |v"; for (unsigned i = 0; i < d; i++) j.t += fmt(" v%u", i); j.t += "|}}{{v.n}}{{/with}}"; j.want = "N"; return j; });
    F("path", 0, FAR, [](unsigned d) { Job j; j.t = "{{" + rep("a.", d) + "n}}"; j.want = "N"; j.ctx = maps(d); return j; });
    F("path with slashes", 0, FAR, [](unsigned d) { Job j; j.t = "{{" + rep("a/", d) + "n}}"; j.want = "N"; j.ctx = maps(d); return j; });
    F("path of the root", 0, FAR, [](unsigned d) { Job j; j.t = "{{@root." + rep("[a].", d) + "n}}"; j.want = "N"; j.ctx = maps(d); return j; });
    F("path that is not there", 0, FAR, [](unsigned d) { Job j; j.t = "[{{" + rep("zz.", d) + "zz}}]"; j.want = "[]"; return j; });
    F("nested arrays written", 0, 3000, [](unsigned d) { Job j; j.t = "{{l}}"; j.want = "N"; j.ctx = one("l", arrs(d)); return j; });
    F("nested arrays iterated", 0, 3000, [](unsigned d) { Job j; j.t = "{{#each l}}{{{.}}}{{/each}}"; j.want = d ? "N" : ""; j.ctx = one("l", arrs(d)); return j; });
    F("nested data passed", 0, 3000, [=](unsigned d) { Job j; j.t = "{{> c l=l}}{{#with (id l)}}y{{/with}}"; j.want = "<N>y"; j.ctx = one("l", arrs(d)); j.parts = {P("c", "<{{l}}>")}; return j; });
    F("partial for each level", 0, NOCOMPAT, [=](unsigned d) { Job j; j.t = "{{> r}}"; j.want = rep(".", d + 1); j.ctx = maps(d); j.parts = {P("r", "{{#with a}}{{> r}}{{/with}}.")}; return j; });
    F("partial given each level", 0, NOCOMPAT, [=](unsigned d) { Job j; j.t = "{{> r}}"; j.want = rep(".", d + 1); j.ctx = maps(d); j.parts = {P("r", "{{#if a}}{{> r a}}{{/if}}.")}; return j; });
    F("two partials in turn", 0, NOCOMPAT, [=](unsigned d) { Job j; j.t = "{{> r}}"; for (unsigned i = 0; i <= d; i++) j.want = (i % 2 == d % 2 ? "r" : "s") + j.want; B w; for (unsigned i = 0; i <= d; i++) w += i % 2 ? "s" : "r"; j.want = w; j.ctx = maps(d); j.parts = {P("r", "r{{#if a}}{{> s a}}{{/if}}"), P("s", "s{{#if a}}{{> r a}}{{/if}}")}; return j; });
    F("partial in an argument block", 0, NOCOMPAT, [=](unsigned d) { Job j; j.t = "{{> r}}"; j.want = rep("<", d) + "." + rep(">", d); j.ctx = maps(d); j.parts = {P("r", "{{#if a}}{{#> b a}}{{> r}}{{/b}}{{else}}.{{/if}}"), P("b", "<{{> @partial-block}}>")}; return j; });
    F("chain of partials", 0, 3000, [=](unsigned d) { Job j; j.t = "{{> p0}}"; j.want = rep(".", d) + "x"; for (unsigned i = 0; i < d; i++) j.parts.push_back({fmt("p%u", i), fmt(".{{> p%u}}", i + 1)}); j.parts.push_back({fmt("p%u", d), "x"}); return j; });
    F("chain of indented partials", 0, 400, [=](unsigned d) { Job j; j.t = "{{> p0}}\n"; for (unsigned i = 0; i < d; i++) { j.parts.push_back({fmt("p%u", i), fmt(".\n {{> p%u}}\n", i + 1)}); j.want += B(i, ' ') + ".\n"; } j.want += B(d, ' ') + "x\n"; j.parts.push_back({fmt("p%u", d), "x\n"}); return j; });
    F("partial blocks by partials", 0, 3000, [=](unsigned d) { Job j; j.t = "{{#> p0}}x{{/p0}}"; j.want = rep("(", d) + "x" + rep(")", d); for (unsigned i = 0; i < d; i++) j.parts.push_back({fmt("p%u", i), fmt("({{#> p%u}}{{> @partial-block}}{{/p%u}})", i + 1, i + 1)}); j.parts.push_back({fmt("p%u", d), "{{> @partial-block}}"}); return j; });
    F("blocks in the partial", 0, FAR, [=](unsigned d) { Job j; j.t = rep("{{#if n}}", d / 2) + "{{> c}}" + rep("{{/if}}", d / 2); j.want = "x"; j.parts = {P("c", rep("{{#if n}}", d - d / 2) + "x" + rep("{{/if}}", d - d / 2))}; return j; });
    F("partial calling itself", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{> s}}" : "x"; j.want = "x"; j.any = true; j.parts = {P("s", "s{{> s}}")}; return j; });
    F("partials calling one another", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{> s}}" : "x"; j.want = "x"; j.any = true; j.parts = {P("s", "{{#if n}}{{> t}}{{/if}}"), P("t", "{{#with @root}}{{> s n=1}}{{/with}}")}; return j; });
    F("partial block calling itself", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{#> s}}{{> s}}{{/s}}" : "x"; j.want = "x"; j.any = true; j.parts = {P("s", "{{#> s}}{{> @partial-block}}{{/s}}")}; return j; });
    F("partial calling itself, indented", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{> s}}" : "x"; j.want = "x"; j.any = true; j.parts = {P("s", " {{> s}}\n")}; return j; });
    F("fallback calling itself", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{> s}}" : "x"; j.want = "x"; j.any = true; j.parts = {P("s", "{{#> none}}{{> s}}{{/none}}")}; return j; });
    F("lambda writing itself", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{n}}" : "x"; j.want = "x"; j.any = true; j.ctx = J("{n:$lamval}"); return j; }, 1ul << 12 | 1);
    F("partial writing a lambda that writes itself", 0, 1, [=](unsigned d) { Job j; j.t = d ? "{{> s}}" : "x"; j.want = "x"; j.any = true; j.ctx = J("{n:$lamval}"); j.parts = {P("s", "{{n}}")}; return j; }, 1ul << 12 | 1);
    F("lambda sections", 0, 9, [=](unsigned d) { Job j = wrap("{{#f}}", "{{/f}}", d); B w = "x"; for (unsigned i = 0; i < d; i++) w = w + "-" + w; j.want = w; j.ctx = J("{n:'N',f:$lamtmpl}"); return j; }, 1ul << 12 | 1);
    F("blocks in a lambda section", 0, FAR, [=](unsigned d) { Job j; j.t = "{{#f}}" + rep("{{#if n}}", d) + "x" + rep("{{/if}}", d) + "{{/f}}"; j.want = "x-x"; j.ctx = J("{n:'N',f:$lamtmpl}"); return j; }, 1ul << 12 | 1);
    // many of the same, not nested
    F("tags", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{n}}", d); j.want = rep("N", d); return j; });
    F("blocks in a row", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{#if n}}x{{else}}y{{/if}}", d); j.want = rep("x", d); return j; });
    F("blocks with block params in a row", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{#with n as |v|}}{{v}}{{/with}}", d); j.want = rep("N", d); return j; });
    F("partials in a row", FAR, 5000, [=](unsigned d) { Job j; j.t = rep("{{> c}}", d); j.want = rep("<N>", d); j.parts = {P("c", "<{{n}}>")}; return j; });
    F("indented partials in a row", FAR, 5000, [=](unsigned d) { Job j; j.t = rep(" {{> c}}\n", d); j.want = rep(" a\n b\n", d); j.parts = {P("c", "a\nb\n")}; return j; });
    F("partial blocks in a row", FAR, 5000, [=](unsigned d) { Job j; j.t = rep("{{#> b}}x{{/b}}", d); j.want = rep("<x>", d); j.parts = {P("b", "<{{> @partial-block}}>")}; return j; });
    F("helpers in a row", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{id n}}{{id (id n) k=1}}", d); j.want = rep("NN", d); return j; });
    F("comments and text in a row", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{! c }}t{{!-- d --}}\\{{n}}", d); j.want = rep("t{{n}}", d); return j; });
    F("raw blocks in a row", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{{{raw}}}} {{n}} {{{{/raw}}}}", d); j.want = rep(" {{n}} ", d); return j; });
    F("different names", FAR, FAR, [](unsigned d) { Job j; for (unsigned i = 0; i < d; i++) { j.t += fmt("{{k%u}}{{#zz%u}}n{{/zz%u}}t%u", i, i, i, i); j.want += fmt("t%u", i); } return j; });
    F("iterations", FAR, FAR, [](unsigned d) { Job j; hv * l = mk(HV_ARR, d); for (unsigned i = 0; i < d; i++) l->items[i] = mstr("N"); j.ctx = one("l", l); j.t = "{{#each l}}{{#if this}}{{.}}{{/if}}{{/each}}"; j.want = rep("N", d); return j; });
    F("iterations calling a partial", FAR, 5000, [=](unsigned d) { Job j; hv * l = mk(HV_ARR, d); for (unsigned i = 0; i < d; i++) l->items[i] = mstr("N"); j.ctx = one("l", l); j.t = "{{#each l}}{{> c}}{{/each}}"; j.want = rep("N", d); j.parts = {P("c", "{{.}}")}; return j; });
    F("changed delimiters", FAR, FAR, [](unsigned d) { Job j; j.t = rep("{{=<% %>=}}<%n%><%={{ }}=%>", d); j.want = rep("N", d); return j; }, 1);
    F("text", FAR, FAR, [](unsigned d) { Job j; j.t = B(d, 't') + "{{n}}" + B(d, ' ') + "\n"; j.want = B(d, 't') + "N" + B(d, ' ') + "\n"; return j; });
    F("long names", FAR, FAR, [](unsigned d) { Job j; j.t = "{{" + B(d + 1, 'z') + "}}[{{[" + B(d, ' ') + "]}}{{lookup this '" + B(d, 'y') + "'}}]"; j.want = "[]"; return j; });
    F("long strings", FAR, FAR, [](unsigned d) { Job j; j.t = "{{id '" + B(d, '<') + "'}}"; j.want = rep("&lt;", d); return j; });
    F("long comment", FAR, FAR, [](unsigned d) { Job j; j.t = "{{!-- " + rep("{{n}} ", d) + "--}}x{{! " + B(d, '{') + " }}"; j.want = "x"; return j; });
    // not closed, or closed too often
    for (auto & u : {"{{#if n}}", "{{/if}}", "{{#> b}}", "{{^n}}", "{{else}}", "{{#if n}}{{else}}", "{{{{raw}}}}", "{{{{/raw}}}}", "{{> (id ", "{{id (", "{{(", "{{n (id (id ", "{{n a=(id b=", "{{#if n as |", "{{n [", "{{n '", "{{{", "{{~", "{{!--", "{{n.", "{{n/../", "{{@", "{{#*inline 'x'}}", "{{* d}}", "{{= ", "{{#> @partial-block}}", "{{#with (", "{{&", "}}", "\\\\\\{{"}) {
        B s = u; F(strdup(("broken " + s).c_str()), 0, FAR, [=](unsigned d) { Job j; j.t = rep(s, d); j.want = "?"; return j; });
    }
    // what must work: the limits as they are (32 blocks or 62 subexpressions being compiled, 96 values on a stack of the machine), less some
    for (auto & f : forms) if (!f.min && strncmp(f.name, "broken", 6)) {
        B n = f.name; auto in = [&](std::initializer_list<const char *> l) { for (auto x : l) if (n == x) return true; return false; };
        f.min = in({"partial calling itself", "partials calling one another", "partial block calling itself", "partial calling itself, indented", "fallback calling itself", "lambda writing itself", "partial writing a lambda that writes itself"}) ? 0 : in({"lambda sections"}) ? 9 : in({"block parameters"}) ? 1 : in({"each with block params"}) ? 14 : in({"partial in an argument block"}) ? 44 : in({"blocks in the partial", "subexpressions", "subexpressions of a block", "subexpressions of a partial", "subexpressions as names", "lookup of lookup"}) ? 58
            : in({"arguments", "arguments of a block", "subexpressions as arguments", "hash arguments", "hash of a partial", "partial for each level", "partial given each level", "two partials in turn", "chain of partials", "chain of indented partials", "partial blocks by partials"}) ? 90
            : in({"up from the root", "path", "path with slashes", "path of the root", "path that is not there", "nested arrays written", "nested arrays iterated", "nested data passed"}) ? 3000 : 28;
    }
    static std::vector<unsigned> depths; for (unsigned i = 0; i < (th ? 1200 : 104); i++) depths.push_back(i);
    if (!th) for (unsigned d : {110u, 127u, 128u, 129u, 160u, 191u, 192u, 193u, 200u, 254u, 255u, 256u, 257u, 258u, 300u, 500u, 511u, 512u, 513u, 600u, 700u, 800u, 900u, 999u, 1000u, 1001u, 1023u, 1024u, 1025u}) depths.push_back(d);
    for (unsigned d : {1500u, 2000u, 3000u, 5000u, 9990u, 9999u, 10000u, 10001u, 12000u, 20000u, 50000u}) if (th || d <= 10001) depths.push_back(d);
    static const struct { unsigned long flags; int pipe, nojmp; const char * name; } ways[] = {{0, HP_DIRECT, 0, ""}, {1, HP_DIRECT, 0, "compat "}, {0, HP_RELOC, 0, "relocated "}, {0, HP_DIRECT, 1, "no handler "}, {1ul << 10 | 1ul << 4, HP_DIRECT, 0, "strict "}};
    auto check = [](Case & c, const Form & f, Job & j, unsigned d, unsigned w) {
        static const Setup s0 = [] { Setup s; s.helpers = {{"id", HF_ID}, {"blk", HF_BLK}, {"blk2", HF_BLK2}, {"raw", HF_BLK}}; return s; }();
        if (!j.ctx) j.ctx = one("o", maps(0));
        hreq rq; memset(&rq, 0, sizeof rq);
        std::vector<hpartial> ps; for (auto & p : j.parts) ps.push_back(hpartial{p.name.c_str(), p.text.data(), p.text.size(), 0});
        static const char * known[] = {"id", "blk", "blk2", "raw"};
        rq.tmpl = j.t.data(); rq.tlen = j.t.size(); rq.ctx = j.ctx; rq.helpers = s0.helpers.data(); rq.nhelpers = 4; rq.partials = ps.data(); rq.npartials = ps.size(); rq.known = known; rq.nknown = 4;
        rq.flags = f.flags | ways[w].flags; rq.pipe = ways[w].pipe; rq.nojmp = ways[w].nojmp;
        hb_render(&rq, &R); c.transitions();
        B got(R.out ? R.out : "", R.err ? 0 : R.outlen);
        bool must = d <= f.min && w != 4;
        if (R.err ? must || !R.msg[0] : (j.want != "?" && (got != j.want || (j.any && d)))) c.fail("P23", fmt("depth %u: ", d) + (R.err ? fmt("error %d '%s'", R.err, R.msg) : "'" + esc(got.substr(0, 200)) + fmt("' (%zu bytes)", got.size())) + ", defined: '" + esc(j.want.substr(0, 200)) + fmt("' (%zu bytes)", j.want.size()));
        c.outcome(R.err ? B(R.msg) : got);
        freehv(j.ctx);
    };
    for (unsigned w = 0; w < 5; w++) m.add(fmt("forms-%s%u", ways[w].name, w), forms.size() * depths.size(), [=](Case & c) {
        const Form & f = forms[c.idx % forms.size()]; unsigned d = depths[c.idx / forms.size()];
        if ((!th && w >= 2 && ((d > 66 && d < 90) || (d > 104 && d % 10) || d > 1100))) { c.skip(); return; }
        if (d > f.max || (f.max == NOCOMPAT && w == 1) || (f.flags && w == 4) || (f.min == FAR && d > (th ? 3000u : 1025u))) { c.skip(); return; }
        double t0 = now(); toodeep = false; Job j = f.make(d); if (toodeep) { freehv(j.ctx); c.skip(); return; }
        check(c, f, j, d, w);
        if (getenv("HX_TABLE")) { FILE * o = fopen(getenv("HX_TABLE"), "a"); fprintf(o, "%s", fmt("%s|%u|%s|%u|%.2f\n", f.name, d, R.err ? R.msg : "ok", w, now() - t0).c_str()); fclose(o); }
    }, [=](uint64_t i) { return fmt("%s%s depth %u", ways[w].name, forms[i % forms.size()].name, depths[i / forms.size()]); }, 16, 60);
    const unsigned NW = sizeof wraps / sizeof *wraps - 1, ND = th ? 200 : 36;
    m.add("pairs", NW * NW * ND * 2, [=](Case & c) {
        unsigned w = c.idx % 2, d = c.idx / 2 % ND, a = c.idx / 2 / ND % NW, b = c.idx / 2 / ND / NW; if (!th) d *= 2;
        Job j; B close; B aft;
        for (unsigned i = 0; i < d; i++) { const Wrap & x = wraps[i % 2 ? b : a]; j.t += x.open; close = x.close + close; j.want += x.before; aft = x.after + aft; }
        j.t += "x" + close; j.want += "x" + aft; j.parts = {{"b", "<{{> @partial-block}}>"}};
        Form f{"pair", 0, FAR, nullptr};
        check(c, f, j, d, w ? 2 : 0);
    }, [=](uint64_t i) { return fmt("%s %s depth %lu way %lu", wraps[i / 2 / ND % NW].open, wraps[i / 2 / ND / NW].open, i / 2 % ND * (th ? 1 : 2), i % 2); }, 32, 60);
    return m.go(argc, argv);
}
