#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
static std::string put(std::string h, const std::string & b) { for (size_t p; (p = h.find("$B")) != std::string::npos;) h.replace(p, 2, b); return h; }
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P05";
    m.rule = "every nesting (to the listed depth) of blocks with and without block params, each body reading every name and @data path, for every context; non-trivial: distinct outputs or errors, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    Setup * s = new Setup;
    s->helpers = {{"blk", HF_BLK}, {"blk2", HF_BLK2}, {"id", HF_ID}};
    s->partials = {part("p", "<{{a}}{{b}}{{@index}}{{@key}}{{@root.a}}{{#each l}}{{@index}}{{@../index}}{{/each}}{{#if @partial-block}}P{{/if}}>"), part("q", "{{#each l as |a b|}}{{a}}{{b}}{{> @partial-block}}{{/each}}"), part("r", "{{> @partial-block}}{{#each l as |x|}}{{> @partial-block}}{{/each}}")};
    auto cx = new std::vector<Ctx>(ctxs({"{a:'A',b:'B',l:[1,{a:'la',l:['z']}],m:{k:{a:'mk',l:[8]},j:2},x:{a:'xa',l:[[3,4]]}}", "{l:[[1,2],[3,{l:[5]}]],m:{a:{b:'mab'},b:null},a:{a:1,l:[6]}}", "{l:[],m:{},a:[{b:1},{b:2}],x:null}", "{l:{p:[1],q:{a:7}},m:[0,'s'],b:{a:{a:'baa'}},a:0}"}));
    L heads = {"{{#each l as |a|}}$B{{/each}}", "{{#each l as |a b|}}$B{{/each}}", "{{#each m as |b a|}}$B{{/each}}", "{{#each l as |x i|}}$B{{/each}}", "{{#each m as |x k|}}$B{{/each}}", "{{#with x as |a|}}$B{{/with}}", "{{#with m as |l|}}$B{{/with}}", "{{#with a as |x y|}}$B{{/with}}", "{{#each l}}$B{{/each}}", "{{#each m}}$B{{/each}}", "{{#with x}}$B{{/with}}", "{{#if l}}$B{{/if}}", "{{#blk l as |a b|}}$B{{/blk}}", "{{#blk a as |x i|}}$B{{/blk}}", "{{#blk}}$B{{/blk}}", "{{#l}}$B{{/l}}", "{{#each a as |b|}}$B{{else}}!$B{{/each}}", "{{#with l as |x|}}$B{{else}}!$B{{/with}}", "{{#each x as |l m|}}$B{{/each}}", "{{#each this as |x i|}}$B{{/each}}", "{{#blk2 as |a|}}$B{{else}}~$B{{/blk2}}", "{{#a as |a|}}$B{{/a}}", "{{#each a as |a a2|}}$B{{/each}}"};
    L bodies = {"{{a}}", "{{b}}", "{{x}}", "{{i}}", "{{k}}", "{{l}}", "{{a.a}}", "{{x.l}}", "{{x.[0]}}", "{{./a}}", "{{this.a}}", "{{../a}}", "{{@index}}", "{{@key}}", "{{@first}}", "{{@last}}", "{{@../index}}", "{{@../key}}", "{{@../../index}}", "{{@root.a}}", "{{@root.x.a}}", "{{@../first}}", "{{this}}", "{{y}}", "{{@v}}", "{{id a}}", "{{id x.a}}", "{{lookup x i}}", "{{id @index}}", "{{> p}}", "{{> p a=x}}", "{{> p x}}", "{{#> q}}{{a}}{{b}}{{@index}}{{/q}}", "{{#> r}}{{a}}{{x}}{{i}}{{@index}}{{/r}}", "{{#if a}}{{a}}{{else}}{{x}}{{/if}}", "{{#a}}{{.}}{{/a}}", "{{#each a}}{{a}}{{@index}}{{/each}}", "{{#with a}}{{a}}{{x}}{{/with}}", "{{^a}}{{x}}{{/a}}", "{{a.[0]}}{{l.[1]}}", "{{x.k}}", "{{@root.l.[0]}}", "{{#if @partial-block}}Y{{else}}N{{/if}}", "{{#unless @../partial-block}}U{{/unless}}", "{{[a]}}", "{{a/a}}"};
    L inner = {"{{a}}", "{{b}}{{x}}", "{{i}}{{k}}", "{{x.a}}", "{{@index}}{{@../index}}{{@../../index}}", "{{@key}}{{@first}}{{@last}}", "{{../a}}", "{{this}}", "{{@root.a}}", "{{l}}", "{{id a}}{{id b}}", "{{#each l as |b|}}{{a}}{{b}}{{/each}}{{b}}", "{{> p a=x}}", "{{#> r}}{{a}}{{x}}{{@index}}{{/r}}"};
    L * t1 = new L, * t2 = new L, * t3 = new L, * t4 = new L;
    *t1 = bodies;
    for (auto & h : heads) for (auto & b : bodies) t1->push_back(put(h, b) + b);
    product(m, "one", s, t1, cx);
    for (auto & h : heads) for (auto & g : heads) for (auto & b : th ? bodies : inner) t2->push_back(put(h, put(g, b)));
    product(m, "two", s, t2, cx);
    // what remains after an inner block ended
    for (auto & h : heads) for (auto & g : heads) for (auto & b : {"{{a}}{{b}}", "{{x}}{{i}}", "{{@index}}{{@key}}{{@first}}{{@last}}", "{{@../index}}{{@v}}", "{{../a}}{{this}}{{@root.a}}"}) t3->push_back(put(h, put(g, "") + b + put(g, b) + b));
    product(m, "after", s, t3, cx);
    L h3(heads.begin(), heads.begin() + 16);
    for (auto & h : th ? heads : L(heads.begin(), heads.begin() + 9)) for (auto & g : h3) for (auto & f : h3) for (auto b : {"{{a}}{{b}}{{x}}{{i}}{{k}}", "{{@index}}{{@../key}}{{@../../index}}", "{{#> r}}{{a}}{{x}}{{i}}{{@index}}{{/r}}"}) t4->push_back(put(h, put(g, put(f, b))));
    product(m, "three", s, t4, cx);
    // initial data
    Setup * d = new Setup(*s); d->data = J("{v:'V',index:'I',root:'R',o:{p:[9]}}");
    L * t5 = new L;
    L db = {"{{@v}}", "{{@index}}", "{{@root}}", "{{@root.a}}", "{{@o.p.[0]}}", "{{@../v}}", "{{@../index}}", "{{@zz}}", "{{@o.zz}}", "{{id @v}}", "{{#if @v}}y{{/if}}", "{{#with @o}}{{p}}{{@v}}{{/with}}", "{{#each @o.p}}{{@index}}{{.}}{{@v}}{{/each}}", "{{> p}}", "{{#> r}}{{@v}}{{/r}}"};
    *t5 = db;
    for (auto & h : heads) for (auto & b : db) { t5->push_back(put(h, b)); for (auto & g : h3) t5->push_back(put(h, put(g, b) + b)); }
    product(m, "data", d, t5, cx);
    return m.go(argc, argv);
}
