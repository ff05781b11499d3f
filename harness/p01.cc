#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P01";
    m.rule = "every template of the listed shapes (all combinations of the listed constructs, paths and bodies) times every context; non-trivial: distinct rendered outputs or errors, counted by hash";
    m.parse(argc, argv);
    Setup s;
    // values in every position
    std::vector<std::string> vals = {"null", "true", "false", "0", "7", "-3", "1.5", "0.0", "''", "'0'", "'s<'", "[]", "[1]", "['x','y']", "[[1,2],[3]]", "[{n:1},{n:2,a:9}]", "[null,0]", "{}", "{n:1}", "{n:'in',a:{n:'deep'}}", "{x:[1,{n:4}],y:null}", "[{},[]]"};
    std::vector<Ctx> one1;
    for (auto & v : vals) one1.push_back(ctx("{a:" + v + ",b:'n',n:'top'}"));
    one1.push_back(ctx("{b:'n',n:'top'}"));
    for (auto & v : vals) one1.push_back(ctx(v));
    std::vector<Ctx> few = ctxs({"{a:[{n:1},{n:2,a:[5,6]}],b:{n:'bn',a:'ba'},n:'top'}", "{a:{n:'an',b:{n:'abn'},a:[1,2]},b:['p','q'],n:'top'}", "{a:[[1,2],[3]],b:0,n:null}", "{a:{x:{n:1},y:{n:2}},b:'',n:1}", "{b:[{a:[{n:7}],n:8}],n:'t'}", "{a:[null,'z'],b:{},n:true}"});

    static L paths = {"a", "n", "b", "this", ".", "a.n", "a.a.n", "this.n", "./n", "a.[0]", "a.[1].n", "[a]", "a/n", "../n", "../a", "../../n", "..", "../..", "a.[n]", "this/a", "@index", "@key", "@first", "@root.n", "zz", "zz.n", "a.zz", "a.[-1]", "a.[0x]", "@zz", "[n]", "this.[a].[n]"};
    static L args = {"a", "n", "this", "../a", "a.n", "0", "1", "\"\"", "'0'", "true", "false", "null", "undefined", "(lookup a b)", "(lookup this 'a')", "(lookup a 0)", "(lookup a '1')", "(lookup ../a @index)", "@first", "a.[0]", "(lookup (lookup this 'a') 1)"};
    static L simple;
    for (auto & p : paths) simple.push_back("{{" + p + "}}");
    static L bodies = simple;
    for (auto & p : {"{{{a}}}", "x", "", "{{lookup a 1}}", "{{lookup . 'n'}}", "{{lookup ../a @index}}", "{{lookup a b}}", "{{lookup this @key}}", "{{&n}}", "{{@index}}:{{@key}}={{this}};", "{{#if @first}}F{{/if}}{{#if @last}}L{{/if}}", "{{\"n\"}}", "{{! c }}", "{{lookup b 0}}", "{{@../index}}", "{{lookup n 'x'}}", "{{12}}", "{{true}}", "{{null}}", "{{lookup this 'n' }}"}) bodies.push_back(p);

    static L t0 = bodies;
    product(m, "mustache", new Setup(s), &t0, new std::vector<Ctx>(one1));

    static L t1;
    static L heads;
    for (auto h : {"if", "unless", "each", "with"}) for (auto & a : args) heads.push_back(std::string("{{#") + h + " " + a + "}}$B{{/" + h + "}}");
    for (auto h : {"if", "unless"}) for (auto & a : {"a includeZero=true", "a includeZero=false", "0 includeZero=b", "n includeZero=1"}) heads.push_back(std::string("{{#") + h + " " + a + "}}$B{{/" + h + "}}");
    for (auto p : {"a", "n", "this", ".", "a.n", "../a", "zz", "a.[0]", "b", "a.a", "..", "@first", "@root.a", "@root"}) { heads.push_back(std::string("{{#") + p + "}}$B{{/" + p + "}}"); }
    for (auto p : {"a", "n", "this", "a.n", "../a", "zz", "a.[1]"}) heads.push_back(std::string("{{^") + p + "}}$B{{/" + p + "}}");
    static L heads2 = heads;
    auto put = [](const std::string & h, const std::string & b) { std::string r = h; size_t p = r.find("$B"); return r.replace(p, 2, b); };
    static L inner = {"{{n}}", "{{this}}", "{{../n}}", "{{a}}", "{{../a.n}}", "{{@index}}{{@key}}", "x", "{{../../n}}", "{{.}}", "{{a.[0]}}", "{{@root.n}}", "{{../this}}"};
    for (auto & h : heads) for (auto & b : bodies) t1.push_back(put(h, b));
    product(m, "block", new Setup(s), &t1, new std::vector<Ctx>(one1));
    static L t2;
    for (auto & h : heads) for (auto & b : inner) for (auto & e : {"{{else}}E{{n}}", "{{^}}{{this}}", "{{else if n}}1{{n}}{{else}}2{{../n}}", "{{else each a}}<{{this}}>{{else}}none", "{{else with b}}{{.}}{{../n}}", "{{else a}}[{{n}}]{{/a}}", "{{else unless n}}u{{else if b}}{{b}}{{else}}z"}) t2.push_back(put(h, b + e));
    // an inverted section takes no chain
    L tmp; for (auto & t : t2) if (t.compare(0, 3, "{{^") || t.find("{{else ") == std::string::npos) tmp.push_back(t); t2 = tmp;
    static L t3;
    static L h2;
    for (auto h : {"{{#if a}}$B{{/if}}", "{{#unless a}}$B{{/unless}}", "{{#each a}}$B{{/each}}", "{{#each b}}$B{{/each}}", "{{#with a}}$B{{/with}}", "{{#with b}}$B{{/with}}", "{{#a}}$B{{/a}}", "{{#b}}$B{{/b}}", "{{^a}}$B{{/a}}", "{{#each this}}$B{{/each}}", "{{#with ..}}$B{{/with}}", "{{#each ../a}}$B{{/each}}", "{{#with n}}$B{{/with}}", "{{#with (lookup a 0)}}$B{{/with}}", "{{#.}}$B{{/.}}", "{{#if n}}$B{{else}}e{{/if}}", "{{#each a}}$B{{else}}e{{n}}{{/each}}", "{{#if zz}}e{{else}}$B{{/if}}", "{{#if zz}}e{{else with a}}$B{{/if}}", "{{#each (lookup this 'a')}}$B{{/each}}", "{{#if @first}}$B{{/if}}"}) h2.push_back(h);
    static std::vector<std::string> in3 = {"{{n}}", "{{this}}", "{{../n}}", "{{../../n}}", "{{@index}}{{@key}}{{@last}}", "{{../this}}|", "{{a}}{{b}}", "{{@../index}}", "{{../a.n}}", "{{@root.n}}"};
    for (auto & x : h2) for (auto & y : h2) for (auto & b : in3) { t3.push_back(put(x, put(y, b))); }
    static L t4;
    for (auto & x : h2) for (auto & y : h2) { t4.push_back(put(x, "{{n}}" + put(y, "{{n}},") + "{{../n}}")); t4.push_back(put(x, "A") + put(y, "{{n}}{{../n}}")); }
    product(m, "block-else", new Setup(s), &t2, new std::vector<Ctx>(m.thorough() ? one1 : std::vector<Ctx>(one1.begin(), one1.begin() + 24)));
    std::vector<Ctx> ctx3 = few; if (m.thorough()) ctx3.insert(ctx3.end(), one1.begin(), one1.end());
    product(m, "nested", new Setup(s), &t3, new std::vector<Ctx>(ctx3));
    product(m, "sequence", new Setup(s), &t4, new std::vector<Ctx>(ctx3));
    static L t5;
    if (m.thorough()) {
        for (auto & x : h2) for (auto & y : h2) for (auto & z : h2) for (auto & b : {"{{n}}{{../n}}", "{{this}}{{../../n}}", "{{@index}}{{@../index}}{{@../../key}}", "{{../../../n}}"}) t5.push_back(put(x, put(y, put(z, b))));
        product(m, "nested3", new Setup(s), &t5, new std::vector<Ctx>(few));
    }
    return m.go(argc, argv);
}
