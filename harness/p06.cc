#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
static std::string put(std::string h, const std::string & b) { for (size_t p; (p = h.find("$B")) != std::string::npos;) h.replace(p, 2, b); return h; }
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P06";
    m.rule = "every call of a recording helper with every combination of the listed arguments, hash pairs and nestings, in every listed position, for every context and every listed registration; what each call received is part of the output; non-trivial: distinct outputs or errors, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    std::vector<hhelper> hs = {{"h", HF_REC}, {"id", HF_ID}, {"nul", HF_NULL}, {"safe", HF_SAFE}, {"fail", HF_THROW}, {"blk", HF_BLK}, {"blk2", HF_BLK2}, {"arr", HF_ARR}, {"no", HF_FALSE}, {"obj", HF_MAP}, {"cnt", HF_COUNT}, {"erra", HF_ERRARG}};
    auto cx = new std::vector<Ctx>(ctxs({"{n:'N<',a:{n:'A',b:[1,'x']},b:[{n:1},{n:2}],f:$rec,g:{f:$rec,n:'G'},t:true,z:0,fl:[$rec,2]}", "{n:0,a:[1,2.5],b:{k:{n:'K'}},f:$id,g:{f:$lamscope},z:''}", "{a:null,b:[],f:'str',g:7}", "{n:'n',h:'member',id:5,nul:'m',each:'E',if:1,b:'bb',f:$lambda,fl:{x:$count}}"}));
    std::vector<Setup *> regs;
    Setup * s = new Setup; s->helpers = hs; s->partials = {part("p", "{{h n}}{{h f}}")};
    regs.push_back(s);
    // 1: positional arguments and hash
    L atoms = {"n", "a.n", "..", "this", "'s'", "\"\"", "1", "-2.5", "true", "false", "null", "undefined", "zz", "a", "b.[0]", "@index", "@root.n", "f", "(h 1)", "(id a.n)", "(h (h n) x=(id 2))", "(nul)", "(arr)", "(lookup b 0)"};
    L hash = {"", " k=n", " k='v' l=1", " k=(h 3) l=a.n m=null", " k=this", " k=@key"};
    L * t1 = new L;
    L pos = {"{{h$B}}", "{{#h$B}}y{{else}}n{{/h}}", "{{id (h$B)}}", "{{#if (h$B)}}y{{/if}}", "{{#each b}}{{h$B}};{{/each}}"};
    std::vector<L> combos;
    L args = {""};
    for (auto & a : atoms) args.push_back(" " + a);
    for (auto & a : atoms) for (auto & b : atoms) args.push_back(" " + a + " " + b);
    if (th) for (auto & a : atoms) for (auto & b : atoms) for (auto & c : atoms) args.push_back(" " + a + " " + b + " " + c);
    args.push_back(" 1 2 3 4 5 6 7 8 9"); args.push_back(" n n n n n n n n n n n n n n n n"); args.push_back(" (h 1) (h 2) (h 3) (h 4)"); args.push_back(" (h (h (h (h 1))))");
    for (auto & a : args) for (auto & h : hash) for (auto & p : pos) t1->push_back(put(p, a + h));
    product(m, "args", s, t1, cx);
    // 2: order and number of calls
    L ops = {"{{h}}", "{{h n}}", "{{cnt}}", "{{#blk a}}{{h n}}{{/blk}}", "{{#blk2}}{{h}}{{else}}{{h 0}}{{/blk2}}", "{{#each b}}{{cnt}}{{h n}}{{/each}}", "{{#if (h 1)}}{{h 2}}{{else}}{{h 3}}{{/if}}", "{{#if (no)}}{{h 2}}{{else}}{{h 3}}{{/if}}", "{{> p}}", "{{f}}", "{{g.f}}", "{{#f}}{{h}}{{/f}}", "{{#with (obj)}}{{h n}}{{/with}}", "{{#each (arr)}}{{h this}}{{/each}}", "{{#unless f}}{{h}}{{/unless}}", "{{id (cnt)}}", "{{nul}}", "{{{safe n}}}{{safe n}}", "{{f n}}", "{{#f n}}x{{/f}}", "{{#if f}}t{{/if}}", "{{#each fl}}{{this}}{{/each}}", "{{fl.[0]}}"};
    L * t2 = new L;
    for (auto & a : ops) { t2->push_back(a); for (auto & b : ops) { t2->push_back(a + b); for (auto & c : ops) t2->push_back(a + b + c); } }
    product(m, "order", s, t2, cx);
    L * t2b = new L;
    L blocks = {"{{#blk a}}$B{{/blk}}", "{{#blk n as |x y|}}$B{{x}}{{y}}{{@v}}{{/blk}}", "{{#blk2}}$B{{else}}E$B{{/blk2}}", "{{#blk2 n}}$B{{/blk2}}", "{{#h n}}$B{{/h}}", "{{#id a}}$B{{/id}}", "{{#no}}$B{{else}}$B{{/no}}", "{{#nul}}$B{{else}}e$B{{/nul}}", "{{#arr}}$B{{/arr}}", "{{#obj}}$B{{/obj}}", "{{#safe n}}$B{{/safe}}", "{{^blk a}}$B{{/blk}}", "{{^h}}$B{{/h}}", "{{#f}}$B{{/f}}", "{{#g.f}}$B{{/g.f}}", "{{^f}}$B{{/f}}", "{{#f 1}}$B{{else}}e{{/f}}", "{{#with f}}$B{{/with}}", "{{#each f}}$B{{else}}e{{/each}}", "{{#each (id b)}}$B{{/each}}", "{{#blk}}$B{{/blk}}", "{{#fl.[0]}}$B{{/fl.[0]}}"};
    for (auto & a : blocks) for (auto & b : blocks) for (auto & c : ops) t2b->push_back(put(a, put(b, c)));
    product(m, "blocks", s, t2b, cx);
    // 3: what a helper returns, and where names come from
    L names = {"h", "nul", "no", "arr", "obj", "cnt", "zz", "f", "g.f", "f.x", "this.f", "./h", "./f", "id", "[h]", "this/h", "if", "each", "n", "this.if", "if.x", "@if", "../if", "./each", "@root.f", "../f", "zz.h", "a.h", "g.zz", "fail", "lookup", "helperMissing", "blockHelperMissing", "\"h\"", "'f'", "1"};
    L use = {"{{$B}}", "{{{$B}}}", "{{$B 1}}", "{{$B k=1}}", "{{$B n 'x' k=n}}", "{{#$B}}x{{n}}{{else}}y{{n}}{{/$B}}", "{{#$B 1}}x{{else}}y{{/$B}}", "{{^$B}}x{{/$B}}", "{{id $B}}", "{{id ($B 1)}}", "{{#if $B}}x{{else}}y{{/if}}", "{{#each $B}}{{this}}{{else}}y{{/each}}", "{{#with b.[0]}}{{$B 1}}{{/with}}", "{{#with b.[0]}}{{$B}}{{/with}}", "{{#each b}}{{$B n}}{{/each}}", "{{#each b as |h f|}}{{$B}}{{/each}}", "{{#$B as |n x|}}{{n}}{{x}}{{/$B}}", "{{id ($B)}}", "{{lookup $B 'n'}}"};
    auto regset = [&](std::vector<hhelper> extra, bool base = true) { Setup * r = new Setup; if (base) r->helpers = hs; for (auto & e : extra) r->helpers.push_back(e); r->partials = {part("p", "{{h n}}{{h f}}")}; return r; };
    struct RS { const char * n; Setup * s; } rs[] = {{"base", s}, {"none", regset({}, false)}, {"if", regset({{"if", HF_REC}})}, {"each", regset({{"each", HF_REC}, {"with", HF_ID}})}, {"missing", regset({{"helperMissing", HF_REC}})}, {"blockmissing", regset({{"blockHelperMissing", HF_REC}})}, {"missing2", regset({{"helperMissing", HF_ID}, {"blockHelperMissing", HF_BLK}})}, {"shadow", regset({{"n", HF_REC}, {"b", HF_BLK}})}, {"lookup", regset({{"lookup", HF_REC}, {"unless", HF_BLK}})}};
    L * t3 = new L;
    for (auto & n : names) for (auto & u : use) {
        if ((n[0] == '"' || n[0] == '\'' ) && u.find("{{id") != std::string::npos) continue;
        t3->push_back(put(u, n));
    }
    for (auto & r : rs) product(m, std::string("names-") + r.n, r.s, t3, cx);
    return m.go(argc, argv);
}
