#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P04";
    m.rule = "every partial call of the listed forms (names, context, arguments, block, indentation) in every listed surrounding, with every body of the called partial and of the block, for every context; non-trivial: distinct outputs or errors, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    auto cx = new std::vector<Ctx>(ctxs({"{one:'p',n:'T',a:{n:'A',x:1},b:[{n:'B0'},{n:'B1'}],p:'q',s:'str'}", "{one:'p',n:0,a:[1,2],b:[],p:'nope',s:null}", "{one:'p',a:{n:{n:'D'}},b:[[1],'z'],p:'q',s:5}", "{one:'p',n:'<',a:null,b:{k:{n:'K'}},p:'p',s:''}"}));
    // 1: what a partial sees
    L bodies = {"{{n}}", "[{{this}}]", "{{a.n}}", "{{h}}|{{n}}", "{{@index}}{{@key}}", "{{@root.n}}", "{{#each b}}{{n}}{{../n}}{{/each}}", "{{#with a}}{{n}}{{../n}}{{/with}}", "{{> q}}", "{{> q a}}", "{{> q h=n}}", "{{> q n=h}}", "{{> @partial-block}}", "{{#if n}}{{> q}}{{/if}}", "", "{{x}}{{k}}{{.}}", "{{#if h}}H{{else}}-{{/if}}", "{{{n}}}", "{{> (lookup . 'p')}}", "{{#> q}}{{n}}{{/q}}"};
    L calls;
    for (auto n : {"p", "\"p\"", "'p'", "[p]", "(lookup . 'one')", "(id 'p')"})
        for (auto c : {"", " a", " this", " n", " .", " b.[0]", " \"lit\"", " 5", " null", " zz", " (lookup b 0)"})
            for (auto h : {"", " h=1", " h=n n='new'", " h=this", " h=(lookup a 'n')", " x=a.n a=b"}) calls.push_back(std::string(n) + c + h);
    L wraps = {"$C", "{{#each b}}$C;{{/each}}", "{{#with a}}$C{{/with}}", "{{#each b as |n i|}}$C{{/each}}", "{{#if n}}$C{{else}}e$C{{/if}}", "$C$C{{n}}"};
    auto put = [](std::string h, const char * k, const std::string & b) { for (size_t p; (p = h.find(k)) != std::string::npos;) h.replace(p, 2, b); return h; };
    for (auto & b : bodies) {
        Setup * s = new Setup; s->helpers = {{"id", HF_ID}};
        s->partials = {part("p", strdup(b.c_str())), part("q", "Q{{n}}{{h}}")};
        L * t = new L;
        size_t k = 0;
        for (auto & c : calls) for (auto & w : wraps) {
            if (!th && k++ % 1 && w != "$C") continue;
            t->push_back(put(w, "$C", "{{> " + c + "}}"));
        }
        product(m, "see:" + b, s, t, cx);
    }
    // 2: blocks of calls, at any nesting
    L pb = {"[{{> @partial-block}}]", "{{n}}", "{{#each b}}{{> @partial-block}}{{/each}}", "{{> q}}", "{{#> q}}i{{> @partial-block}}{{/q}}", "{{#with a}}{{> @partial-block}}{{/with}}", "{{> @partial-block}}{{> @partial-block}}", "{{#> q}}x{{n}}{{/q}}{{> @partial-block}}", "{{> @partial-block a}}", "{{> @partial-block n='H'}}", "{{#if n}}{{> @partial-block}}{{/if}}", "{{#> @partial-block}}d{{/@partial-block}}", "{{#> r}}R{{> @partial-block}}{{/r}}"};
    L qb = {"({{> @partial-block}})", "q{{n}}", "{{#> r}}{{> @partial-block}}{{/r}}"};
    L blk = {"{{n}}", "", "{{#> q}}{{n}}{{/q}}", "{{> q}}", "{{#each b}}{{n}}{{../n}}{{/each}}", "{{x}}", "{{#> p2}}J{{n}}{{/p2}}", "{{#with a}}{{../n}}{{/with}}", "{{> @partial-block}}"};
    L heads = {"{{#> p}}$B{{/p}}", "{{#> p a}}$B{{/p}}", "{{#> p n=1}}$B{{/p}}", "{{#> none}}$B{{/none}}", "{{#> none a}}$B{{/none}}", "{{#> none n=2}}$B{{/none}}", "{{#each b}}{{#> p}}$B{{/p}}{{/each}}", "{{#with a}}{{#> p ..}}$B{{/p}}{{/with}}", "{{#> (lookup . 'p')}}$B{{/p}}", "{{#each b as |v i|}}{{#> p v}}{{v.n}}{{i}}$B{{/p}}{{/each}}", "{{#> p}}$B{{/p}}{{#> p}}2{{/p}}", "{{#> p}}$B{{/p}}{{> @partial-block}}", "{{#> p b}}$B{{/p}}"};
    for (auto & b : pb) for (auto & q : qb) {
        Setup * s = new Setup;
        s->partials = {part("p", strdup(b.c_str())), part("q", strdup(q.c_str())), part("r", "<{{> @partial-block}}>"), part("p2", "2{{> @partial-block}}")};
        L * t = new L;
        for (auto & h : heads) {
            if (h.find("(lookup") != std::string::npos) continue;
            for (auto & x : blk) { t->push_back(put(h, "$B", x)); t->push_back("{{#> q}}" + put(h, "$B", x) + "{{/q}}"); }
            if (th) for (auto & x : blk) for (auto & h2 : heads) if (h2.find("(lookup") == std::string::npos) { t->push_back(put(h, "$B", put(h2, "$B", x))); }
        }
        product(m, "block:" + b + q, s, t, cx);
    }
    // 3: indentation
    L ind = {"", " ", "  ", "\t", " \t ", "x", "x "}, before = {"", "\n", "a\n", " \n"}, after = {"", "\n", " \n", "b", "\nb\n", " b", "\r\n"};
    L ip = {"P", "P\n", "P\nQ", "P\nQ\n", "\nP\n\nQ\n", "", "\n", "{{n}}\n", "{{#if n}}\ny\n{{/if}}\nz\n", " {{> q}}\n", "{{> q}}", "a\n  {{> q}}\nb\n", "{{{n}}}\n{{n}}", "\r\nP\r\nQ", "{{#each b}}\n  {{n}}\n{{/each}}\n", "x{{!c}}\n", "  {{> @partial-block}}\n", "A{{> @partial-block}}B\n"};
    auto cxi = new std::vector<Ctx>(ctxs({"{n:'l1\\nl2',b:[{n:1},{n:2}]}", "{n:'',b:[]}", "{n:'\\n',b:[{}]}"}));
    for (unsigned long fl : {0ul, 32ul}) for (auto & b : ip) for (auto q : {"q\n", "q", "q\n\nr\n", ""}) {
        Setup * s = new Setup; s->flags = fl;
        s->partials = {part("p", strdup(b.c_str())), part("q", q)};
        L * t = new L;
        for (auto call : {"{{> p}}", "{{> p this}}", "{{#each b}}\n$I{{> p ..}}\n{{/each}}", "{{#> p}}\n  k\n{{n}}\n$I{{/p}}"})
            for (auto & i : ind) for (auto & bf : before) for (auto & af : after) t->push_back(bf + i + put(call, "$I", i) + af);
        product(m, "indent" + std::to_string(fl) + ":" + b + ":" + q, s, t, cxi);
    }
    return m.go(argc, argv);
}
