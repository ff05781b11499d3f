// A fixed family of templates that together use every construct: every piece alone, every piece inside
// every block, and (deep) every piece inside every pair of blocks.
#pragma once
#include "lang.hpp"
namespace suite {
using namespace lang;
typedef std::vector<std::string> L;
inline std::string put(std::string h, const std::string & b) { for (size_t p = 0; (p = h.find("$B", p)) != std::string::npos; p += b.size()) h.replace(p, 2, b); return h; }
inline const L & pieces() {
    static const L l = {"x", "", "\n", " t\n ", "{{n}}", "{{{n}}}", "{{&n}}", "{{a.b.n}}", "{{this}}", "{{../n}}", "{{../../n}}", "{{@root.n}}", "{{@index}}{{@key}}{{@first}}{{@last}}", "{{zz}}", "{{a.[b].n}}", "{{l.[1]}}", "{{v}}{{w}}",
        "{{rec}}", "{{rec 1 'two' n=n t=true}}", "{{rec (id n) (rec l.[0] k=(id 'q')) u=undefined v=null}}", "{{id a.n}}", "{{{safe n}}}{{safe n}}", "{{lookup l 0}}", "{{lookup a 'n'}}", "{{lookup . s}}", "{{\"n\"}}", "{{12}}", "{{true}}", "{{null}}", "{{[x y]}}",
        "{{> p}}", "{{> p a}}", "{{> p n='H'}}", "{{> (lookup . 's')}}", "  {{> ml}}\n", "{{#> p}}B{{n}}{{/p}}", "{{#> none}}D{{n}}{{/none}}", "{{#> pb}}B{{n}}{{/pb}}", "{{> @partial-block}}", "{{> none}}", "{{> rc}}", "{{! c }}", "{{!-- }} --}}", "\\{{n}}", "\\\\{{n}}", "{{~n~}} ", " {{~#if n~}} y {{~/if~}} ",
        "{{fail}}", "{{unknown 1}}", "{{{{raw}}}}{{n}} {{{{/raw}}}}", "{{cnt}}", "{{arr}}{{map.n}}", "{{f}}", "{{o.f 1}}", "{{#blk n}}b{{n}}{{this}}{{else}}e{{/blk}}", "{{#blk2}}2{{else}}E{{/blk2}}", "{{#if (id n)}}I{{else if s}}S{{else}}N{{/if}}", "{{#unless n}}U{{/unless}}", "{{#each l}}{{.}},{{else}}none{{/each}}", "{{^l}}inv{{/l}}", "{{^zz}}inv{{n}}{{/zz}}", "{{log n}}"};
    return l;
}
inline const L & blocks() {
    static const L l = {"$B", "{{#if n}}$B{{/if}}", "{{#if zz}}no{{else}}$B{{/if}}", "{{#each l}}$B{{/each}}", "{{#each m}}$B{{/each}}", "{{#with a}}$B{{/with}}", "{{#a}}$B{{/a}}", "{{#m}}$B{{/m}}", "{{#l}}$B{{/l}}", "{{^zz}}$B{{/zz}}", "{{#each l as |v w|}}$B{{/each}}", "{{#with a as |v|}}$B{{/with}}", "{{#blk a}}$B{{/blk}}", "{{#blk2}}$B{{else}}-{{/blk2}}", "{{#> p}}$B{{/p}}", "{{#> pb}}$B{{/pb}}", "{{#> none}}$B{{/none}}", "{{#rec 1}}$B{{/rec}}", "{{#each zz}}q{{else}}$B{{/each}}", "a{{#if zz}}1{{else if n}}$B{{else}}3{{/if}}b", "{{#unless zz}}$B$B{{/unless}}", " {{#if n}} \n$B\n {{/if}}\n"};
    return l;
}
inline Setup * setup(unsigned long flags = 0) {
    Setup * s = new Setup;
    s->flags = flags;
    s->helpers = {{"rec", HF_REC}, {"id", HF_ID}, {"safe", HF_SAFE}, {"fail", HF_THROW}, {"blk", HF_BLK}, {"blk2", HF_BLK2}, {"cnt", HF_COUNT}, {"arr", HF_ARR}, {"raw", HF_BLK2}};
    s->partials = {part("p", "[{{n}}{{#each l}}{{this}}{{/each}}{{@key}}]"), part("pb", "<{{> @partial-block}}|{{n}}>"), part("ml", "1 {{n}}\n2\n"), part("rc", "{{#if a}}{{> p}}{{#with a}}{{> rc}}{{/with}}{{/if}}."), part("pp", "{{#> pb}}{{> p}}{{> @partial-block}}{{/pb}}")};
    return s;
}
inline const L & texts() {
    static const L l = {"{n:'N<&>',s:'p',a:{n:'AN',b:{n:'ABN'}},l:[1,'two',null],m:{x:{n:'mx'},y:7},f:$rec,o:{f:$id,n:'on'},map:{n:'mn'}}", "{n:0,s:'ml',a:[{n:1},{n:2}],l:[],m:{},f:'plain'}", "{n:'',s:null,a:{n:[1,[2]],a:{n:'aan'}},l:[{n:'l0'},{n:'l1',a:{}}],m:[{x:1}],f:$safe}"};
    return l;
}
inline L templates(int depth) {
    L r;
    for (auto & p : pieces()) for (auto & b : blocks()) r.push_back(put(b, p));
    if (depth > 1) for (auto & p : pieces()) for (auto & b : blocks()) for (auto & c : blocks()) if (b != "$B" && c != "$B") r.push_back(put(b, put(c, p)));
    if (depth > 1) for (auto & p : pieces()) for (auto & q : pieces()) r.push_back(p + q);
    return r;
}
}
