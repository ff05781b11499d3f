#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
static std::string put(std::string h, const std::string & b) { for (size_t p; (p = h.find("$B")) != std::string::npos;) h.replace(p, 2, b); return h; }
static const unsigned long BIT[] = {ref::F_STRICT, ref::F_ASSUME, ref::F_NOESCAPE, ref::F_KNOWNONLY, ref::F_EXPLICIT, ref::F_PREVENTINDENT, ref::F_COMPAT, ref::F_DATA, ref::F_MUSTACHE};
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P08";
    m.rule = "every combination of the nine options (strict, assume objects, no escape, known helpers only, explicit partial context, prevent indent, compat, data, mustache lambdas) with every template made of up to two nested constructs, and every context; non-trivial: distinct outputs or errors, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    Setup base; base.helpers = {{"id", HF_ID}, {"blk", HF_BLK}, {"rec", HF_REC}, {"unk", HF_REC}};
    base.known = {"id", "blk", "rec"};
    base.partials = {part("p", "<{{n}}{{a.b}}>"), part("pb", "[{{> @partial-block}}]"), part("ml", "x\n{{n}}\ny\n"), part("pm", "{{zz}}")};
    auto cx = new std::vector<Ctx>(ctxs({"{n:'<N>',a:{b:'B&',c:{d:1}},l:[{n:1},{n:'<2>'},3],t:true,f:false,e:[],u:null,fn:$lambda,g:$lamtmpl}", "{n:null,a:null,l:[],t:'',x:{y:{}}}", "{a:'str',l:{k:{n:'K'},j:2},n:0,t:1,a2:[[1]],f:{},u:{n:'un'}}", "'scalar'", "{}"}));
    L atoms = {"{{n}}", "{{{n}}}", "{{&n}}", "{{zz}}", "{{a.b}}", "{{a.zz}}", "{{zz.n}}", "{{a.c.d}}", "{{a.zz.d}}", "{{this}}", "{{this.n}}", "{{this.zz}}", "{{../n}}", "{{../zz}}", "{{@root.n}}", "{{@zz}}", "{{@index}}{{@key}}", "{{@first}}", "{{id n}}", "{{id zz}}", "{{id a.zz}}", "{{id zz.q}}", "{{id n k=zz}}", "{{rec n k=a.b}}", "{{unk n}}", "{{unk}}", "{{nohelp n}}", "{{nohelp}}", "{{fn}}", "{{#fn}}x{{/fn}}", "{{#g}}{{n}}{{/g}}", "{{lookup a 'b'}}", "{{lookup a 'zz'}}", "{{lookup zz 'a'}}", "{{> p}}", "{{> p a}}", "{{> p zz}}", "{{> p a k=n}}", "{{> p n=5}}", "{{> nope}}", "{{> pm}}", "{{> (id 'p')}}", " {{> ml}}\n", "  {{> ml}} ", "\n\t{{> ml n='Q'}}\nz", "{{#> p}}x{{/p}}", "{{#> pb}}{{n}}{{/pb}}", "{{#> nope}}{{n}}{{/nope}}", "{{#> nope a}}{{b}}{{/nope}}", "  {{#> pb}}\n  {{n}}\n  {{/pb}}\n", "{{#if zz}}y{{else}}n{{/if}}", "{{#unless zz}}y{{/unless}}", "{{#if a.zz}}y{{/if}}", "{{#with zz}}y{{else}}n{{/with}}", "{{#each zz}}y{{else}}n{{/each}}", "{{#zz}}y{{/zz}}", "{{^zz}}n{{/zz}}", "{{#zz.n}}y{{/zz.n}}", "{{#a.zz}}y{{/a.zz}}", "{{#if (id zz)}}y{{/if}}", "{{(id zz)}}", "{{id (id zz)}}", "{{.}}", "{{./n}}", "{{./zz}}", "{{[n]}}", "{{'n'}}", "{{'zz'}}", "{{1}}", "{{true}}", "{{undefined}}", "{{null}}", "{{id undefined}}", "{{{{id n}}}} {{x}} {{{{/id}}}}", "{{{{n}}}}r{{{{/n}}}}", "<&>{{! c }}", "{{l.[0].n}}", "{{l.[9]}}", "{{l.[9].n}}", "{{#unk}}{{n}}{{/unk}}", "{{#unk n}}{{n}}{{/unk}}", "{{#nohelp n}}x{{/nohelp}}", "{{#blk a}}{{b}}{{/blk}}", "{{#blk a as |q|}}{{q.b}}{{q.zz}}{{/blk}}", "{{n}}{{zz}}", "{{helperMissing}}", "{{#blk zz}}{{zz}}{{/blk}}"};
    L heads = {"$B", "{{#if n}}$B{{else}}-$B{{/if}}", "{{#each l}}$B{{/each}}", "{{#with a}}$B{{/with}}", "{{#a}}$B{{/a}}", "{{#l}}$B{{/l}}", "{{^zz}}$B{{/zz}}", "{{#with a as |n|}}$B{{/with}}", "{{#each l as |zx n|}}$B{{/each}}", "{{#blk a}}$B{{/blk}}", "{{#> pb}}$B{{/pb}}", "{{#> nope}}$B{{/nope}}", "{{#unless zz}}$B{{/unless}}", "{{#each l}}{{#with ../a}}$B{{/with}}{{/each}}", "{{#u}}$B{{/u}}"};
    L * t = new L;
    for (auto & h : heads) for (auto & a : atoms) t->push_back(put(h, a));
    if (th) for (auto & h : heads) for (auto & g : heads) if (h != "$B" && g != "$B") for (auto & a : atoms) t->push_back(put(h, put(g, a)));
    auto su = new std::vector<Setup>;
    for (unsigned f = 0; f < 512; f++) { Setup s = base; s.flags = 0; for (int i = 0; i < 9; i++) if (f >> i & 1) s.flags |= BIT[i]; su->push_back(s); }
    // quick: all combinations for single constructs, pairs of options for nested ones
    size_t n1 = atoms.size();
    m.add("all-options", 512ull * n1 * cx->size(), [=](hx::Case & c) { hx::Mix x(c.idx); auto & s = (*su)[x.pick(512)]; size_t k = x.pick(cx->size()); one(c, "P08", s, (*t)[x.v], (*cx)[k]); },
        [=](uint64_t i) { hx::Mix x(i); auto & s = (*su)[x.pick(512)]; size_t k = x.pick(cx->size()); return show(s, (*t)[x.v], (*cx)[k]); }, 256);
    auto few = new std::vector<unsigned>; for (unsigned f = 0; f < 512; f++) if (__builtin_popcount(f) <= (th ? 9 : 1)) few->push_back(f);
    uint64_t nf = few->size();
    m.add("nested", nf * (t->size() - n1) * cx->size(), [=](hx::Case & c) { hx::Mix x(c.idx); auto & s = (*su)[(*few)[x.pick(nf)]]; size_t k = x.pick(cx->size()); one(c, "P08", s, (*t)[n1 + x.v], (*cx)[k]); },
        [=](uint64_t i) { hx::Mix x(i); auto & s = (*su)[(*few)[x.pick(nf)]]; size_t k = x.pick(cx->size()); return show(s, (*t)[n1 + x.v], (*cx)[k]); }, 256);
    return m.go(argc, argv);
}
