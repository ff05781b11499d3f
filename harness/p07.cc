#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
static std::string put(std::string h, const std::string & b) { for (size_t p; (p = h.find("$B")) != std::string::npos;) h.replace(p, 2, b); return h; }
// a template written with changing delimiters, and the same with the default ones (\1 stands for a literal brace)
struct Two { std::string src, def; };
struct DGen {
    L texts, tags; std::vector<std::pair<std::string, std::string>> delims; std::vector<Two> out; unsigned max;
    // does the source split into text and tags exactly where it was meant to?
    static bool clean(const std::string & text, const std::string & open) {
        for (size_t i = 0; i + 1 <= text.size(); i++) if (text.compare(i, open.size(), open) == 0) return false;
        return true;
    }
    void go(unsigned left, const Two & cur, int d, std::vector<std::string> st, const std::string & tail) {
        if (st.empty() && (tail.empty() || clean(tail, delims[d].first))) out.push_back(cur);
        if (left <= 0 || st.size() > left) return;
        const std::string & o = delims[d].first, & c = delims[d].second;
        if (tail.empty()) for (auto & t : texts) {
            Two n = cur; n.src += t; auto ends = [&](const char * e) { size_t l = strlen(e); return cur.def.size() >= l && !cur.def.compare(cur.def.size() - l, l, e); };
            if (!d && t[0] == '}' && ends("}}") && !ends("{{!}}")) continue;   // in default delimiters, part of the tag
            for (char ch : t) n.def += ch == '{' ? '\1' : ch == '}' ? '\2' : ch;
            if (clean(t, o)) go(left - 1, n, d, st, t);
        }
        // the open delimiter must first occur where the tag starts
        auto follows = [&](const std::string & o) { return (tail + o).find(o) == tail.size() && !(o[0] == '{' && !tail.empty() && tail.back() == '{'); };
        if (!follows(o) || (tail == "{" && d)) return;   // "{" right before a custom tag: space brace-tag
        for (auto & t : tags) {
            auto s2 = st;
            if (t[0] == '#' || t[0] == '^') s2.push_back(t.substr(1, t.find(' ') == std::string::npos ? std::string::npos : t.find(' ') - 1));
            if (t[0] == '/') { if (s2.empty() || s2.back() != t.substr(1)) continue; s2.pop_back(); }
            if (t.find(c) != std::string::npos) continue;
            Two n = cur; n.src += o + t + c; n.def += "{{" + t + "}}";
            go(left - 1, n, d, s2, "");
        }
        for (size_t k = 0; k < delims.size(); k++) {
            Two n = cur; n.src += o + "=" + delims[k].first + " " + delims[k].second + "=" + c; n.def += "{{!}}";
            go(left - 1, n, k, st, "");
        }
    }
};
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P07";
    m.rule = "every nesting of sections and lookups with the compatibility option, every sequence of text, tags and set-delimiter tags up to the listed length (judged by the same template in default delimiters), and every placement of every lambda, for every context; non-trivial: distinct outputs or errors, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    // 1: lookups and sections
    Setup * s = new Setup; s->flags = ref::F_COMPAT; s->helpers = {{"id", HF_ID}};
    s->partials = {part("p", "<{{n}}{{x}}>"), part("pl", "{{#l}}{{n}}\n{{/l}}\n")};
    auto cx = new std::vector<Ctx>(ctxs({"{n:'T',x:'X',a:{n:'A',b:{y:'Y',a:[1]}},l:[{n:1},{x:2},3],t:true,f:false,e:[],s:'str',z:0}", "{a:{b:{c:{}}},l:[[1,2],[{n:'q'}]],n:null,t:'',e:{},x:{n:'xn'}}", "{l:{n:'ln',l:[{x:1,l:[{}]}]},a:[{a:[{n:5}]}],n:'N',x:[],b:'B'}", "{n:{n:{n:'deep'}},l:[null,'',0,{}],a:{n:null},x:'X'}"}));
    L heads = {"{{#a}}$B{{/a}}", "{{#l}}$B{{/l}}", "{{^a}}$B{{/a}}", "{{^e}}$B{{/e}}", "{{#b}}$B{{/b}}", "{{#x}}$B{{/x}}", "{{#n}}$B{{/n}}", "{{#t}}$B{{/t}}", "{{^n}}$B{{/n}}", "{{#each l}}$B{{/each}}", "{{#with a}}$B{{/with}}", "{{#if a}}$B{{else}}$B{{/if}}", "{{#.}}$B{{/.}}", "{{#a.b}}$B{{/a.b}}", "{{^l}}$B{{/l}}", "{{#l}}$B{{^}}-$B{{/l}}", "{{#s}}$B{{/s}}", "{{#z}}$B{{/z}}", "{{#each l as |n|}}$B{{/each}}", "{{#with a as |x|}}$B{{/with}}"};
    L bodies = {"{{n}}", "{{x}}", "{{.}}", "{{this}}", "{{a.n}}", "{{n.n}}", "{{this.n}}", "{{./x}}", "{{../x}}", "{{../../n}}", "{{x.n}}", "{{b}}", "{{zz}}", "{{id n}}", "{{id x.n}}", "{{> p}}", "{{> nope}}", "{{> nope n}}", "{{> p a}}", "{{#if x}}{{x}}{{/if}}", "{{&x}}{{{n}}}", "{{lookup . 'x'}}", "{{@index}}{{@root.n}}", "{{#zz}}z{{/zz}}", "{{^zz}}{{n}}{{/zz}}", "{{y}}{{c}}", "{{t}}{{f}}{{z}}", "{{> p x=n}}", "{{> p n=5}}", "{{#> nope}}{{n}}{{/nope}}", "{{#> p}}{{/p}}"};
    L * t1 = new L(bodies), * t2 = new L, * t3 = new L;
    for (auto & h : heads) for (auto & b : bodies) t1->push_back(put(h, b));
    for (auto & h : heads) for (auto & g : heads) for (auto & b : bodies) t2->push_back(put(h, put(g, b)));
    L in = {"{{n}}{{x}}", "{{.}}", "{{a.n}}{{../n}}", "{{> p}}"};
    for (auto & h : heads) for (auto & g : heads) for (auto & f : heads) for (auto & b : in) { if (!th && &b != &in[0]) continue; t3->push_back(put(h, put(g, put(f, b)))); }
    product(m, "names", s, t1, cx); product(m, "names2", s, t2, cx); product(m, "names3", s, t3, cx);
    Setup * s0 = new Setup(*s); s0->flags = 0;
    product(m, "names-off", s0, t1, cx);
    // partials: lines, indentation
    L * t4 = new L;
    for (auto a : {"", "x", " ", "\n", "a\n"}) for (auto i : {"", "  ", "\t"}) for (auto c : {"{{> p}}", "{{> pl}}", "{{> nope}}", "{{#l}}\n  {{> pl}}\n{{/l}}"}) for (auto e : {"", "\n", "\ny", " z"}) t4->push_back(std::string(a) + i + c + e);
    product(m, "partial-lines", s, t4, cx);
    // 2: delimiters
    auto cd = new std::vector<Ctx>(ctxs({"{n:'<N>',a:{n:'A'},l:[{n:1},{n:2}]}", "{a:0,l:[],n:'{{n}}'}"}));
    auto delimspace = [&](const char * name, DGen g) {
        g.go(g.max, {"", ""}, 0, {}, "");
        auto * out = new std::vector<Two>(std::move(g.out));
        m.add(name, out->size() * cd->size(), [=](hx::Case & c) {
            auto & t = (*out)[c.idx / cd->size()]; auto & x = (*cd)[c.idx % cd->size()];
            hreq rq = req(*s, t.def, x), rc = req(*s, t.src, x);
            ref::Out o;
            try { o = ref::render(rq, x.v); } catch (std::exception & e) { c.fail("P07", std::string("model: ") + e.what()); return; }
            for (char & ch : o.out) ch = ch == '\1' ? '{' : ch == '\2' ? '}' : ch;
            hb_render(&rc, &RS); c.transitions();
            compare(c, "P07", RS, o);
        }, [=](uint64_t i) { auto & t = (*out)[i / cd->size()]; return show(*s, t.src, (*cd)[i % cd->size()]) + " (as '" + hx::esc(t.def) + "')"; }, 256);
    };
    typedef std::vector<std::pair<std::string, std::string>> D;
    D base = {{"{{", "}}"}};
    auto with = [&](D d) { d.insert(d.begin(), base[0]); return d; };
    delimspace("delims", DGen{{" ", "\n", "a", "{{", "{", "|", "}}"}, {"n", "{n}", "&n", "#a", "/a", "^a", "! c"}, with({{"<%", "%>"}, {"|", "|"}}), {}, th ? 6u : 4u});
    delimspace("delims-odd", DGen{{"\n", "x", "(", "%", "[", "="}, {"n", " n ", "#l", "/l", "> p"}, with({{"((", "))"}, {"[", "]"}, {"<<<", ">"}, {"%", "%"}, {"\"", "'"}, {"$", "^^"}}), {}, th ? 5u : 4u});
    delimspace("delims-lines", DGen{{" ", "\n", "\r\n", "a"}, {"n", "#a", "/a"}, with({{"@", "@"}}), {}, th ? 7u : 5u});
    // the forms of the tag itself
    {
        L * t = new L; L * d = new L;
        for (auto pre : {"", "a", " ", "\n"}) for (auto sp1 : {"", " ", "  "}) for (auto sp2 : {" ", "  ", "   "}) for (auto sp3 : {"", " ", "  ", "   "}) for (auto o : {"|", "<%", "x", "{{"}) for (auto cl : {"]", "%>", "|]|"}) for (auto post : {"", "b", "\n"}) {
            t->push_back(std::string(pre) + "{{=" + sp1 + o + sp2 + cl + sp3 + "=}}" + post + o + "n" + cl); d->push_back(std::string(pre) + "{{!}}" + post + "{{n}}");
            // and from there once more
            t->push_back(t->back() + post + o + "=" + sp1 + "$" + sp2 + "@" + sp3 + "=" + cl + post + "$a.n@"); d->push_back(d->back() + post + "{{!}}" + post + "{{a.n}}");
        }
        // malformed
        for (auto x : {"{{=", "{{=}}", "{{= }}", "{{==}}", "{{= =}}", "{{=x=}}", "{{=x =}}", "{{= x =}}", "{{=x y}}", "{{=x y=", "{{=x y=}", "{{=x y= }}", "{{=x", "{{=x ", "{{=x y", "{{=  ", "{{=x  =}}a", "{{=<% %>=}}<%=a b=}}"}) { t->push_back(x); d->push_back("{{#"); }
        m.add("delim-forms", t->size(), [=](hx::Case & c) {
            auto & x = (*cd)[0];
            hreq rq = req(*s, (*d)[c.idx], x), rc = req(*s, (*t)[c.idx], x);
            ref::Out o = ref::render(rq, x.v);
            hb_render(&rc, &RS); c.transitions();
            compare(c, "P07", RS, o);
        }, [=](uint64_t i) { return show(*s, (*t)[i], (*cd)[0]); });
    }
    // what default delimiters cannot express
    {
        struct B { std::string t, o; }; auto b = new std::vector<B>{{"{{=<% %>=}}{<%n%>", "{&lt;N&gt;"}, {"{{=<% %>=}}{<%&n%>", "{<N>"}, {"{{=<% %>=}}{<%{n}%>", "{<N>"}, {"{{=<% %>=}}{<%#a%>{<%/a%>", "{{"}};
        m.add("brace-tag", b->size(), [=](hx::Case & c) {
            hreq rq = req(*s, (*b)[c.idx].t, (*cd)[0]); ref::Out o; o.out = (*b)[c.idx].o;
            hb_render(&rq, &RS); c.transitions(); compare(c, "P07", RS, o);
        }, [=](uint64_t i) { return show(*s, (*b)[i].t, (*cd)[0]); });
    }
    // 3: lambdas
    auto cl = new std::vector<Ctx>(ctxs({"{n:'N&',x:{n:'xn',f:$lamval},f:$lambda,g:$lamtmpl,v:$lamval,r:$rec,e:$null,a:[{n:1},{n:2}],k:$count,o:$map,b:$false,i:$id}", "{n:0,f:$lamval,g:$lamval,v:$lamtmpl,r:$lamscope,e:$false,x:{n:{n:1}},a:[$lamval],i:$lamtmpl}"}));
    L lamb = {"x", "{{n}}", "{{n}} {{n}}", "", "{{#x}}{{n}}{{/x}}", "{{{n}}}", "{{#a}}{{n}},{{/a}}", "{{f}}", "{{#g}}{{n}}{{/g}}", "{{> p}}", "{{.}}", "{{&n}}", "{{^zz}}{{n}}{{/zz}}", "a b"};
    L lamh = {"{{f}}", "{{{f}}}", "{{&v}}", "{{v}}", "{{#f}}$B{{/f}}", "{{#g}}$B{{/g}}", "{{#v}}$B{{/v}}", "{{^f}}$B{{/f}}", "{{#e}}$B{{/e}}", "{{e}}", "{{#i}}$B{{/i}}", "{{#x}}{{#g}}$B{{/g}}{{/x}}", "{{#a}}{{#v}}$B{{/v}}{{/a}}", "{{#x}}{{f}}$B{{/x}}", "{{#k}}$B{{/k}}{{k}}", "{{#b}}$B{{/b}}", "{{#g}}{{#g}}$B{{/g}}{{/g}}", "{{#v}}$B{{/v}}{{#v}}$B{{/v}}", "{{x.f}}", "{{#x.f}}$B{{/x.f}}", "{{i n}}", "{{g}}", "{{r}}", "{{#if f}}$B{{/if}}", "{{#a}}{{.}}{{/a}}"};
    L * t5 = new L;
    for (auto & h : lamh) { if (h.find("$B") == std::string::npos) t5->push_back(h); else for (auto & b : lamb) t5->push_back(put(h, b)); }
    L * t5m = new L;   // in the mustache style, nothing of the result may depend on how the section is printed
    for (auto & t : *t5) t5m->push_back(t);
    Setup * sl = new Setup(*s); sl->flags = ref::F_COMPAT | ref::F_MUSTACHE;
    Setup * sp = new Setup(*s); sp->flags = 0;
    { // a lambda is given, and rendered with, the delimiters in force where it stands
        struct B { std::string t, o; }; auto b = new std::vector<B>{{"{{=| |=}}|#g|n|/g|", "n-n"}, {"|#g|n|/g|{{=| |=}}|#g|n|/g|", "|#g|n|/g|n-n"}, {"{{=| |=}}|#v|x|/v|", "{{n}}"}, {"{{=| |=}}|={{ }}=|{{#v}}x{{/v}}", "N&amp;"}, {"{{=| |=}}|#g||n||/g|", "N&amp;-N&amp;"}};
        m.add("lambda-delims", b->size(), [=](hx::Case & c) {
            hreq rq = req(*sl, (*b)[c.idx].t, (*cl)[0]); ref::Out o; o.out = (*b)[c.idx].o;
            hb_render(&rq, &RS); o.calls = RS.calls; c.transitions(); compare(c, "P07", RS, o);
        }, [=](uint64_t i) { return "template '" + (*b)[i].t + "'"; });
    }
    product(m, "lambdas", s, t5, cl); product(m, "lambdas-mustache", sl, t5m, cl); product(m, "lambdas-plain", sp, t5, cl);
    return m.go(argc, argv);
}
