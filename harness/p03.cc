#include "lang.hpp"
using namespace lang;
typedef std::vector<std::string> L;
struct Tk { const char * s; int kind; }; // 0 any, 1 open, 2 else, 3 close
static void gen(L & out, const std::vector<Tk> & al, unsigned left, std::string cur, std::vector<int> st, bool lasttext) {
    if (st.empty()) out.push_back(cur);
    if (!left || st.size() > left) return;
    for (auto & t : al) {
        auto s2 = st;
        if (t.kind == 1) s2.push_back(0);
        else if (t.kind == 2) { if (s2.empty() || s2.back()) continue; s2.back() = 1; }
        else if (t.kind == 3) { if (s2.empty()) continue; s2.pop_back(); }
        gen(out, al, left - 1, cur + t.s, s2, t.kind == 0);
    }
}
static L strips(const std::string & open, const std::string & close) { return {open + close, open.substr(0, 2) + "~" + open.substr(2) + close, open + close.substr(0, close.size() - 2) + "~}}", open.substr(0, 2) + "~" + open.substr(2) + close.substr(0, close.size() - 2) + "~}}"}; }
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P03";
    m.rule = "every sequence of tags and pieces of whitespace and text up to the listed length that forms a valid template, and every combination of strip marks and surroundings of the listed shapes, rendered for contexts that run either branch; non-trivial: distinct outputs, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    Setup * s = new Setup;
    s->partials = {part("p", "P\nQ\n"), part("q", " q "), part("b", "[\n {{> @partial-block}}\n]\n")};
    auto * cx = new std::vector<Ctx>(ctxs({"{t:1,n:'N'}", "{t:0,n:' '}"}));
    std::vector<Tk> a1 = {{" ", 0}, {"\n", 0}, {"a", 0}, {"{{#if t}}", 1}, {"{{^}}", 2}, {"{{/if}}", 3}, {"{{!c}}", 0}, {"{{>p}}", 0}, {"{{n}}", 0}};
    auto run = [&](const char * name, const std::vector<Tk> & al, unsigned n) { L * t = new L; gen(*t, al, n, "", {}, false); product(m, name, s, t, cx); };
    run("sequences", a1, th ? 7 : 5);
    run("blocks", {{" ", 0}, {"\n", 0}, {"a", 0}, {"{{#if t}}", 1}, {"{{else}}", 2}, {"{{/if}}", 3}}, th ? 9 : 7);
    run("lines", {{"\t", 0}, {"\r\n", 0}, {"\n", 0}, {"x", 0}, {"{{#t}}", 1}, {"{{/t}}", 3}, {"{{!-- c --}}", 0}, {"{{~! c}}", 0}, {"{{> p }}", 0}}, th ? 7 : 5);
    run("raw", {{" ", 0}, {"\n", 0}, {"{{{{n}}}} r {{{{/n}}}}", 0}, {"{{{n}}}", 0}, {"{{~{n}~}}", 0}, {"{{&n~}}", 0}, {"{{#> b}}", 1}, {"{{/b}}", 3}, {"{{> q}}", 0}}, th ? 7 : 5);
    run("marks", {{" ", 0}, {"\n", 0}, {"a", 0}, {"{{#if t~}}", 1}, {"{{~#if t}}", 1}, {"{{~^}}", 2}, {"{{else~}}", 2}, {"{{~/if}}", 3}, {"{{/if~}}", 3}, {"{{~n}}", 0}, {"{{n~}}", 0}}, th ? 7 : 5);
    // one block with an else, every surrounding and every combination of strip marks
    L W = {"", " ", "\n", "a", " \n ", "a \n", " a", "\n\n"};
    L w5 = {"", " ", "\n", " \n ", "a", "\n\n a"};
    L * t1 = new L;
    L o = strips("{{#if t", "}}"), e = strips("{{else", "}}"), c = strips("{{/if", "}}"), i = strips("{{^", "}}");
    if (th) expand(*t1, "$1$2$3$4$5$6$7", {W, o, W, e, W, c, W}); else expand(*t1, "$1$2$3$4$5$6$7", {L(w5.begin(), w5.begin() + 5), o, L(w5.begin(), w5.begin() + 5), e, L(w5.begin(), w5.begin() + 5), c, L(w5.begin(), w5.begin() + 5)});
    product(m, "else", s, t1, cx);
    L * t2 = new L;
    L n = strips("{{n", "}}"), cm = strips("{{!x", "}}"), p = strips("{{>p", "}}"), o2 = {"{{#if t}}", "{{~#if t}}", "{{#if t~}}"}, c2 = {"{{/if}}", "{{~/if}}", "{{/if~}}"};
    L any = n; any.insert(any.end(), cm.begin(), cm.end()); any.insert(any.end(), p.begin(), p.end()); any.push_back("{{~{n}~}}"); any.push_back("{{#t~}}{{~/t}}");
    expand(*t2, "$1$2$3$4$5", {W, any, W, any, W});
    expand(*t2, "$1$2$3$4$5$6$7", {{"", " ", "\n"}, o2, w5, any, w5, c2, {"", "\n", " a"}});
    product(m, "tags", s, t2, cx);
    L * t3 = new L;
    L w4 = {"", "\n", " ", " \n"};
    if (th) expand(*t3, "$1$2$3$4$5$6$7$8$9", {w4, o2, w4, o2, w4, c2, w4, c2, w4});
    else expand(*t3, "$1$2$3$4$5$6$7$8$9", {{"", " "}, o2, {"", "\n", " \n"}, o2, {"", "\n"}, c2, {"", "\n", " \n"}, c2, {"", "\n"}});
    product(m, "nested", s, t3, cx);
    L * t4 = new L;
    L ch = strips("{{else if n", "}}");
    expand(*t4, "$1$2$3$4$5$6$7$8$9", {{"", " "}, o2, {"", "\n", " \n"}, ch, {"x", "\n", " \n"}, th ? e : L{"{{else}}", "{{~^}}"}, {"y", "\n", " \n"}, c2, {"", "\n", "z"}});
    auto * cx3 = new std::vector<Ctx>(ctxs({"{t:1,n:'N'}", "{t:0,n:'N'}", "{t:0,n:0}"}));
    product(m, "chain", s, t4, cx3);
    return m.go(argc, argv);
}
