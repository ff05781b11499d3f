#include "lang.hpp"
#include "grammar.hpp"
#include "suite.hpp"
using namespace lang;
static thread_local hparse HP;
static std::string S(const hres & r) { return std::string(r.out ? r.out : "", r.outlen); }
static thread_local hres A, B;
static void rendered(hx::Case & c, const Setup & s, const std::string & t, const Ctx & x) {
    hreq rq = req(s, t, x);
    hb_render(&rq, &A);
    rq.pipe = HP_REPRINT; hb_render(&rq, &B); c.transitions(2);
    c.outcome(S(A));
    if (A.err != B.err || (A.err ? strcmp(A.msg, B.msg) : S(A) != S(B)) || A.calls != B.calls) c.fail("P10", "printed and parsed again: " + showres(B) + "; as written: " + showres(A));
}
static void check(hx::Case & c, const std::string & t) {
    // "{{. .a}}": the grammar allows whitespace between the pieces of a path, and its text "..a" then reads as another path
    for (size_t i = 0; i + 2 < t.size(); i++) if (t[i] == '.') { size_t k = i + 1; while (k < t.size() && isspace((unsigned char) t[k])) k++; if (k > i + 1 && k < t.size() && t[k] == '.') { c.skip(); return; } }
    if (t.find("\\\\]") != std::string::npos) { c.skip(); return; } // a literal segment cannot be written with a backslash at its end
    hb_parse(t.data(), t.size(), 0, 1 | 2, &HP); c.transitions();
    if (HP.tree.err) { c.outcome("rejected"); return; }
    std::string p = S(HP.print);
    c.outcome(p);
    if (HP.print.err) { c.fail("P10", fmt("cannot be printed: %s", HP.print.msg)); return; }
    if (!HP.shared) { c.fail("P10", "printing changed the syntax tree"); return; }
    if (HP.tree2.err) { c.fail("P10", fmt("printed as '%s', which is rejected: %s", hx::esc(p).c_str(), HP.tree2.msg)); return; }
    if (S(HP.tree2) != S(HP.tree)) { c.fail("P10", "printed as '" + hx::esc(p) + "', whose tree is " + hx::esc(S(HP.tree2)) + " instead of " + hx::esc(S(HP.tree))); return; }
    if (S(HP.print2) != p) { c.fail("P10", "printed as '" + hx::esc(p) + "', which prints as '" + hx::esc(S(HP.print2)) + "'"); return; }
}
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P10";
    m.rule = "every accepted string of the listed lexical pieces up to the listed length: printing it, parsing that and printing again gives the same tree and the same text; non-trivial: distinct printed texts, by hash";
    m.parse(argc, argv);
    gram::add(m, check);
    auto tl = new suite::L(suite::templates(m.thorough() ? 2 : 1));
    auto cx = new std::vector<Ctx>; for (auto & t : suite::texts()) cx->push_back(ctx(t));
    for (unsigned long f : {0ul, 1ul, 1ul << 12 | 1}) {
        auto s = suite::setup(f);
        m.add(fmt("rendered-%lu", f), tl->size() * cx->size(), [=](hx::Case & c) { rendered(c, *s, (*tl)[c.idx / cx->size()], (*cx)[c.idx % cx->size()]); }, [=](uint64_t i) { return show(*s, (*tl)[i / cx->size()], (*cx)[i % cx->size()]); }, 64);
    }
    return m.go(argc, argv);
}
