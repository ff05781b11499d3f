#include "lang.hpp"
#include "dump.hpp"
#include "grammar.hpp"
using namespace lang;
static thread_local hparse HP;
// which token texts cover the input: whitespace and the marks a token's text leaves out are dropped from both
static std::string bare(const std::string & s) { std::string r; for (char c : s) if (!strchr(" \t\r\n\"'[]\\", c) || !c) r += c; return r; }
static void check(hx::Case & c, const std::string & t) {
    hb_parse(t.data(), t.size(), 0, 1 | 4, &HP); c.transitions();
    std::string want, msg; int line = 0; bool err = false;
    try { want = ref::dump(ref::parse(t)); } catch (ref::Err & e) { err = true; line = e.line; msg = e.msg; }
    std::string got(HP.tree.out, HP.tree.outlen);
    if (err != (HP.tree.err != 0)) { c.fail("P09", err ? fmt("accepted as %s; not a template: line %d: %s", hx::esc(got).c_str(), line, msg.c_str()) : fmt("rejected: line %d: %s; defined: %s", HP.tree.line, HP.tree.msg, hx::esc(want).c_str())); return; }
    if (!err && got != want) { c.fail("P09", "tree " + hx::esc(got) + "; defined: " + hx::esc(want)); return; }
    if (err && HP.tree.line != line) { c.fail("P09", fmt("error reported on line %d (%s), is on line %d (%s)", HP.tree.line, HP.tree.msg, line, msg.c_str())); return; }
    c.outcome(err ? fmt("E%d", line) + msg.substr(0, 30) : want);
    // coverage
    if (!err && t.find("{{{{") == std::string::npos) {
        std::string all; size_t p = 0; std::string k(HP.tokens.out, HP.tokens.outlen);
        while (p < k.size()) { size_t a = k.find('\1', p), b = k.find('\2', a); all += k.substr(a + 1, b - a - 1); p = b + 1; }
        if (bare(all) != bare(t)) c.fail("P09", "tokens cover '" + hx::esc(bare(all)) + "' of '" + hx::esc(bare(t)) + "'");
    }
}
int main(int argc, char ** argv) {
    hx::Main m;
    m.prop = "P09";
    m.rule = "every string of the listed lexical pieces up to the listed length, alone and inside each kind of tag: accepted exactly if the grammar derives it, with exactly the tree it derives, the line of the error, and tokens that cover the text; non-trivial: distinct trees and errors, by hash";
    m.parse(argc, argv);
    gram::add(m, check);
    return m.go(argc, argv);
}
