// Strings of lexical pieces: the domains of the grammar checks.
#pragma once
#include "lang.hpp"
namespace gram {
typedef std::vector<std::string> L;
typedef void (*Fn)(hx::Case &, const std::string &);
inline void strings(hx::Main & m, Fn check, const char * name, const L & alpha, unsigned len, const std::string & pre = "", const std::string & post = "") {
    auto a = new L(alpha); uint64_t n = hx::nstrings(a->size(), len);
    auto mk = [=](uint64_t i) { std::string s = pre; for (unsigned k : hx::nthseq(i, a->size())) s += (*a)[k]; return s + post; };
    m.add(name, n, [=](hx::Case & c) { check(c, mk(c.idx)); }, [=](uint64_t i) { return "template '" + hx::esc(mk(i)) + "'"; }, 1024);
}
inline void add(hx::Main & m, Fn check) {
    bool th = m.thorough();
    L tags = {"{{#a}}", "{{/a}}", "{{/b}}", "{{#b}}", "{{else}}", "{{^}}", "{{^a}}", "{{else if x}}", "{{else b}}", "{{> a}}", "{{#> a}}", "{{{{a}}}}", "{{{{/a}}}}", "{{{{/b}}}}", "{{a}}", "{{{a}}}", "{{! c}}", "\n", "x"};
    strings(m, check, "tags", tags, th ? 5 : 4);
    strings(m, check, "tags-strip", {"{{~#a~}}", "{{~/a}}", "{{~else~}}", "{{~^~}}", "{{a~}}", "{{~> p}}", "{{~!c~}}", "{{#a}}", "{{/a~}}", " ", "\n", "{{~#> a}}", "{{else b~}}"}, th ? 6 : 5);
    L inner = {"a", "b", " ", ".", "..", "/", "this", "@", "1", "-1.5", "\"s\"", "'t'", "true", "null", "undefined", "=", "(", ")", "|", "as |", "~", "#", "^", "&", ">", "!", "else", "[x y]", "*", "\n", "}", "{", "%", "\\"};
    unsigned n = th ? 4 : 3;
    strings(m, check, "inner", inner, n, "{{", "}}");
    strings(m, check, "inner-block", inner, n, "{{#", "}}x{{/a}}");
    strings(m, check, "inner-close", inner, n, "{{#a}}{{/", "}}");
    strings(m, check, "inner-inv", inner, n, "{{^", "}}x{{/a}}");
    strings(m, check, "inner-partial", inner, n, "{{> ", "}}");
    strings(m, check, "inner-pblock", inner, n, "{{#> ", "}}{{/a}}");
    strings(m, check, "inner-unesc", inner, n, "{{{", "}}}");
    strings(m, check, "inner-raw", inner, n, "{{{{", "}}}}x{{{{/a}}}}");
    strings(m, check, "inner-sexpr", inner, n, "{{a (", ")}}");
    strings(m, check, "inner-chain", inner, n, "{{#a}}{{else ", "}}{{/a}}");
    strings(m, check, "inner-hash", inner, n, "{{a b=", "}}");
    strings(m, check, "inner-params", {"a", " ", "\n", "b=", "c", "1", "(", ")", "|", "as |", "@a", "../"}, th ? 6 : 5, "{{#a ", "}}{{/a}}");
    strings(m, check, "chars", {"{", "}", "a", "/", "#", "^", "~", "!", "-", " ", "\n", "\\", "\"", ".", ">"}, th ? 6 : 5);
    strings(m, check, "chars-open", {"{", "}", "a", "/", "#", "~", "!", "-", "\n", "\\", "\"", "]", "[", "&", "="}, th ? 6 : 4, "{{");
    strings(m, check, "comments", {"-", "}", "~", "a", "{", "!", "\n"}, th ? 8 : 6, "{{!", "}}b");
    strings(m, check, "raw-body", {"{{{{a}}}}", "{{{{/a}}}}", "{{{{b}}}}", "{{{{/b}}}}", "{", "{{a}}", "\n", "}}", "{{{{", "/"}, th ? 6 : 5, "{{{{a}}}}", "{{{{/a}}}}");
    strings(m, check, "escapes", {"\\", "{{", "a", "}}", "\n", "{", " "}, th ? 7 : 6);
}
}
