// P25: no input whatever corrupts memory or hangs
#include "suite.hpp"
#include "anyshim.h"
using namespace hx; using namespace lang; using B = std::string; typedef std::vector<B> L;
static thread_local ares A;
static int fd1 = -1, fd2 = -1;
static off_t written() {
    static int owner = 0;
    if (owner != getpid()) {
        owner = getpid();
        struct stat st;
        fd1 = memfd_create("1", MFD_CLOEXEC); dup2(fd1, 1);
        if (fstat(2, &st) || !S_ISREG(st.st_mode)) { fd2 = memfd_create("2", MFD_CLOEXEC); dup2(fd2, 2); } // alone, it goes to a file already
    }
    struct stat a, b; fstat(1, &a); fstat(2, &b);
    return a.st_size + b.st_size;
}
static B text(const hres & r) { return r.err ? fmt("error %d '%s'", r.err, r.msg) : "'" + esc(B(r.out ? r.out : "", r.outlen)) + "'"; }
static void any(Case & c, const Setup & s, const Ctx & x, const B & t, unsigned long flags, int as) {
    if (t.find(B("\0\xff", 2)) != B::npos && t.size() > 2) return c.skip(); // the listed finding: "\0\xff" alone stands for all
    off_t w = written();
    long blocks = an_blocks();
    Setup u = s; u.flags = flags;
    hreq rq = req(u, t, x);
    an_run(&rq, as, &A); c.transitions(as ? 2 : 6);
    for (auto & r : A.r) if (r.err && !r.msg[0]) c.fail("P25", "an error without a message");
    if (A.r[5].outlen) c.fail("P25", "its module does not verify");
    if (A.r[6].err != A.r[7].err || (A.r[6].err ? (bool) strcmp(A.r[6].msg, A.r[7].msg) : A.r[6].outlen != A.r[7].outlen || memcmp(A.r[6].out, A.r[7].out, A.r[6].outlen))) c.fail("P25", "rendered " + text(A.r[6]) + ", then " + text(A.r[7]));
    if (an_blocks() != blocks) c.fail("P25", fmt("%ld pieces of memory are left", an_blocks() - blocks));
    if (written() != w) c.fail("P25", "something was written to standard output or error");
    uint64_t h = 0; for (auto & r : A.r) h = hash(r.err ? B(r.msg) : B(r.out ? r.out : "", r.outlen), h + 1);
    c.outcome(h);
}
int main(int argc, char ** argv) {
    Main m;
    m.prop = "P25";
    m.rule = "every listed text through lexing, delimiter changes, parsing, both tree printers, compiling, the program printer, serializing, rendering with and without handler, as a template, a partial and a lambda's text, under the listed flags; non-trivial: distinct results, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    Setup * s = suite::setup();
    static Ctx x = ctx("{n:'N<&>',s:'p',a:{n:'AN',b:{n:'ABN'}},l:[1,'two',null],m:{x:{n:'mx'},y:7},f:$rec,o:{f:$id},lt:$lamtmpl,lv:$lamval,'':'empty'}");
    static const std::vector<unsigned long> fl = {0, 1, 1ul << 12 | 1, 2, 4, 6, 7 | 1ul << 7, 1ul << 3 | 1ul << 8, 1ul << 4, 1ul << 9, 1ul << 10, 1ul << 11, 1ul << 5 | 1ul << 6 | 1ul << 7, 1ul << 9 | 2 | 4 | 1ul << 4, 0x1fff};
    auto add = [&](const B & name, uint64_t n, std::function<B(uint64_t)> mk, std::vector<unsigned long> f, std::vector<int> as, unsigned chunk = 256) {
        uint64_t k = f.size() * as.size();
        m.add(name, n * k, [=](Case & c) { any(c, *s, x, mk(c.idx / k), f[c.idx % k / as.size()], as[c.idx % as.size()]); },
              [=](uint64_t i) { return fmt("%s '%s' flags %lu", as[i % as.size()] == 0 ? "template" : as[i % as.size()] == 1 ? "partial" : "lambda", esc(mk(i / k)).c_str(), f[i % k / as.size()]); }, chunk);
    };
    std::vector<unsigned long> f2 = {0, 1ul << 12 | 1}, f3 = {0, 7, 0x1fff};
    // every byte everywhere
    static const L around = {"%", "{{%}}", "{{#%}}a{{/%}}", "{{a \"%\"}}", "{{[%]}}", "{{! %}}", "{{=%}}", "x{{%", "{{> %}}", "{{{{raw}}}}%{{{{/raw}}}}", "{{#if n as |%|}}{{/if}}", "{{a %=1}}", "\\{{%", "{{~%~}}", "{{@%}}", "{{../%}}", "{{&%}}", "{{{%}}}", "{{^%}}", "{{else %}}"};
    auto bytes = [](uint64_t i, unsigned len) { B r; for (unsigned k = 0; k < len; k++, i /= 256) r += (char) (i & 255); return r; };
    auto in = [](B w, const B & b) { for (size_t p = 0; (p = w.find('%', p)) != B::npos; p += b.size()) w.replace(p, 1, b); return w; };
    add("byte", 256 * around.size(), [=](uint64_t i) { return in(around[i % around.size()], bytes(i / around.size(), 1)); }, fl, {0, 1, 2});
    add("two-bytes", 65536 * (th ? around.size() : 5), [=](uint64_t i) { size_t n = th ? around.size() : 5; return in(around[i % n], bytes(i / n, 2)); }, th ? f2 : std::vector<unsigned long>{0}, {0});
    static const B C = "{}#/^>~!=\"'[]()|a1 @.\\&*-\n";
    auto chars = [](uint64_t i) { B r; for (unsigned k : nthseq(i, C.size())) r += C[k]; return r; };
    add("characters", nstrings(C.size(), th ? 4 : 3), chars, th ? f3 : std::vector<unsigned long>{0, 0x1fff}, {0});
    add("characters-in-a-tag", nstrings(C.size(), th ? 4 : 3), [=](uint64_t i) { return "{{" + chars(i) + "}}"; }, th ? f3 : std::vector<unsigned long>{0, 0x1fff}, {0});
    // every sequence of pieces
    static const L P = {"{{", "}}", "{{#", "{{/", "{{^", "{{>", "{{#>", "{{{", "}}}", "{{{{", "}}}}", "{{{{/", "{{&", "{{!", "{{!--", "--}}", "{{=", "=}}", "{{*", "{{#*", "{{~", "~}}", "{{else", "{{else}}", "{{else if", " as |", "|", "a", "n", " ", "'s'", "\"", "[", "]", "(", ")", "=", "1", "-1.5", "../", ".", "./", "@", "@root", "this", "true", "null", "undefined", "\\", "\\\\", "\n", "\xc3\xa9", "p", "raw", "id"};
    auto toks = [](uint64_t i) { B r; for (unsigned k : nthseq(i, P.size())) r += P[k]; return r; };
    add("pieces", nstrings(P.size(), th ? 4 : 3), toks, th ? std::vector<unsigned long>{0, 0x1fff} : std::vector<unsigned long>{0x1fff}, {0});
    if (!th) add("pieces2", nstrings(P.size(), 2), toks, fl, {0, 1, 2});
    else add("pieces3", nstrings(P.size(), 3), toks, fl, {0, 1, 2});
    static const L Q = {"{{a", "{{#a", "{{#each l", "{{/a}}", "{{/each}}", "}}", "{{> p", "{{#> p", "{{/p}}", "{{else}}", "{{id", " as |v|", " (id", ")", " k=", " n", " 's'", "x", "{{=<% %>=}}", "<%n%>", "{{* d}}", "{{#*inline 'i'}}", "{{/inline}}", "{{{{raw}}}}", "{{{{/raw}}}}", "\n"};
    add("parts", nstrings(Q.size(), th ? 5 : 4), [](uint64_t i) { B r; for (unsigned k : nthseq(i, Q.size())) r += Q[k]; return r; }, th ? std::vector<unsigned long>{0, 1ul << 12 | 1, 7 | 1ul << 9} : std::vector<unsigned long>{1ul << 9 | 1}, {0});
    // templates, under all flags
    L * tm = new L; for (auto & t : suite::templates(1)) if (t.find("log") == B::npos) tm->push_back(t);
    for (auto & t : {"{{* d}}", "{{#*d}}x{{/d}}", "{{#*inline 'i'}}x{{/inline}}{{> i}}", "{{#a}}{{* d 1 k=2}}{{/a}}", "{{#*inline (id 'x') k=1}}{{n}}{{else}}{{/inline}}", "{{* a.b.c}}", "{{#*d as |v|}}{{v}}{{/d}}"}) tm->push_back(t);
    std::vector<unsigned long> all; if (th) for (unsigned long f = 0; f < 1ul << 13; f += 1) all.push_back(f); else { all.push_back(0); all.push_back(0x1fff); for (int i = 0; i < 13; i++) { all.push_back(1ul << i); for (int j = 0; j < i; j++) all.push_back(1ul << i | 1ul << j); } }
    L * pc = new L; for (auto & t : *tm) if (th || pc->size() < 1500) pc->push_back(t);
    size_t np = th ? suite::pieces().size() : pc->size();
    add("flags", np, [=](uint64_t i) { return th ? suite::pieces()[i] == "{{log n}}" ? B("x") : suite::pieces()[i] + "{{#a}}" + suite::pieces()[i] + "{{/a}}" : (*pc)[i]; }, th ? all : std::vector<unsigned long>(all.begin(), all.begin() + 30), {0});
    add("flags-pieces", suite::pieces().size() - 1, [](uint64_t i) { return suite::pieces()[i]; }, all, {0, 1});
    // every single change of a template
    static const B S = C + B("\0\x80\xff\t\rne", 8);
    struct At { unsigned t, at; }; auto * pos = new std::vector<At>; std::set<B> seen; auto * src = new L;
    for (auto & t : *tm) if (th || seen.size() < 400) if (seen.insert(t).second) src->push_back(t);
    for (unsigned i = 0; i < src->size(); i++) for (unsigned k = 0; k <= (*src)[i].size(); k++) pos->push_back({i, k});
    unsigned ops = S.size() * 2 + 4;
    add("changes", pos->size() * ops, [=](uint64_t i) {
        At p = (*pos)[i / ops]; unsigned o = i % ops; B t = (*src)[p.t];
        if (o < S.size()) { if (p.at < t.size()) t[p.at] = S[o]; }
        else if (o < 2 * S.size()) t.insert(p.at, 1, S[o - S.size()]);
        else if (o == 2 * S.size()) t.resize(p.at); else if (o == 2 * S.size() + 1) t.erase(0, p.at); else if (o == 2 * S.size() + 2) { if (p.at < t.size()) t.erase(p.at, 1); } else if (p.at + 1 < t.size()) std::swap(t[p.at], t[p.at + 1]);
        return t;
    }, th ? f3 : std::vector<unsigned long>{1ul << 9 | 7}, {0});
    return m.go(argc, argv);
}
