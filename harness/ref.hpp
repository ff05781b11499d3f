// Independent model of the Handlebars language: lexer, grammar, whitespace rules and an interpreter
// that works directly on the syntax tree (no opcodes, no stacks, no fixed sizes). It is the oracle
// of the language checks, and is written from the language definition, not from the library.
#pragma once
#include "hbshim.h"
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {

// ------------------------------------------------------------------ values
struct Val; struct PB;
typedef std::shared_ptr<Val> V;
enum Kind { NUL, BOOL, INT, DBL, STR, ARR, MAP, FN, PBLOCK };
struct Val {
    Kind k = NUL; bool b = false; long i = 0; double d = 0; std::string s; bool safe = false;
    std::vector<V> a; std::vector<std::pair<std::string, V>> m; int fn = 0; std::shared_ptr<PB> pb;
    V get(const std::string & key) const { for (auto & e : m) if (e.first == key) return e.second; return nullptr; }
    void set(const std::string & key, V v) { for (auto & e : m) if (e.first == key) { e.second = v; return; } m.push_back({key, v}); }
};
inline V mk(Kind k) { V v = std::make_shared<Val>(); v->k = k; return v; }
inline V vnull() { return mk(NUL); }
inline V vstr(const std::string & s) { V v = mk(STR); v->s = s; return v; }
inline V vint(long i) { V v = mk(INT); v->i = i; return v; }
inline V vdbl(double d) { V v = mk(DBL); v->d = d; return v; }
inline V vbool(bool b) { V v = mk(BOOL); v->b = b; return v; }
inline V vfn(int f) { V v = mk(FN); v->fn = f; return v; }

inline V from(const hv * h) {
    if (!h) return vnull();
    switch (h->kind) {
        case HV_TRUE: return vbool(true);
        case HV_FALSE: return vbool(false);
        case HV_INT: return vint(h->i);
        case HV_DBL: return vdbl(h->d);
        case HV_STR: { V v = vstr(std::string(h->s, h->n)); v->safe = h->safe; return v; }
        case HV_ARR: { V v = mk(ARR); for (size_t i = 0; i < h->n; i++) v->a.push_back(from(h->items[i])); return v; }
        case HV_MAP: { V v = mk(MAP); for (size_t i = 0; i < h->n; i++) v->set(h->keys[i], from(h->items[i])); return v; }
        case HV_FN: return vfn(h->fn);
    }
    return vnull();
}

inline bool empty(const V & v) {
    switch (v->k) {
        case NUL: return true;
        case BOOL: return !v->b;
        case INT: return v->i == 0;
        case DBL: return v->d == 0;
        case STR: return v->s.empty() || v->s == "0";
        case ARR: return v->a.empty();
        case MAP: return v->m.empty();
        default: return true;
    }
}
inline bool zero(const V & v) { return (v->k == INT && v->i == 0) || (v->k == DBL && v->d == 0); }
inline bool same(const V & a, const V & b) { // containers by identity, the rest by value
    if (a == b) return true;
    if (a->k != b->k) return false;
    switch (a->k) {
        case NUL: return true;
        case BOOL: return a->b == b->b;
        case INT: return a->i == b->i;
        case DBL: return a->d == b->d;
        case STR: return a->s == b->s;
        case FN: return a->fn == b->fn;
        default: return false;
    }
}
inline std::string esc(const std::string & s) {
    std::string r;
    for (char c : s) switch (c) {
        case '&': r += "&amp;"; break;
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '"': r += "&quot;"; break;
        case '\'': r += "&#x27;"; break;
        case '`': r += "&#x60;"; break;
        default: r += c;
    }
    return r;
}
// text of a value as it is written into the output
inline std::string text(const V & v, bool escape) {
    char b[64];
    switch (v->k) {
        case BOOL: return v->b ? "true" : "false";
        case INT: snprintf(b, sizeof b, "%ld", v->i); return b;
        case DBL: snprintf(b, sizeof b, "%g", v->d); return b;
        case STR: return escape && !v->safe ? esc(v->s) : v->s;
        case ARR: { std::string r; for (size_t i = 0; i < v->a.size(); i++) { if (i) r += ","; r += text(v->a[i], escape); } return r; }
        default: return "";
    }
}

// ------------------------------------------------------------------ errors
struct Err { int stage; std::string msg; int line; };
[[noreturn]] inline void bad(int stage, const std::string & m, int line = 0) { throw Err{stage, m, line}; }

// ------------------------------------------------------------------ lexer
enum T { CONTENT, COMMENT, LONG_COMMENT, OPEN, OPEN_UNESCAPED, OPEN_BLOCK, OPEN_RAW, CLOSE_RAW, END_RAW, OPEN_ENDBLOCK, OPEN_INVERSE, OPEN_INVERSE_CHAIN, INVERSE, OPEN_PARTIAL, OPEN_PARTIAL_BLOCK,
    OPEN_SEXPR, CLOSE_SEXPR, CLOSE, CLOSE_UNESCAPED, EQUALS, ID, SEP, STRING, SSTRING, NUMBER, BOOLEAN, UNDEF, NUL_T, DATA, OPEN_BP, CLOSE_BP, INVALID, END };
inline const char * tname(T t) {
    static const char * n[] = {"CONTENT", "COMMENT", "COMMENT", "OPEN", "OPEN_UNESCAPED", "OPEN_BLOCK", "OPEN_RAW_BLOCK", "CLOSE_RAW_BLOCK", "END_RAW_BLOCK", "OPEN_ENDBLOCK", "OPEN_INVERSE", "OPEN_INVERSE_CHAIN", "INVERSE", "OPEN_PARTIAL", "OPEN_PARTIAL_BLOCK",
        "OPEN_SEXPR", "CLOSE_SEXPR", "CLOSE", "CLOSE_UNESCAPED", "EQUALS", "ID", "SEP", "STRING", "STRING", "NUMBER", "BOOLEAN", "UNDEFINED", "NULL", "DATA", "OPEN_BLOCK_PARAMS", "CLOSE_BLOCK_PARAMS", "INVALID", "EOF"};
    return n[t];
}
struct Tok { T t; std::string s; int line; size_t pos, end; int eline = 0; };

inline bool ws(unsigned char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
inline bool idc(unsigned char c) {
    if (c == 0) return true;
    if (ws(c)) return false;
    return !strchr("!\"#%&'()*+,./;<=>@[\\]^`{|}~", c);
}

struct Lexer {
    const std::string & in; size_t p = 0; int line = 1; std::vector<Tok> out;
    explicit Lexer(const std::string & s) : in(s) {}
    bool at(size_t q, const char * s) const { return in.compare(q, strlen(s), s) == 0; }
    int ch(size_t q) const { return q < in.size() ? (unsigned char) in[q] : -1; }
    void emit(T t, const std::string & s, size_t to) { out.push_back({t, s, line, p, to}); for (; p < to; p++) if (in[p] == '\n') line++; out.back().eline = line; }
    void tok(T t, size_t len) { emit(t, in.substr(p, len), p + len); }
    bool look(size_t q, const char * set) const { int c = ch(q); return c > 0 && strchr(set, c); }
    static constexpr const char * LA = "=~} \r\n\t/.)|";
    static constexpr const char * LLA = "~} \r\n\t)";

    void run() {
        bool emu = false; // after an escaped opening
        while (p < in.size()) {
            // text up to the next opening
            size_t q = in.find("{{", emu ? p + 2 : p);
            bool wasemu = emu; emu = false;
            if (wasemu) { // also ends before an escaped one
                size_t b = in.find("\\{{", p + 2);
                if (b != std::string::npos && (q == std::string::npos || b < q)) { size_t bb = b; if (bb > p + 2 && in[bb - 1] == '\\') bb--; emit(CONTENT, in.substr(p, bb - p), bb); continue; }
                if (q == std::string::npos) { emit(CONTENT, in.substr(p), in.size()); continue; }
                emit(CONTENT, in.substr(p, q - p), q);
                mu();
                continue;
            }
            if (q == std::string::npos) { emit(CONTENT, in.substr(p), in.size()); break; }
            std::string s = in.substr(p, q - p);
            if (s.size() >= 2 && s.compare(s.size() - 2, 2, "\\\\") == 0) { s.pop_back(); emit(CONTENT, s, q); mu(); }
            else if (!s.empty() && s.back() == '\\') { s.pop_back(); if (!s.empty()) emit(CONTENT, s, q); else p = q; emu = true; }
            else { if (!s.empty()) emit(CONTENT, s, q); mu(); }
        }
        out.push_back({END, "", line, p, p, line});
    }
    void mu() {
        while (p < in.size()) {
            if (at(p, "{{{{")) { tok(OPEN_RAW, 4); continue; }
            if (at(p, "}}}}")) { tok(CLOSE_RAW, 4); raw(); return; }
            if (at(p, "(")) { tok(OPEN_SEXPR, 1); continue; }
            if (at(p, ")")) { tok(CLOSE_SEXPR, 1); continue; }
            if (at(p, "{{")) {
                size_t q = p + 2;
                bool strip = ch(q) == '~'; if (strip) q++;
                if (ch(q) == '>') { tok(OPEN_PARTIAL, q + 1 - p); continue; }
                if (at(q, "#>")) { tok(OPEN_PARTIAL_BLOCK, q + 2 - p); continue; }
                if (ch(q) == '#') { tok(OPEN_BLOCK, q + 1 - p + (ch(q + 1) == '*')); continue; }
                if (ch(q) == '/') { tok(OPEN_ENDBLOCK, q + 1 - p); continue; }
                if (ch(q) == '^') {
                    size_t r = q + 1; while (r < in.size() && ws(in[r])) r++;
                    if (ch(r) == '~') r++;
                    if (at(r, "}}")) { tok(INVERSE, r + 2 - p); return; }
                    tok(OPEN_INVERSE, q + 1 - p); continue;
                }
                {
                    size_t r = q; while (r < in.size() && ws(in[r])) r++;
                    if (at(r, "else")) {
                        size_t e = r + 4, c = e;
                        while (c < in.size() && ws(in[c])) c++;
                        if (ch(c) == '~') c++;
                        if (at(c, "}}")) { tok(INVERSE, c + 2 - p); return; }
                        int n = ch(e);
                        if (!(n >= 0 && (isalnum(n) || n == '_'))) { tok(OPEN_INVERSE_CHAIN, e - p); continue; }
                    }
                }
                if (ch(q) == '{') { tok(OPEN_UNESCAPED, q + 1 - p); continue; }
                if (ch(q) == '&') { tok(OPEN, q + 1 - p); continue; }
                if (ch(q) == '!') {
                    if (at(q, "!--")) { // up to --}} or --~}}
                        size_t e = std::string::npos, end = 0;
                        for (size_t r = q + 1; r + 3 < in.size(); r++) {
                            if (!at(r, "--")) continue;
                            if (at(r + 2, "}}")) { e = r; end = r + 4; break; }
                            if (at(r + 2, "~}}")) { e = r; end = r + 5; break; }
                        }
                        if (e == std::string::npos) { tok(INVALID, 3); return; }
                        tok(LONG_COMMENT, end - p);
                        return;
                    }
                    size_t e = in.find("}}", q + 1);
                    if (e == std::string::npos) { tok(INVALID, 3); return; }
                    tok(COMMENT, e + 2 - p);
                    return;
                }
                if (ch(q) == '*') q++;
                tok(OPEN, q - p);
                continue;
            }
            unsigned char c = in[p];
            if (c == '=') { tok(EQUALS, 1); continue; }
            if (at(p, "..")) { tok(ID, 2); continue; }
            if (c == '.' && look(p + 1, LA)) { tok(ID, 1); continue; }
            if (c == '/' || c == '.') { tok(SEP, 1); continue; }
            if (ws(c)) { if (c == '\n') line++; p++; continue; }
            if (at(p, "}}}")) { tok(CLOSE_UNESCAPED, 3); return; }
            if (at(p, "}~}}")) { tok(CLOSE_UNESCAPED, 4); return; }
            if (at(p, "~}}")) { tok(CLOSE, 3); return; }
            if (at(p, "}}")) { tok(CLOSE, 2); return; }
            if (c == '"' || c == '\'') {
                size_t q = p + 1; std::string s; bool closed = false;
                while (q < in.size()) {
                    if (in[q] == '\\' && ch(q + 1) == c) { s += (char) c; q += 2; continue; }
                    if ((unsigned char) in[q] == c) { closed = true; break; }
                    s += in[q++];
                }
                if (!closed) { // the last quote closes it even if it was escaped
                    size_t e = in.rfind((char) c);
                    if (e > p) {
                        s.clear();
                        for (q = p + 1; q < e; q++) { if (in[q] == '\\' && q + 1 < e && (unsigned char) in[q + 1] == c) q++; s += in[q]; }
                        closed = true; q = e;
                    }
                }
                if (closed) { emit(c == '"' ? STRING : SSTRING, s, q + 1); continue; }
                tok(INVALID, 1); continue;
            }
            if (c == '@') { tok(DATA, 1); continue; }
            if (c == '|') { tok(CLOSE_BP, 1); continue; }
            if (at(p, "as") && p + 2 < in.size() && ws(in[p + 2])) {
                size_t r = p + 2; while (r < in.size() && ws(in[r])) r++;
                if (ch(r) == '|') { tok(OPEN_BP, r + 1 - p); continue; }
            }
            if (at(p, "true") && look(p + 4, LLA)) { tok(BOOLEAN, 4); continue; }
            if (at(p, "false") && look(p + 5, LLA)) { tok(BOOLEAN, 5); continue; }
            if (at(p, "undefined") && look(p + 9, LLA)) { tok(UNDEF, 9); continue; }
            if (at(p, "null") && look(p + 4, LLA)) { tok(NUL_T, 4); continue; }
            {
                size_t q = p; if (in[q] == '-') q++;
                size_t d = q; while (d < in.size() && isdigit((unsigned char) in[d])) d++;
                if (d > q) {
                    size_t e = d;
                    if (ch(e) == '.') { size_t f = e + 1; while (f < in.size() && isdigit((unsigned char) in[f])) f++; if (f > e + 1 && look(f, LLA)) { tok(NUMBER, f - p); continue; } }
                    if (look(d, LLA)) { tok(NUMBER, d - p); continue; }
                }
            }
            if (idc(c) && c) {
                size_t q = p; while (q < in.size() && in[q] && idc(in[q])) q++;
                if (look(q, LA)) { tok(ID, q - p); continue; }
                tok(INVALID, 1); continue;
            }
            if (c == '[') {
                size_t q = p + 1; bool closed = false; std::string s = "[";
                while (q < in.size()) {
                    if (at(q, "\\]")) { s += ']'; q += 2; continue; }
                    if (in[q] == ']') { closed = true; break; }
                    s += in[q++];
                }
                if (!closed && in.rfind(']') > p && in.rfind(']') != std::string::npos) { // the last one closes it even if it was escaped
                    size_t e = in.rfind(']');
                    s = "[";
                    for (q = p + 1; q < e; q++) { if (in[q] == '\\' && q + 1 < e && in[q + 1] == ']') q++; s += in[q]; }
                    if (s.back() == '\\') s.pop_back();
                    closed = true; q = e;
                }
                if (closed) { emit(ID, s + "]", q + 1); continue; }
            }
            tok(INVALID, 1);
        }
    }
    void raw() {
        int depth = 1;
        std::string acc; size_t from = p;
        while (p < in.size()) {
            if (at(p, "{{{{/")) {
                size_t q = p + 5; while (q < in.size() && idc(in[q]) && in[q]) q++;
                if (q > p + 5 && at(q, "}}}}")) {
                    if (--depth == 0) {
                        if (!acc.empty()) out.push_back({CONTENT, acc, line, from, p, line});
                        emit(END_RAW, in.substr(p + 5, q - p - 5), q + 4);
                        return;
                    }
                    while (p < q + 4) { acc += in[p]; if (in[p] == '\n') line++; p++; }
                    continue;
                }
                acc += in[p++]; continue;
            }
            if (at(p, "{{{{") && p + 4 < in.size()) { depth++; for (int i = 0; i < 4; i++) acc += in[p++]; continue; }
            if (in[p] == '\n') line++;
            acc += in[p++];
        }
        if (!acc.empty()) out.push_back({CONTENT, acc, line, from, p, line});
    }
};

// ------------------------------------------------------------------ syntax tree
enum N { PROGRAM, MUSTACHE, BLOCK, RAW, PARTIAL, PARTIALBLOCK, TEXT, NOTE, SEXPR, PATH, LSTR, LNUM, LBOOL, LUNDEF, LNULL };
struct Node; typedef std::shared_ptr<Node> P;
struct Strip { bool open = false, close = false; };
struct Node {
    N t; int line = 0;
    std::string s, original;            // text / literal / comment / original path
    bool data = false; int depth = 0; std::vector<std::string> parts; // path
    P path; std::vector<P> params; bool hashed = false; std::vector<std::pair<std::string, P>> hash;
    bool unescaped = false; bool decorator = false;
    P program, inverse; std::vector<P> body; std::vector<std::string> bp; bool chained = false;
    bool inverted = false;
    Strip strip, open, inv, close; bool hasinv = false;
    bool rs = false, ls = false;        // text already stripped
    std::string indent; bool longc = false;
};
inline P node(N t, int line) { P p = std::make_shared<Node>(); p->t = t; p->line = line; return p; }

struct Parser {
    std::vector<Tok> t; size_t i = 0; const std::string * src = nullptr;
    Tok & cur() { return t[i]; }
    bool is(T k) { return t[i].t == k; }
    Tok take(T k) { if (!is(k)) fail(); return t[i++]; }
    [[noreturn]] void fail() { bad(0, std::string("syntax error, unexpected ") + tname(cur().t), cur().eline); } // reported where the offending token ends
    static Strip st(const std::string & open, const std::string & close) {
        return Strip{open.size() >= 3 && open[2] == '~', close.size() >= 3 && close[close.size() - 3] == '~'};
    }
    P parse() { P p = program(); if (!is(END)) fail(); return p; }
    P program() {
        size_t from = cur().pos;
        P p = programBody();
        if (src && cur().pos >= from) p->s = src->substr(from, cur().pos - from);
        return p;
    }
    P programBody() {
        P p = node(PROGRAM, cur().line);
        for (;;) {
            switch (cur().t) {
                case CONTENT: {
                    P n = node(TEXT, cur().line);
                    while (is(CONTENT)) n->s += t[i++].s;
                    n->original = n->s;
                    p->body.push_back(n);
                    break;
                }
                case COMMENT: case LONG_COMMENT: {
                    P n = node(NOTE, cur().line);
                    n->longc = is(LONG_COMMENT);
                    std::string s = t[i].s;
                    n->strip = st(s, s);
                    size_t a = 2; if (s[a] == '~') a++;
                    a++; for (int k = 0; k < 2; k++) if (s[a] == '-') a++;
                    size_t e = s.size() - 2; if (e > a && s[e - 1] == '~') e--;
                    for (int k = 0; k < 2; k++) if (e > a && s[e - 1] == '-') e--;
                    n->s = a < e ? s.substr(a, e - a) : "";
                    i++;
                    p->body.push_back(n);
                    break;
                }
                case OPEN: case OPEN_UNESCAPED: p->body.push_back(mustache()); break;
                case OPEN_BLOCK: case OPEN_INVERSE: p->body.push_back(block()); break;
                case OPEN_RAW: p->body.push_back(rawblock()); break;
                case OPEN_PARTIAL: case OPEN_PARTIAL_BLOCK: p->body.push_back(partial()); break;
                default: return p;
            }
        }
    }
    P mustache() {
        Tok o = t[i++];
        P n = node(MUSTACHE, o.line);
        n->unescaped = o.t == OPEN_UNESCAPED || o.s.back() == '&';
        n->decorator = o.s.back() == '*';
        call(n);
        Tok c = take(o.t == OPEN_UNESCAPED ? CLOSE_UNESCAPED : CLOSE);
        n->strip = st(o.s, c.t == CLOSE_UNESCAPED ? c.s : c.s);
        return n;
    }
    void call(P n) { n->path = helperName(); params(n); }
    void params(P n) {
        while (!is(END)) {
            if (is(ID) && t[i + 1].t == EQUALS) break;
            if (is(OPEN_SEXPR)) n->params.push_back(sexpr());
            else if (startsName()) n->params.push_back(helperName());
            else break;
        }
        while (is(ID) && t[i + 1].t == EQUALS) {
            std::string k = t[i].s; i += 2;
            if (k.size() >= 2 && k[0] == '[' && k.back() == ']') k = k.substr(1, k.size() - 2);
            n->hashed = true;
            n->hash.push_back({k, is(OPEN_SEXPR) ? sexpr() : helperName()});
        }
        if (n->hashed && is(ID)) { i++; fail(); } // a name after a pair can only begin another pair
    }
    bool startsName() { switch (cur().t) { case ID: case DATA: case STRING: case SSTRING: case NUMBER: case BOOLEAN: case UNDEF: case NUL_T: return true; default: return false; } }
    P sexpr() { P n = node(SEXPR, cur().line); take(OPEN_SEXPR); call(n); take(CLOSE_SEXPR); return n; }
    P lit(N k) { P n = node(k, cur().line); n->s = n->original = t[i++].s; return n; }
    P helperName() {
        switch (cur().t) {
            case STRING: case SSTRING: return lit(LSTR);
            case NUMBER: return lit(LNUM);
            case BOOLEAN: return lit(LBOOL);
            case UNDEF: return lit(LUNDEF);
            case NUL_T: return lit(LNULL);
            case DATA: i++; return path(true);
            case ID: return path(false);
            default: fail();
        }
    }
    P path(bool data) {
        P n = node(PATH, cur().line);
        n->data = data;
        if (data) n->original = "@";
        for (bool first = true;; first = false) {
            if (!is(ID)) fail();
            std::string raw = t[i].s, part = raw;
            bool literal = raw.size() >= 2 && raw[0] == '[' && raw.back() == ']';
            if (literal) part = raw.substr(1, raw.size() - 2);
            if (!first) n->original += t[i - 1].s;
            n->original += part;
            if (!literal && (part == ".." || part == "." || part == "this")) {
                if (!n->parts.empty()) bad(0, "Invalid path: " + n->original, cur().line);
                if (part == "..") n->depth++;
            } else n->parts.push_back(part);
            i++;
            if (!is(SEP)) break;
            i++;
        }
        return n;
    }
    std::vector<std::string> bparams() {
        std::vector<std::string> r;
        if (!is(OPEN_BP)) return r;
        i++;
        r.push_back(take(ID).s);
        if (is(ID)) r.push_back(t[i++].s);
        take(CLOSE_BP);
        return r;
    }
    P rawblock() {
        P n = node(RAW, cur().line); i++;
        call(n);
        auto bp = bparams();
        take(CLOSE_RAW);
        P prog = node(PROGRAM, cur().line);
        prog->bp = bp;
        P c = node(TEXT, cur().line);
        while (is(CONTENT)) c->s += t[i++].s;
        c->original = c->s;
        prog->body.push_back(c);
        Tok e = take(END_RAW);
        if (e.s != n->path->original) bad(0, n->path->original + " doesn't match " + e.s, e.line);
        n->program = prog;
        return n;
    }
    void closing(P n, const std::string & name) {
        Tok o = take(OPEN_ENDBLOCK);
        P h = helperName();
        Tok c = take(CLOSE);
        n->close = st(o.s, c.s);
        if (h->original != name) bad(0, name + " doesn't match " + h->original, c.line);
    }
    struct Inv { P program; Strip strip; bool chain = false; Strip close; };
    bool inverse(Inv & r) {
        if (is(INVERSE)) {
            Tok o = t[i++];
            r.strip = st(o.s, o.s);
            r.program = program();
            return true;
        }
        if (is(OPEN_INVERSE_CHAIN)) {
            Tok o = t[i++];
            P b = node(BLOCK, o.line);
            call(b);
            auto bp = bparams();
            Tok c = take(CLOSE);
            b->open = st(o.s, c.s);
            b->program = program();
            b->program->bp = bp;
            Inv next;
            if (inverse(next)) {
                b->inverse = next.program; b->inv = next.strip; b->hasinv = true;
                b->close = next.strip; // overwritten below for chains
                if (next.chain) next.program->body[0]->close = b->close;
            }
            P prog = node(PROGRAM, o.line);
            prog->body.push_back(b);
            prog->chained = true;
            r.program = prog; r.strip = b->open; r.chain = true;
            return true;
        }
        return false;
    }
    P block() {
        Tok o = t[i++];
        P n = node(BLOCK, o.line);
        n->inverted = o.t == OPEN_INVERSE;
        n->decorator = o.s.back() == '*';
        call(n);
        auto bp = bparams();
        Tok c = take(CLOSE);
        n->open = st(o.s, c.s);
        n->program = program();
        n->program->bp = bp;
        Inv r;
        if (inverse(r)) { n->inverse = r.program; n->inv = r.strip; n->hasinv = true; }
        closing(n, n->path->original);
        if (r.chain) n->inverse->body[0]->close = n->close;
        if (n->inverted) std::swap(n->program, n->inverse);
        return n;
    }
    P partial() {
        Tok o = t[i++];
        bool blk = o.t == OPEN_PARTIAL_BLOCK;
        P n = node(blk ? PARTIALBLOCK : PARTIAL, o.line);
        n->path = is(OPEN_SEXPR) ? sexpr() : helperName();
        params(n);
        Tok c = take(CLOSE);
        n->strip = n->open = st(o.s, c.s);
        if (blk) { n->program = program(); closing(n, n->path->original); }
        return n;
    }
};

// ------------------------------------------------------------------ whitespace control
struct White {
    bool rootSeen = false;
    static bool sp(char c) { return ws(c) || c == '\v' || c == '\f'; }
    // /\r?\n\s*?$/ or, at the start of the template, /(^|\r?\n)\s*?$/
    static bool prev(const std::vector<P> & b, long i, bool root) {
        if (i < 1) return root;
        const P & p = b[i - 1];
        if (p->t != TEXT) return false;
        bool any = false; size_t e = p->original.size(), k = e;
        while (k > 0 && sp(p->original[k - 1])) { if (p->original[k - 1] == '\n') any = true; k--; }
        if (any) return true;
        return !(i >= 2 || !root) && k == 0;
    }
    static bool next(const std::vector<P> & b, long i, bool root) {
        if (i + 1 >= (long) b.size()) return root;
        const P & p = b[i + 1];
        if (p->t != TEXT) return false;
        size_t k = 0; bool any = false;
        while (k < p->original.size() && sp(p->original[k])) { if (p->original[k] == '\n') any = true; k++; }
        if (any) return true;
        return !(i + 2 < (long) b.size() || !root) && k == p->original.size();
    }
    static void right(std::vector<P> & b, long i, bool all) {
        if (i < 0 || i >= (long) b.size() || b[i]->t != TEXT || (!all && b[i]->rs)) return;
        std::string & s = b[i]->s; size_t k = 0, n = s.size();
        if (all) while (k < n && sp(s[k])) k++;
        else {
            while (k < n && (s[k] == ' ' || s[k] == '\t')) k++;
            if (k < n && s[k] == '\r' && k + 1 < n && s[k + 1] == '\n') k += 2;
            else if (k < n && s[k] == '\r') k++;
            else if (k < n && s[k] == '\n') k++;
        }
        s.erase(0, k);
        b[i]->rs = k > 0;
    }
    static bool left(std::vector<P> & b, long i, bool all) {
        if (i < 0 || i >= (long) b.size() || b[i]->t != TEXT || (!all && b[i]->ls)) return false;
        std::string & s = b[i]->s; size_t n = s.size(), k = n;
        if (all) while (k > 0 && sp(s[k - 1])) k--;
        else while (k > 0 && (s[k - 1] == ' ' || s[k - 1] == '\t')) k--;
        s.erase(k);
        b[i]->ls = k < n;
        return b[i]->ls;
    }
    struct S { bool any = false, open = false, close = false, openS = false, closeS = false, inlineS = false; };
    static std::vector<P> & body(P p) { static std::vector<P> none; none.clear(); return p ? p->body : none; }
    void program(P p) {
        bool root = !rootSeen; rootSeen = true;
        auto & b = p->body;
        for (size_t i = 0; i < b.size(); i++) {
            S s = accept(b[i]);
            if (!s.any) continue;
            bool pw = prev(b, i, root), nw = next(b, i, root);
            bool os = s.openS && pw, cs = s.closeS && nw, is = s.inlineS && pw && nw;
            if (s.close) right(b, i + 1, true);
            if (s.open) left(b, (long) i - 1, true);
            if (is) {
                right(b, i + 1, false);
                if (left(b, (long) i - 1, false) && b[i]->t == PARTIAL) {
                    const std::string & o = b[i - 1]->original; size_t k = o.size();
                    while (k > 0 && (o[k - 1] == ' ' || o[k - 1] == '\t')) k--;
                    b[i]->indent = o.substr(k);
                }
            }
            if (os) { right(body(b[i]->program ? b[i]->program : b[i]->inverse), 0, false); left(b, (long) i - 1, false); }
            if (cs) { right(b, i + 1, false); auto & x = body(b[i]->inverse ? b[i]->inverse : b[i]->program); left(x, (long) x.size() - 1, false); }
        }
    }
    S accept(P n) {
        S s;
        switch (n->t) {
            case MUSTACHE: s.any = true; s.open = n->strip.open; s.close = n->strip.close; return s;
            case NOTE: case PARTIAL: s.any = true; s.inlineS = true; s.open = n->strip.open; s.close = n->strip.close; return s;
            case BLOCK: case PARTIALBLOCK: case RAW: break;
            default: return s;
        }
        if (n->program) program(n->program);
        if (n->inverse) program(n->inverse);
        P prog = n->program ? n->program : n->inverse, inv = n->program ? n->inverse : nullptr, first = inv;
        if (inv && inv->chained) first = inv->body[0]->program;
        s.any = true; s.open = n->open.open; s.close = n->close.close;
        s.openS = next(prog->body, -1, false);
        auto & lb = (first ? first : prog)->body;
        s.closeS = prev(lb, lb.size(), false);
        if (n->open.close) right(prog->body, 0, true);
        if (inv) {
            if (n->inv.open) left(prog->body, (long) prog->body.size() - 1, true);
            if (n->inv.close) right(first->body, 0, true);
            if (n->close.open && !inv->chained) left(inv->body, (long) inv->body.size() - 1, true);   // a chained block trims its own last part
            if (prev(prog->body, prog->body.size(), false) && next(first->body, -1, false)) {
                left(prog->body, (long) prog->body.size() - 1, false);
                right(first->body, 0, false);
            }
        } else if (n->close.open) left(prog->body, (long) prog->body.size() - 1, true);
        return s;
    }
};

inline P parse(const std::string & src) {
    Lexer l(src); l.run();
    Parser p; p.t = std::move(l.out); p.src = &src;
    P r = p.parse();
    White w; w.program(r);
    return r;
}

// ------------------------------------------------------------------ interpreter
enum Flag { F_COMPAT = 1, F_NOESCAPE = 8, F_KNOWNONLY = 16, F_PREVENTINDENT = 32, F_DATA = 64, F_EXPLICIT = 128, F_STRICT = 1024, F_ASSUME = 2048, F_MUSTACHE = 4096 };

struct Frame { std::vector<std::pair<std::string, V>> m; std::shared_ptr<Frame> parent; };
typedef std::shared_ptr<Frame> FrameP;
inline V fget(const FrameP & f, const std::string & k) { if (f) for (auto & e : f->m) if (e.first == k) return e.second; return nullptr; }
inline void fset(FrameP & f, const std::string & k, V v) { for (auto & e : f->m) if (e.first == k) { e.second = v; return; } f->m.push_back({k, v}); }

struct Ctx { V v; std::shared_ptr<Ctx> up; };
typedef std::shared_ptr<Ctx> CtxP;
struct BP { const std::vector<std::string> * names; std::vector<V> vals; std::shared_ptr<BP> up; };
typedef std::shared_ptr<BP> BPP;

struct PB; typedef std::shared_ptr<PB> PBP;

struct Scope { CtxP ctx; FrameP data; BPP bp; PBP pb; };
struct PB { P program; Scope scope; PBP outer; }; // block of a partial call

struct Interp {
    unsigned long flags = 0;
    std::map<std::string, V> helpers;
    std::map<std::string, V> partials;
    std::vector<std::string> known;
    long calls = 0; V root; int depth = 0; int maxdepth = 60;
    std::map<std::string, P> parsed;

    static bool builtin(const std::string & n) { return n == "if" || n == "unless" || n == "each" || n == "with" || n == "lookup" || n == "log" || n == "helperMissing" || n == "blockHelperMissing" || n == "hbsc_set_delimiters"; }
    bool isKnown(const std::string & n) const { if (builtin(n)) return true; for (auto & k : known) if (k == n) return true; return false; }

    // ---- compile-time checks of the whole template, executed or not
    void check(P n, BPP bp) {
        if (!n) return;
        switch (n->t) {
            case PROGRAM: for (auto & c : n->body) check(c, bp); break;
            case BLOCK: {
                if (n->decorator) bad(2, "decorator");
                call(n, bp);
                if (n->program) { BPP b = std::make_shared<BP>(); b->names = &n->program->bp; b->up = bp; check(n->program, b); }
                if (n->inverse) { BPP b = std::make_shared<BP>(); b->names = &n->inverse->bp; b->up = bp; check(n->inverse, b); }
                break;
            }
            case MUSTACHE: case RAW: call(n, bp); break;
            case PARTIAL: case PARTIALBLOCK:
                if (n->params.size() > 1) bad(1, "Unsupported number of partial arguments", n->line);
                if (n->path->t == SEXPR) call(n->path, bp);
                args(n, bp);
                if (n->program) { BPP b = std::make_shared<BP>(); b->names = &n->program->bp; b->up = bp; check(n->program, b); }
                break;
            default: break;
        }
    }
    void args(P n, BPP bp) {
        for (auto & p : n->params) if (p->t == SEXPR) call(p, bp);
        for (auto & h : n->hash) if (h.second->t == SEXPR) call(h.second, bp);
    }
    void call(P n, BPP bp) {
        args(n, bp);
        if (classify(n, bp) == HELPER) {
            P path = asPath(n->path);
            if ((flags & F_KNOWNONLY) && !(path->parts.size() && isKnown(path->parts[0])))
                bad(1, "You specified knownHelpersOnly, but used the unknown helper " + (path->parts.size() ? path->parts[0] : std::string()), n->line);
        }
    }

    // ---- calls
    enum Cls { HELPER, AMBIG, SIMPLE };
    static P asPath(P p) {
        if (p->t == PATH) return p;
        P n = node(PATH, p->line);
        n->original = p->original; n->parts.push_back(p->original);
        return n;
    }
    static bool scoped(P p) {
        if (!p->original.empty() && p->original[0] == '.') return true;
        return p->original == "this" || p->original.compare(0, 5, "this.") == 0 || p->original.compare(0, 5, "this/") == 0;
    }
    static bool simpleId(P p) { return p->parts.size() == 1 && !scoped(p) && !p->depth; }
    static V * bparam(const std::string & name, const BPP & bp, V & slot) {
        for (BPP b = bp; b; b = b->up) if (b->names) for (size_t i = 0; i < b->names->size(); i++) if ((*b->names)[i] == name) {
            slot = i < b->vals.size() && b->vals[i] ? b->vals[i] : vnull();
            return &slot;
        }
        return nullptr;
    }
    Cls classify(P n, const BPP & bp) {
        P path = asPath(n->path);
        V slot;
        bool simple = simpleId(path);
        bool isbp = simple && !path->data && bparam(path->parts[0], bp, slot);
        bool helper = !isbp && (n->t == SEXPR || !n->params.empty() || n->hashed);
        bool eligible = !isbp && (helper || simple);
        if (eligible && !helper) {
            if (isKnown(path->parts[0])) helper = true;
            else if (flags & F_KNOWNONLY) eligible = false;
        }
        return helper ? HELPER : eligible ? AMBIG : SIMPLE;
    }

    V member(const V & v, const std::string & k) {
        if (v->k == MAP) return v->get(k);
        if (v->k == ARR) {
            if (k.empty() || k.size() > 9) return nullptr;
            for (char c : k) if (!isdigit((unsigned char) c)) return nullptr;
            size_t i = strtoul(k.c_str(), nullptr, 10);
            return i < v->a.size() ? v->a[i] : nullptr;
        }
        return nullptr;
    }
    [[noreturn]] void undefined(const std::string & n) { bad(2, "\"" + n + "\" not defined in object"); }
    // terminal: the path is the subject of a mustache, block or call (strict applies to its last name)
    V walk(V v, const std::vector<std::string> & parts, size_t i, bool terminal) {
        for (; i < parts.size(); i++) {
            bool last = i + 1 == parts.size();
            V n = member(v, parts[i]);
            if (!n) {
                if ((flags & F_STRICT) && (terminal || !last)) undefined(parts[i]);
                if ((flags & F_ASSUME) && (!last || (v->k != MAP && v->k != ARR))) undefined(parts[i]);
                return vnull();
            }
            v = n;
        }
        return v;
    }
    V resolve(P p, const Scope & sc, bool terminal) {
        if (p->data) {
            FrameP f = sc.data;
            for (int d = p->depth; d > 0 && f; d--) f = f->parent;
            if (p->parts.empty()) return vnull();
            V v = fget(f, p->parts[0]);
            if (!v && p->parts[0] == "root") v = root;
            if (!v && p->parts[0] == "partial-block" && sc.pb) { v = mk(PBLOCK); v->pb = sc.pb; }
            if (!v) {
                if (p->parts.size() > 1 ? (flags & (F_STRICT | F_ASSUME)) != 0 : (flags & F_STRICT) && terminal) undefined(p->parts[0]);
                return vnull();
            }
            return walk(v, p->parts, 1, terminal);
        }
        V slot;
        if (!p->parts.empty() && !scoped(p) && !p->depth && bparam(p->parts[0], sc.bp, slot)) { auto f = flags; flags &= ~(unsigned long) (F_STRICT | F_ASSUME); V r = walk(slot, p->parts, 1, false); flags = f; return r; } // strict is about names of the context
        CtxP c = sc.ctx;
        for (int d = p->depth; d > 0 && c; d--) c = c->up;
        V v = c ? c->v : vnull();
        if (p->parts.empty()) return v;
        size_t i = 0;
        if ((flags & F_COMPAT) && !scoped(p) && !p->depth) {
            for (CtxP k = sc.ctx; k; k = k->up) if (k->v->k == MAP && k->v->get(p->parts[0])) { v = k->v; break; }
        }
        return walk(v, p->parts, i, terminal);
    }
    V param(P p, const Scope & sc) {
        switch (p->t) {
            case SEXPR: return sexpr(p, sc);
            case LSTR: return vstr(p->s);
            case LNUM: return number(p->s);
            case LBOOL: return vbool(p->s == "true");
            case PATH: return resolve(p, sc, false);
            default: return vnull();
        }
    }
    static V number(const std::string & s) { // whole numbers are integers, any other literal stands for its text
        if (s == "0") return vint(0);
        double d = strtod(s.c_str(), nullptr); long l = strtol(s.c_str(), nullptr, 10);
        return d && l && d == (double) l ? vint(l) : vstr(s);
    }

    struct Opt { std::string name; V hash; Scope sc; P fn, inv; std::string body; };
    std::string execProgram(P prog, const Scope & outer, V ctx, FrameP data, const std::vector<V> * bpv) {
        if (!prog) return "";
        Scope s = outer;
        if (!s.ctx || !same(s.ctx->v, ctx)) { CtxP c = std::make_shared<Ctx>(); c->v = ctx; c->up = s.ctx; s.ctx = c; }
        if (data) s.data = data;
        BPP b = std::make_shared<BP>();
        b->names = &prog->bp;
        if (bpv) b->vals = *bpv;
        b->up = outer.bp;
        s.bp = b;
        return body(prog, s);
    }
    std::string fn(const Opt & o, V ctx, FrameP data = nullptr, const std::vector<V> * bp = nullptr) { return execProgram(o.fn, o.sc, ctx, data, bp); }
    std::string inv(const Opt & o, V ctx) { return execProgram(o.inv, o.sc, ctx, nullptr, nullptr); }
    static V safe(const std::string & s) { return vstr(s); }

    static std::string show(const V & v) {
        char b[64];
        switch (v->k) {
            case NUL: return "null";
            case BOOL: return v->b ? "true" : "false";
            case INT: snprintf(b, sizeof b, "%ld", v->i); return b;
            case DBL: snprintf(b, sizeof b, "%gf", v->d); return b;
            case STR: return "'" + v->s + "'";
            case ARR: { std::string r = "["; for (size_t i = 0; i < v->a.size(); i++) { if (i) r += ","; r += show(v->a[i]); } return r + "]"; }
            case MAP: { std::string r = "{"; for (size_t i = 0; i < v->m.size(); i++) { if (i) r += ","; r += v->m[i].first + ":" + show(v->m[i].second); } return r + "}"; }
            default: return "fn";
        }
    }
    FrameP childFrame(const FrameP & f) { FrameP n = std::make_shared<Frame>(); if (f) n->m = f->m; n->parent = f; return n; }

    V callFn(int f, std::vector<V> & a, Opt & o) {
        V self = o.sc.ctx->v;
        ++calls;
        switch (f) {
            case HF_REC: {
                std::string r = "#" + std::to_string(calls) + "(";
                for (size_t i = 0; i < a.size(); i++) { if (i) r += ","; r += show(a[i]); }
                if (o.hash && !o.hash->m.empty()) {
                    V h = mk(MAP); h->m = o.hash->m;
                    std::sort(h->m.begin(), h->m.end(), [](auto & x, auto & y) { return x.first < y.first; });
                    r += ";" + show(h);
                }
                r += "@";
                if (self->k == MAP) { V n = self->get("n"); r += "n=" + (n ? show(n) : std::string("~")); } else r += show(self);
                return vstr(r + ")");
            }
            case HF_ID: return a.empty() ? vnull() : a[0];
            case HF_NULL: return vnull();
            case HF_SAFE: { if (a.empty()) return vnull(); V v = std::make_shared<Val>(*a[0]); v->safe = true; return v; }
            case HF_THROW: bad(2, "boom");
            case HF_ERRARG: bad(2, a.empty() ? "" : text(a[0], false));
            case HF_BLK: {
                V c = a.empty() ? self : a[0];
                std::vector<V> bp{c, vstr("B")};
                FrameP d = std::make_shared<Frame>(); // a copy of the current frame, at its level
                if (o.sc.data) *d = *o.sc.data;
                fset(d, "v", vint(7));
                return vstr(fn(o, c, d, &bp));
            }
            case HF_BLK2: { std::string r = fn(o, self); r += fn(o, self); r += inv(o, self); return vstr(r); }
            case HF_LAMBDA: return vstr("L<&>");
            case HF_LAMSCOPE: { V n = self->k == MAP ? self->get("n") : nullptr; return n ? n : vnull(); }
            case HF_LAMTMPL: return !a.empty() && a[0]->k == STR ? vstr(a[0]->s + "-" + a[0]->s) : vnull();
            case HF_LAMVAL: return vstr("{{n}}");
            case HF_ARR: { V v = mk(ARR); v->a = {vint(1), vint(2)}; return v; }
            case HF_FALSE: return vbool(false);
            case HF_MAP: { V v = mk(MAP); v->set("n", vstr("M")); return v; }
            case HF_COUNT: return vint(calls);
        }
        return vnull();
    }
    V deref(V v, Opt & o) { // built-in helpers call callable arguments
        if (v->k == PBLOCK) return vstr(runPB(v->pb, o.sc.ctx->v, o.sc, nullptr));
        if (v->k != FN) return v;
        std::vector<V> a{o.sc.ctx->v};
        return callFn(v->fn, a, o);
    }
    V each(V c, Opt & o) {
        std::string r; size_t n = 0;
        if (c->k == ARR || c->k == MAP) {
            size_t len = c->k == ARR ? c->a.size() : c->m.size();
            for (; n < len; n++) {
                V item = c->k == ARR ? c->a[n] : c->m[n].second;
                V key = c->k == ARR ? vint(n) : vstr(c->m[n].first);
                FrameP d = childFrame(o.sc.data);
                fset(d, "key", key); fset(d, "index", vint(n)); fset(d, "first", vbool(n == 0)); fset(d, "last", vbool(n + 1 == len));
                std::vector<V> bp{item, key};
                r += fn(o, item, d, &bp);
            }
        }
        if (n == 0) r = inv(o, o.sc.ctx->v);
        return vstr(r);
    }
    V blockMissing(V c, Opt & o) {
        V self = o.sc.ctx->v;
        if (c->k == BOOL && c->b) return vstr(fn(o, self));
        if (empty(c) && !zero(c)) return vstr(inv(o, self));
        if (c->k == ARR) { std::vector<V> a{c}; return named("each", a, o); }
        return vstr(fn(o, c));
    }
    V named(const std::string & n, std::vector<V> & a, Opt & o) {
        auto it = helpers.find(n);
        if (it != helpers.end()) return callFn(it->second->fn, a, o);
        return builtinCall(n, a, o);
    }
    V builtinCall(const std::string & n, std::vector<V> & a, Opt & o) {
        V self = o.sc.ctx->v;
        if (n == "if" || n == "unless") {
            if (a.size() != 1) bad(2, "#" + n + " requires exactly one argument");
            V c = deref(a[0], o);
            V iz = o.hash ? o.hash->get("includeZero") : nullptr;
            bool t = !empty(c) || (zero(c) && iz && !empty(iz));
            if (n == "unless") t = !t;
            return vstr(t ? fn(o, self) : inv(o, self));
        }
        if (n == "each") { if (a.empty()) bad(2, "Must pass iterator to #each"); V c = deref(a[0], o); return each(c, o); }
        if (n == "with") {
            if (a.size() != 1) bad(2, "#with requires exactly one argument");
            V c = deref(a[0], o);
            if (empty(c) && !zero(c)) return vstr(inv(o, self));
            std::vector<V> bp{c};
            return vstr(fn(o, c, nullptr, &bp));
        }
        if (n == "lookup") {
            if (a.size() < 2) bad(2, "lookup requires two parameters");
            if (a[0]->k == MAP) { V v = a[0]->get(text(a[1], false)); return v ? v : vnull(); }
            if (a[0]->k == ARR) { if (a[1]->k != INT && a[1]->k != STR) return vnull(); V v = member(a[0], text(a[1], false)); return v ? v : vnull(); }
            return vnull();
        }
        if (n == "helperMissing") { if (!a.empty()) bad(2, "Missing helper: \"" + o.name + "\""); return vnull(); }
        if (n == "blockHelperMissing") { return a.empty() ? vstr(inv(o, self)) : blockMissing(a[0], o); }
        return vnull();
    }
    V hashOf(P n, const Scope & sc) {
        V h = mk(MAP);
        for (auto & e : n->hash) { V v = param(e.second, sc); h->set(e.first, v); }
        return h;
    }
    // value of a call; registered is set when a registered or built-in helper answered it
    V invoke(P n, const Scope & sc, P fnp, P invp, bool & helper) {
        P path = asPath(n->path);
        Opt o; o.name = path->original; o.sc = sc; o.fn = fnp; o.inv = invp;
        helper = false;
        switch (classify(n, sc.bp)) {
            case SIMPLE: {
                V v = resolve(path, sc, true);
                if (v->k == FN) { std::vector<V> a{sc.ctx->v}; o.fn = o.inv = nullptr; return callFn(v->fn, a, o); }
                return v;
            }
            case AMBIG: {
                const std::string & name = path->parts[0];
                V v;
                auto it = helpers.find(name);
                bool have = !path->data && (it != helpers.end() || builtin(name));
                { auto f = flags; if (have) flags &= ~(unsigned long) (F_STRICT | F_ASSUME); v = resolve(path, sc, true); flags = f; }
                o.hash = mk(MAP);
                if ((flags & F_MUSTACHE) && v->k == FN) { // its result is a template
                    helper = true;
                    std::vector<V> a{vstr(fnp ? fnp->s : "")};
                    V r = callFn(v->fn, a, o);
                    if (empty(r)) return vnull();
                    std::string src = text(r, false);
                    P & q = parsed[src];
                    if (!q) { P z = parse(src); check(z, nullptr); q = z; }
                    Scope s;
                    s.data = sc.data; s.pb = sc.pb; s.ctx = sc.ctx;
                    CtxP c = std::make_shared<Ctx>(); c->v = v; c->up = s.ctx; s.ctx = c;
                    if (++depth > maxdepth) bad(3, "too deep");
                    std::string out = body(q, s);
                    depth--;
                    return vstr(out);
                }
                if (have) { helper = true; std::vector<V> a; return it != helpers.end() ? callFn(it->second->fn, a, o) : builtinCall(name, a, o); }
                if (v->k == FN) { std::vector<V> a; return callFn(v->fn, a, o); }
                it = helpers.find("helperMissing");
                if (it != helpers.end() && v->k == NUL) { std::vector<V> a; return callFn(it->second->fn, a, o); }
                return v;
            }
            case HELPER: {
                helper = true;
                std::vector<V> a;
                for (auto & p : n->params) a.push_back(param(p, sc));
                o.hash = hashOf(n, sc);
                bool simple = simpleId(path) && !path->data;
                if (simple || (!path->parts.empty() && isKnown(path->parts[0]))) { // a known helper is called whatever follows its name
                    const std::string & name = path->parts[0];
                    auto it = helpers.find(name);
                    if (it != helpers.end()) return callFn(it->second->fn, a, o);
                    if (builtin(name)) return builtinCall(name, a, o);
                }
                V v = resolve(path, sc, true);
                if (v->k == FN) return callFn(v->fn, a, o);
                return named("helperMissing", a, o);
            }
        }
        return vnull();
    }
    V sexpr(P n, const Scope & sc) { bool h; return invoke(n, sc, nullptr, nullptr, h); }

    // ---- statements
    std::string body(P prog, const Scope & sc) {
        std::string r;
        for (auto & n : prog->body) r += stmt(n, sc, r);
        return r;
    }
    std::string stmt(P n, const Scope & sc, std::string & sofar) {
        switch (n->t) {
            case TEXT: return n->s;
            case MUSTACHE: { bool h; V v = invoke(n, sc, nullptr, nullptr, h); return text(v, !n->unescaped && !(flags & F_NOESCAPE)); }
            case RAW: case BLOCK: {
                Cls c = classify(n, sc.bp);
                bool h;
                V v = invoke(n, sc, n->program, n->inverse, h);
                if (c == HELPER || (c == AMBIG && h)) return text(v, false);
                Opt o; o.name = n->path->original; o.sc = sc; o.fn = n->program; o.inv = n->inverse; o.hash = mk(MAP);
                std::vector<V> a{v};
                return text(named("blockHelperMissing", a, o), false);
            }
            case PARTIAL: case PARTIALBLOCK: return partial(n, sc);
            default: return "";
        }
    }
    static std::string indented(const std::string & s, const std::string & ind) {
        if (ind.empty()) return s;
        std::string r; size_t p = 0;
        while (p < s.size()) { // every line, and none after the last line break
            size_t q = s.find('\n', p);
            r += ind;
            if (q == std::string::npos) { r += s.substr(p); break; }
            r += s.substr(p, q + 1 - p);
            p = q + 1;
        }
        return r;
    }
    std::string partial(P n, const Scope & sc) {
        std::string name;
        if (n->path->t == SEXPR) { V v = sexpr(n->path, sc); name = v->k == STR ? v->s : "(NULL)"; }
        else name = n->path->original;
        V ctx = n->params.empty() ? ((flags & F_EXPLICIT) ? vnull() : sc.ctx->v) : param(n->params[0], sc);
        V h = hashOf(n, sc);
        if (ctx->k == NUL && !n->hashed) ctx = mk(MAP);
        if (n->hashed) {
            V m = mk(MAP);
            if (ctx->k == MAP) m->m = ctx->m;
            if (ctx->k == ARR) for (size_t i = 0; i < ctx->a.size(); i++) m->set(std::to_string(i), ctx->a[i]);
            for (auto & e : h->m) m->set(e.first, e.second);
            ctx = m;
        }
        std::string indent = n->indent, lead;
        if (flags & F_PREVENTINDENT) { lead = indent; indent.clear(); }
        PBP outerPB = sc.pb, mine;
        if (n->t == PARTIALBLOCK) { mine = std::make_shared<PB>(); mine->program = n->program; mine->scope = sc; mine->outer = sc.pb; }
        if (name == "@partial-block" && sc.pb) return lead + indented(runPB(sc.pb, ctx, sc, mine), indent);
        auto it = partials.find(name);
        if (it == partials.end()) {
            if (mine) return lead + indented(runPB(mine, ctx, sc, nullptr), indent);
            if (flags & F_COMPAT) return lead;
            bad(2, "The partial " + name + " could not be found");
        }
        if (it->second->k == FN) {
            Opt o; o.name = name; o.sc = sc; o.hash = h;
            std::vector<V> a{ctx};
            return lead + indented(text(callFn(it->second->fn, a, o), false), indent);
        }
        if (it->second->k != STR) bad(2, "The partial " + name + " was not a string");
        if (++depth > maxdepth) bad(3, "too deep"); // outside of what the model describes
        std::string src = it->second->s;
        if ((flags & F_COMPAT) && !indent.empty()) src = indented(src, indent);
        P & p = parsed[src];
        if (!p) { P q = parse(src); check(q, nullptr); p = q; }
        P prog = p;
        Scope s;
        s.data = sc.data; s.pb = mine ? mine : sc.pb;
        if (flags & F_COMPAT) s.ctx = sc.ctx;
        else s.ctx = sc.ctx;
        if (!s.ctx || !same(s.ctx->v, ctx)) { CtxP c = std::make_shared<Ctx>(); c->v = ctx; c->up = s.ctx; s.ctx = c; }
        std::string r = body(prog, s);
        depth--;
        return lead + ((flags & F_COMPAT) ? r : indented(r, indent));
    }
    // the block of a partial call: lexical scope of the call, context and data of the place that renders it
    std::string runPB(PBP pb, V ctx, const Scope & at, PBP) {
        Scope s = pb->scope;
        s.data = at.data;
        s.pb = pb->outer;
        return execProgram(pb->program, s, ctx, nullptr, nullptr);
    }

    std::string render(P prog, V ctx, FrameP data) {
        root = ctx;
        check(prog, nullptr);
        Scope s;
        s.data = data;
        s.ctx = std::make_shared<Ctx>(); s.ctx->v = ctx;
        return body(prog, s);
    }
};

struct Out { bool err = false; int stage = 0; std::string msg, out; long calls = 0; int line = 0; };
// what rendering the request must do
inline Out render(const hreq & rq, V ctx, P prog = nullptr) {
    Out o;
    Interp in;
    in.flags = rq.flags;
    for (int i = 0; i < rq.nhelpers; i++) in.helpers[rq.helpers[i].name] = vfn(rq.helpers[i].fn);
    for (int i = 0; i < rq.npartials; i++) {
        const hpartial & p = rq.partials[i];
        in.partials[p.name] = p.fn ? vfn(p.fn) : p.text ? vstr(std::string(p.text, p.len)) : vnull();
    }
    for (int i = 0; i < rq.nknown; i++) in.known.push_back(rq.known[i]);
    try {
        if (!prog) prog = parse(std::string(rq.tmpl, rq.tlen));
        FrameP data;
        if (rq.data) { V d = from(rq.data); data = std::make_shared<Frame>(); data->m = d->m; }
        o.out = in.render(prog, ctx, data);
    } catch (Err & e) { o.err = true; o.stage = e.stage; o.msg = e.msg; o.line = e.line; o.out.clear(); }
    o.calls = in.calls;
    return o;
}
}
