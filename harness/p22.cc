// P22: context data means the same from JSON, YAML and native values; what is no document is an error
#include "hx.hpp"
#include "suite.hpp"
#include "datashim.h"
using namespace hx; using namespace lang; using B = std::string; typedef std::vector<B> L;
// ---- what a value looks like
static void cstr(B & o, const char * p, size_t n) { o += fmt("s%zu:", n); o.append(p, n); }
static void canon(B & o, const hv * v) {
    switch (v->kind) {
        case HV_NULL: o += "n"; break; case HV_TRUE: o += "T"; break; case HV_FALSE: o += "F"; break;
        case HV_INT: o += fmt("i%ld", v->i); break; case HV_DBL: o += fmt("d%.17g", v->d); break;
        case HV_STR: cstr(o, v->s, v->n); break;
        case HV_ARR: o += "["; for (size_t i = 0; i < v->n; i++) { canon(o, v->items[i]); o += ","; } o += "]"; break;
        case HV_MAP: o += "{"; for (size_t i = 0; i < v->n; i++) { cstr(o, v->keys[i], strlen(v->keys[i])); o += "="; canon(o, v->items[i]); o += ","; } o += "}"; break;
    }
}
// ---- writers
enum { W_JSON, W_SPACED, W_CONVERT, W_FLOW, W_BLOCK, W_QUOTED, W_N };
static const char * wname[] = {"JSON", "JSON spaced and escaped", "JSON converted", "YAML flow", "YAML block", "YAML quoted"};
static int wmode(int w) { return w < W_CONVERT ? HM_JSON : w == W_CONVERT ? HM_JSON_CONVERT : HM_YAML; }
static B jq(const char * p, size_t n, bool all, bool yml = false) {
    B o = "\"";
    for (size_t i = 0; i < n; i++) {
        unsigned char c = p[i]; unsigned u = c; int k = 1;
        if (c >= 0xf0) u = (c & 7) << 18 | (p[i + 1] & 63) << 12 | (p[i + 2] & 63) << 6 | (p[i + 3] & 63), k = 4;
        else if (c >= 0xe0) u = (c & 15) << 12 | (p[i + 1] & 63) << 6 | (p[i + 2] & 63), k = 3;
        else if (c >= 0xc0) u = (c & 31) << 6 | (p[i + 1] & 63), k = 2;
        if (all || c < 32) { if (u > 0xffff && yml) o += fmt("\\U%08x", u); else if (u > 0xffff) o += fmt("\\u%04X\\u%04x", 0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 1023)); else o += fmt("\\u%04x", u); i += k - 1; }
        else if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else { o.append(p + i, k); i += k - 1; }
    }
    return o + "\"";
}
static B ysq(const char * p, size_t n) { B o = "'"; for (size_t i = 0; i < n; i++) { if ((unsigned char) p[i] < 32 || (unsigned char) p[i] > 126) return jq(p, n, true, true); if (p[i] == '\'') o += "'"; o += p[i]; } return o + "'"; }
static B num(const hv * v) { if (v->kind == HV_INT) return fmt("%ld", v->i); B s = fmt("%.17g", v->d); if (s.find_first_of(".e") == B::npos) s += ".0"; return s; }
static void text(B & o, const hv * v, int w) {
    const char * sp = w == W_SPACED ? " \n\t" : w == W_FLOW ? " " : "";
    switch (v->kind) {
        case HV_NULL: o += w == W_FLOW ? "~" : "null"; break; case HV_TRUE: o += "true"; break; case HV_FALSE: o += "false"; break;
        case HV_INT: case HV_DBL: o += num(v); break;
        case HV_STR: o += w >= W_FLOW ? (w == W_QUOTED ? ysq(v->s, v->n) : jq(v->s, v->n, true, true)) : jq(v->s, v->n, w == W_SPACED); break;
        case HV_ARR: o += "["; for (size_t i = 0; i < v->n; i++) { if (i) o += ","; o += sp; text(o, v->items[i], w); o += sp; } o += "]"; break;
        case HV_MAP: o += "{"; for (size_t i = 0; i < v->n; i++) { if (i) o += ","; o += sp; size_t n = strlen(v->keys[i]); o += w >= W_FLOW ? (w == W_QUOTED ? ysq(v->keys[i], n) : jq(v->keys[i], n, true, true)) : jq(v->keys[i], n, w == W_SPACED); o += w >= W_FLOW ? ": " : ":"; o += sp; text(o, v->items[i], w); o += sp; } o += "}"; break;
    }
}
static void block(B & o, const hv * v, int in) {
    if ((v->kind != HV_ARR && v->kind != HV_MAP) || !v->n) { text(o, v, W_QUOTED); o += "\n"; return; }
    for (size_t i = 0; i < v->n; i++) {
        o += B(in, ' ');
        if (v->kind == HV_ARR) o += "-"; else o += ysq(v->keys[i], strlen(v->keys[i])) + ":";
        const hv * x = v->items[i];
        if ((x->kind == HV_ARR || x->kind == HV_MAP) && x->n) { o += "\n"; block(o, x, in + 2); } else { o += " "; text(o, x, W_QUOTED); o += "\n"; }
    }
}
static B written(const hv * v, int w) { B o; if (w == W_BLOCK) { o = "---\n"; block(o, v, 0); } else text(o, v, w == W_CONVERT ? W_JSON : w); if (w == W_SPACED) o = " \r\n" + o + "\t "; return o; }
// ---- JSON, strictly
struct P {
    const B & t; size_t p = 0; bool bad = false, lone = false, zero = false, big = false;
    void sp() { while (p < t.size() && strchr(" \t\r\n", t[p]) && t[p]) p++; }
    bool is(char c) { if (p < t.size() && t[p] == c) { p++; return true; } return false; }
    static void utf(B & o, unsigned u) { if (u < 0x80) o += (char) u; else if (u < 0x800) { o += (char) (0xc0 | u >> 6); o += (char) (0x80 | (u & 63)); } else if (u < 0x10000) { o += (char) (0xe0 | u >> 12); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); } else { o += (char) (0xf0 | u >> 18); o += (char) (0x80 | (u >> 12 & 63)); o += (char) (0x80 | (u >> 6 & 63)); o += (char) (0x80 | (u & 63)); } }
    bool hex(unsigned & u) { u = 0; for (int i = 0; i < 4; i++, p++) { if (p >= t.size() || !isxdigit((unsigned char) t[p])) return false; u = u * 16 + (isdigit(t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10); } return true; }
    B str() {
        B o;
        while (p < t.size()) {
            unsigned char c = t[p++];
            if (c == '"') return o;
            if (c < 32) break;
            if (c != '\\') { o += (char) c; continue; }
            if (p >= t.size()) break;
            c = t[p++];
            const char * k = strchr("\"\\/bfnrt", c);
            if (c && k) { o += "\"\\/\b\f\n\r\t"[k - "\"\\/bfnrt"]; continue; }
            unsigned u, w;
            if (c != 'u' || !hex(u)) break;
            if (u >= 0xd800 && u < 0xdc00 && p + 1 < t.size() && t[p] == '\\' && t[p + 1] == 'u') { size_t at = p; p += 2; if (!hex(w)) break; if (w >= 0xdc00 && w < 0xe000) u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00); else p = at; }
            if ((u & 0xf800) == 0xd800) lone = true;     // also U+1D800 and the like, which json-c takes for half a pair
            if (!u) zero = true;
            utf(o, u);
        }
        bad = true; return o;
    }
    B value() {
        sp();
        if (is('{')) {
            std::vector<std::pair<B, B>> m; sp();
            if (!is('}')) for (;;) {
                sp(); if (!is('"')) { bad = true; return ""; }
                bool z = zero; zero = false; B k = str(); if (zero) big = true; zero = z;
                sp(); if (bad || !is(':')) { bad = true; return ""; }
                B v = value(); if (bad) return "";
                bool f = false; for (auto & e : m) if (e.first == k) { e.second = v; f = true; }
                if (!f) m.push_back({k, v});
                sp(); if (is(',')) continue; if (is('}')) break; bad = true; return "";
            }
            B o = "{"; for (auto & e : m) { cstr(o, e.first.data(), e.first.size()); o += "=" + e.second + ","; }
            return o + "}";
        }
        if (is('[')) { B o = "["; sp(); if (!is(']')) for (;;) { o += value() + ","; if (bad) return ""; sp(); if (is(',')) continue; if (is(']')) break; bad = true; return ""; } return o + "]"; }
        if (is('"')) { B s = str(), o; if (!bad) cstr(o, s.data(), s.size()); return o; }
        for (auto & w : {std::pair<const char *, const char *>{"null", "n"}, {"true", "T"}, {"false", "F"}}) if (!t.compare(p, strlen(w.first), w.first)) { p += strlen(w.first); return w.second; }
        size_t s = p; is('-');
        size_t d = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++;
        if (p == d || (t[d] == '0' && p > d + 1)) { bad = true; return ""; }
        bool fl = false;
        if (is('.')) { fl = true; d = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++; if (p == d) { bad = true; return ""; } }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { p++; fl = true; if (!is('-')) is('+'); d = p; while (p < t.size() && isdigit((unsigned char) t[p])) p++; if (p == d) { bad = true; return ""; } }
        B n = t.substr(s, p - s);
        if (fl) return fmt("d%.17g", strtod(n.c_str(), nullptr));
        errno = 0; long l = strtol(n.c_str(), nullptr, 10); if (errno) big = true;
        return fmt("i%ld", l);
    }
    explicit P(const B & s) : t(s) {}
};
static thread_local dres R1, R2;
static B got(const dres & r) { return r.err ? fmt("error %d '%s'", r.err, r.msg) : "'" + esc(B(r.out ? r.out : "", r.len)) + "'"; }
static bool checkdump(Case & c, const B & how, const B & want) {
    if (R1.err || B(R1.out ? R1.out : "", R1.len) != want) { c.fail("P22", how + ": decoded to " + got(R1) + ", is '" + esc(want) + "'"); return false; }
    if (R1.bad[0]) { c.fail("P22", how + ": " + R1.bad); return false; }
    return true;
}
static void json(Case & c, const B & t, bool rules = true) {
    P p(t); B want; if (rules) { want = p.value(); p.sp(); if (p.p != t.size()) p.bad = true; }
    for (int mode : {HM_JSON, HM_JSON_CONVERT}) {
        dv_dump(mode, nullptr, t.data(), t.size(), &R1); c.transitions();
        if (rules && !p.bad && !p.lone && !p.big) { if (!checkdump(c, "valid JSON", want)) return; }
        else if (rules && p.bad && !dv_json(t.data(), t.size())) { if (!R1.err) { c.fail("P22", "not JSON, decoded to " + got(R1)); return; } }
        else if (!R1.err && R1.bad[0]) { c.fail("P22", R1.bad); return; }
        if (R1.err && strncmp(R1.msg, "JSON", 4)) { c.fail("P22", "no parse error: " + got(R1)); return; }
    }
    c.outcome(R1.err ? R1.msg : B(R1.out, R1.len));
}
static void yaml(Case & c, const B & t) {
    int y = dv_yaml(t.data(), t.size(), &R2);
    dv_dump(HM_YAML, nullptr, t.data(), t.size(), &R1); c.transitions();
    if (y == 1) { if (!checkdump(c, "valid YAML", B(R2.out ? R2.out : "", R2.len))) return; }
    else if (y != -2 && !R1.err) { c.fail("P22", fmt("%s, decoded to ", y ? "a cycle or a key that is no scalar" : "no YAML document") + got(R1)); return; }
    else if (!R1.err && R1.bad[0]) { c.fail("P22", R1.bad); return; }
    if (R1.err && (strncmp(R1.msg, "YAML", 4) || !R1.msg[5])) { c.fail("P22", "no parse error: " + got(R1)); return; }
    c.outcome(R1.err ? R1.msg : B(R1.out, R1.len));
}
static B toks(const L & a, uint64_t i) { B r; for (unsigned k : nthseq(i, a.size())) r += a[k]; return r; }
int main(int argc, char ** argv) {
    Main m;
    m.prop = "P22";
    m.rule = "every value of the listed shapes over the listed scalars in six notations, every template of the suite with the context in every notation, every string of tokens up to the listed length, every short byte string, escape, code unit and number, every one-byte change of documents, every depth; non-trivial: distinct decoded values or outputs, by hash";
    m.parse(argc, argv);
    bool th = m.thorough();
    // ---- values
    L sc = {"null", "true", "false", "0", "1", "-7", "9223372036854775807", "-9223372036854775808", "1.5", "-0.25", "1.0", "1e300", "1e-7", "''", "'a'", "'a\\0b'", "'\\0'", "'\\n'", "' x '", "'\"\\\\/'", "'<&>'", "'\xc3\xa9'", "'\xe2\x82\xac\xf0\x9f\x98\x80'", "'1'", "'-2.5'", "'true'", "'null'", "'~'", "'a: b'", "'- a'", "'#c'", "'it\\'s'", "'.inf'", "'{}'", "'0x1f'", "'\x7f\x01'"};
    L few = {"null", "true", "1", "1.5", "''", "'a'", "'1'", "'a\\0b'"}, keys = {"a", "b", "''", "' '", "'1'", "'true'", "'~'", "'a: b'", "'\"'", "'\\n'", "'#'", "'\xc3\xa9'", "'a.b'", "'-'", "'0'", "'it\\'s'"};
    L * vals = new L;
    for (auto & s : sc) vals->push_back(s);
    for (auto & s : {"[]", "{}", "[[]]", "[{}]", "{a:[]}", "{a:{}}", "[[],[]]", "[[[]]]", "{a:{a:{}}}", "[{a:[]}]"}) vals->push_back(s);
    expand(*vals, "[$1]", {sc}); expand(*vals, "{$2:$1}", {sc, keys}); expand(*vals, "[$1,$2]", {sc, sc}); expand(*vals, "{a:$1,b:$2}", {sc, sc}); expand(*vals, "{b:$1,a:$2}", {sc, few});
    for (auto & s : {"[[$1,$2]]", "[[$1],$2]", "[$1,[$2]]", "[{a:$1},$2]", "{a:[$1],b:$2}", "{a:$1,b:[$2]}", "{a:{a:$1},b:$2}", "{b:{b:$1,a:$2}}", "[{a:$1,b:$2}]", "{a:[$1,$2]}", "[[$1],[$2]]", "{a:{a:{b:$1}},b:[[$2]]}", "[$1,[],$2]", "{'1':$1,c:{},b:$2}"}) expand(*vals, s, {th ? sc : few, sc});
    for (auto & s : {"[$1,$2,$3]", "{a:$1,b:$2,c:$3}", "[$1,{b:$2},$3]", "{a:[$1,$2],b:{b:$3}}", "[[$1,[$2]],$3]"}) expand(*vals, s, {few, few, th ? sc : few});
    Setup * sn = suite::setup();
    const B probe = "{{a}}|{{{a}}}|{{#each a}}{{@key}}{{@index}}{{@first}}{{@last}}={{this}};{{else}}none{{/each}}|{{#if a}}t{{else}}f{{/if}}|{{#with a}}[{{b}}{{../b}}{{a}}]{{/with}}|{{#a}}<{{.}}{{b}}>{{/a}}|{{^a}}inv{{/a}}|{{lookup a 0}}{{lookup a 'b'}}|{{a.b}}{{a.[1]}}{{id a}}{{> q a}}{{#each a as |v k|}}{{k}}:{{v}}{{#each v}}{{.}}{{/each}}{{/each}}";
    static hpartial qp = part("q", "({{b}}{{a}}{{.}})");
    m.add("values", vals->size(), [=](Case & c) {
        hv * v = J((*vals)[c.idx]); B want; canon(want, v);
        dv_dump(HM_NATIVE, v, "", 0, &R1); c.transitions();
        if (!checkdump(c, "native", want)) return;
        hv * root = J("{a:1,b:'B'}"); root->items[0] = v; ref::V rv = ref::from(root);
        Setup s = *sn; s.partials.push_back(qp);
        Ctx x; x.h = root; x.v = rv;
        hreq rq = req(s, probe, x);
        ref::Out o = ref::render(rq, x.v);
        hb_render(&rq, &RS); c.transitions();
        if (!compare(c, "P22", RS, o)) return;
        for (int w = 0; w < W_N; w++) {
            B t = written(v, w);
            dv_dump(wmode(w), nullptr, t.data(), t.size(), &R1); c.transitions();
            if (!checkdump(c, wname[w] + B(" '") + esc(t) + "'", want)) return;
            B t2 = written(root, w);
            rq.ctxmode = wmode(w); rq.ctxtext = t2.c_str(); rq.ctxlen = t2.size();
            hb_render(&rq, &RS); c.transitions();
            size_t n = c.failed; if (!compare(c, "P22", RS, o) || n) { return; }
        }
        if (v->kind != HV_STR) for (char end : {'\0', '\n', ' '}) { // a document and its terminator
            B t = written(v, W_JSON) + end;
            dv_dump(HM_JSON, nullptr, t.data(), t.size(), &R1); c.transitions();
            if (!checkdump(c, "followed by a terminator", want)) return;
        }
    }, [=](uint64_t i) { return esc((*vals)[i]); }, 32);
    // ---- templates
    L * tm = new L(suite::templates(th ? 2 : 1));
    if (th) tm->resize(std::min<size_t>(tm->size(), 20000));
    for (auto & t : {"{{#with a}}{{#with ../a}}{{../n}}{{/with}}{{/with}}", "{{#with a}}{{#with ../a.b}}{{../n}}{{../../n}}{{/with}}{{/with}}", "{{#with a}}{{#with this}}{{../n}}{{/with}}{{/with}}", "{{#a}}{{#with .}}{{#with @root.a}}{{../n}}|{{../../n}}{{/with}}{{/with}}{{/a}}", "{{#each l}}{{#with ../a}}{{#with ../../a}}{{../n}}{{/with}}{{/with}}{{/each}}", "{{#with .}}{{#with @root}}{{n}}{{../n}}{{/with}}{{/with}}", "{{#with (lookup . 'a')}}{{#with ../a}}{{../n}}{{/with}}{{/with}}", "{{#with (id a)}}{{#with ../a}}{{../n}}{{/with}}{{/with}}", "{{#blk a}}{{#with ../a}}{{../n}}{{/with}}{{/blk}}", "{{#each m}}{{#with ../m}}{{@key}}{{../x.n}}{{x.n}}{{/with}}{{/each}}"}) tm->push_back(t);
    static const char * texts[] = {"{n:'N<&>',s:'p',a:{n:'AN',b:{n:'ABN'}},l:[1,'two',null],m:{x:{n:'mx'},y:7},f:'F',o:{f:1,n:'on'},map:{n:'mn'}}", "{n:0,s:'ml',a:[{n:1},{n:2}],l:[],m:{},f:'plain'}", "{n:'',s:null,a:{n:[1,[2]],a:{n:'aan'}},l:[{n:'l0'},{n:'l1',a:{}}],m:[{x:1}],f:false,zz:{n:1}}", "[{n:1,a:{n:2}},2]"};
    std::vector<Ctx> * cx = new std::vector<Ctx>; for (auto t : texts) cx->push_back(ctx(t));
    for (unsigned long fl : {0ul, 1ul, 1ul << 10, 1ul << 11}) for (int w : {W_JSON, W_CONVERT, W_BLOCK}) {
        if (fl && w != W_JSON && !th) continue;
        Setup * s = suite::setup(fl); s->ctxmode = wmode(w);
        std::vector<B> * wr = new std::vector<B>; for (auto & x : *cx) wr->push_back(written(x.h, w));
        m.add(fmt("templates-%s-%lu", w == W_JSON ? "json" : w == W_CONVERT ? "converted" : "yaml", fl), tm->size() * cx->size(), [=](Case & c) {
            const B & t = (*tm)[c.idx / cx->size()]; const Ctx & x = (*cx)[c.idx % cx->size()];
            if (fl == 1 && t.find("{{> rc}}") != B::npos) { c.skip(); return; }
            hreq rq = req(*s, t, x); const B & d = (*wr)[c.idx % cx->size()];
            rq.ctxtext = d.c_str(); rq.ctxlen = d.size();
            ref::Out o; try { o = ref::render(rq, x.v); } catch (std::exception & e) { c.fail("P22", e.what()); return; }
            if (o.err && o.stage == 3) { c.skip(); return; }
            hb_render(&rq, &RS); c.transitions(); compare(c, "P22", RS, o);
        }, [=](uint64_t i) { return show(*s, (*tm)[i / cx->size()], (*cx)[i % cx->size()]); }, 128);
    }
    // ---- JSON texts
    static const L jt = {"{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " ", "-", "\""};
    m.add("json-tokens", nstrings(jt.size(), th ? 6 : 5), [](Case & c) { json(c, toks(jt, c.idx)); }, [](uint64_t i) { return esc(toks(jt, i)); }, 1024);
    static const L jo = {"{", "}", ",", ":", "\"a\"", "\"b\"", "true", "[", "]"};
    if (th) m.add("json-tokens-long", nstrings(jo.size(), 7), [](Case & c) { json(c, toks(jo, c.idx)); }, [](uint64_t i) { return esc(toks(jo, i)); }, 1024);
    auto bytes = [](uint64_t i) { B r; for (unsigned k : nthseq(i, 256)) r += (char) k; return r; };
    m.add("json-bytes", nstrings(256, th ? 3 : 2), [=](Case & c) { B t = bytes(c.idx); json(c, t, t.find('\0') == B::npos); }, [=](uint64_t i) { return esc(bytes(i)); }, 1024);
    m.add("json-string-bytes", nstrings(256, 2), [=](Case & c) { B t = "[\"" + bytes(c.idx) + "\"]"; bool high = false; for (unsigned char k : t) if (k >= 128) high = true; json(c, t, !high); }, [=](uint64_t i) { return "[\"" + esc(bytes(i)) + "\"]"; }, 1024);
    m.add("json-escapes", nstrings(256, 2), [=](Case & c) { B t = "[\"\\" + bytes(c.idx) + "\"]"; bool high = false; for (unsigned char k : t) if (k >= 128) high = true; json(c, t, !high); }, [=](uint64_t i) { return "[\"\\" + esc(bytes(i)) + "\"]"; }, 1024);
    m.add("json-code-units", 65536, [](Case & c) { json(c, fmt("[\"x\\u%04xy\"]", (unsigned) c.idx)); }, [](uint64_t i) { return fmt("\\u%04x", (unsigned) i); }, 1024);
    m.add("json-surrogates", 1024 * (th ? 1024 : 8), [=](Case & c) { unsigned n = th ? 1024 : 8; json(c, fmt("[\"\\u%04x\\u%04x\"]", 0xd800 + (unsigned) (c.idx / n), 0xdc00 + (unsigned) (c.idx % n) * (th ? 1 : 146))); }, [](uint64_t i) { return fmt("%lu", i); }, 1024);
    static const L nt = {"-", "+", "0", "1", "9", ".", "e", "E"};
    m.add("json-numbers", nstrings(nt.size(), th ? 6 : 5), [](Case & c) { json(c, toks(nt, c.idx)); if (!c.failed) json(c, "[" + toks(nt, c.idx) + "]"); }, [](uint64_t i) { return toks(nt, i); }, 1024);
    static const L docs = {"{\"a\":[1,2.5,null,true],\"b\":{\"c\":\"x\\u00e9\\n\"}}", "[\"\\\\\",-1e5,{\"\":false},[[]]]", " { \"a\" : \"b\" , \"a\" : 1 } "};
    m.add("json-changed", docs.size() * 64 * 258, [](Case & c) {
        B t = docs[c.idx / (64 * 258)]; unsigned at = c.idx / 258 % 64, k = c.idx % 258;
        if (at >= t.size()) { c.skip(); return; }
        if (k == 256) t.resize(at); else if (k == 257) t.erase(at, 1); else t[at] = k;
        bool high = false; for (unsigned char x : t) if (x >= 128 || !x) high = true;
        json(c, t, !high);
    }, [](uint64_t i) { return fmt("document %lu byte %lu to %lu", i / (64 * 258), i / 258 % 64, i % 258); }, 1024);
    // ---- YAML texts
    static const L yt = {"a", "1", ": ", "- ", "\n", "  ", "[", "]", "{", "}", ",", "'", "\"", "&a ", "*a", "~", "#", "!", "|", "? ", "---", "..."};
    m.add("yaml-tokens", nstrings(yt.size(), th ? 5 : 4), [](Case & c) { yaml(c, toks(yt, c.idx)); }, [](uint64_t i) { return esc(toks(yt, i)); }, 1024);
    static const L yf = {"[", "]", "{", "}", ", ", "a: ", "b: ", "&a ", "*a", "1"};
    m.add("yaml-flow-tokens", nstrings(yf.size(), th ? 7 : 6), [](Case & c) { yaml(c, toks(yf, c.idx)); }, [](uint64_t i) { return esc(toks(yf, i)); }, 1024);
    static const L yb = {"- ", "a: ", "b:\n", "\n", "  ", " ", "x", "&a ", "*a", "<<: "};
    m.add("yaml-block-tokens", nstrings(yb.size(), th ? 7 : 6), [](Case & c) { yaml(c, toks(yb, c.idx)); }, [](uint64_t i) { return esc(toks(yb, i)); }, 1024);
    m.add("yaml-bytes", nstrings(256, th ? 3 : 2), [=](Case & c) { B t = bytes(c.idx); if (t.find('\0') != B::npos) { c.skip(); return; } yaml(c, t); }, [=](uint64_t i) { return esc(bytes(i)); }, 1024);
    static const L ys = {"-", "+", "0", "1", "9", ".", "e", "x", "_", "n", "a", "t"};
    m.add("yaml-scalars", nstrings(ys.size(), th ? 6 : 5), [](Case & c) { yaml(c, toks(ys, c.idx)); }, [](uint64_t i) { return toks(ys, i); }, 1024);
    static const L yw = {"true", "false", "null", "~", "yes", "no", "on", "off", "nan", "inf", "infinity", ".inf", "-.inf", ".nan", "NaN", "INF", "0x10", "0o7", "010", "1e5", "1e400", "-1e400", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "1 ", " 1", "1_000", "1:30", "2001-01-01", "+1", "+", "-", ".", "e", "=", "<<", "1.", ".5", "1.5.2", "0b1", "1f", "0x", "0x1p3", "1d", "truee", "nulll", "~~"};
    m.add("yaml-words", yw.size() * 12, [=](Case & c) {
        const B & w = yw[c.idx / 12]; static const char * pat[] = {"%", "'%'", "\"%\"", "- %", "- '%'", "a: %", "%: a", "'%': a", "[%]", "{a: %}", "|\n %", ">\n %\n"};
        B t = pat[c.idx % 12]; t.replace(t.find('%'), 1, w); yaml(c, t);
    }, [](uint64_t i) { return yw[i / 12] + fmt(" form %lu", i % 12); }, 16);
    // ---- depth
    static std::vector<unsigned> depths; for (unsigned i = 0; i < (th ? 2200 : 1200); i++) depths.push_back(i);
    for (unsigned d : {5000u, 10000u, 20000u, 200000u}) depths.push_back(d);
    static const char * forms[] = {"json arrays", "json maps", "json mixed", "yaml flow arrays", "yaml flow maps", "yaml block arrays", "yaml block maps", "json mixed converted"};
    auto deep = [](unsigned f, unsigned d) { B t; 
        for (unsigned i = 0; i < d; i++) switch (f) { case 0: case 3: t += "["; break; case 1: t += "{\"a\":"; break; case 2: case 7: t += i % 2 ? "[" : "{\"a\":"; break; case 4: t += "{a: "; break; case 5: t += "- "; break; case 6: t += B(i, ' ') + "a:\n"; break; }
        t += f == 6 ? B(d, ' ') + "1" : "1";
        for (unsigned i = d; i-- > 0;) switch (f) { case 0: case 3: t += "]"; break; case 1: case 4: t += "}"; break; case 2: case 7: t += i % 2 ? "]" : "}"; break; }
        return t; };
    m.add("depth", depths.size() * 8, [=](Case & c) {
        unsigned f = c.idx % 8, d = depths[c.idx / 8];
        if ((f == 6 && d > 1200) || (f >= 3 && f <= 5 && d > 20000)) { c.skip(); return; } // libyaml takes quadratic time
        B t = deep(f, d);
        int got = dv_depth(f >= 3 && f <= 6 ? HM_YAML : f == 7 ? HM_JSON_CONVERT : HM_JSON, t.data(), t.size(), &R1); c.transitions();
        if (got < 0 ? d <= 31 || !R1.msg[0] : got != (int) d) c.fail("P22", fmt("nested %u: ", d) + (got < 0 ? fmt("error '%s'", R1.msg) : fmt("found nested %d", got)));
        c.outcome(fmt("%u %d %s", f, got, R1.msg));
    }, [=](uint64_t i) { return fmt("%s nested %u", forms[i % 8], depths[i / 8]); }, 8, 60);
    return m.go(argc, argv);
}
