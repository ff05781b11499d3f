#include <memory>
#include <set>
#include "hx.hpp"
#include "objshim.h"
#include "libh.hpp"
using namespace hx;
typedef std::string B;
typedef handlebars_value V;
struct Node;
struct Val { int k = 0; long i = 0; double f = 0; B s; bool safe = false; std::shared_ptr<Node> n; };   // k: as enum handlebars_value_type; arrays and maps from JSON are k 8
struct Node { bool map = false; std::vector<Val> a; std::vector<B> key; json_object * json = nullptr; };
enum { NUL, TRUE_, FALSE_, INT, FLT, STR, ARR, MAP, USER, PTR, HELPER, CLOS };
static std::shared_ptr<Node> node(bool map = false) { auto n = std::make_shared<Node>(); n->map = map; return n; }
static Val ofjson(json_object * j) {
    Val v;
    switch (json_object_get_type(j)) {
        case json_type_boolean: v.k = json_object_get_boolean(j) ? TRUE_ : FALSE_; break;
        case json_type_int: v.k = INT; v.i = json_object_get_int64(j); break;
        case json_type_double: v.k = FLT; v.f = json_object_get_double(j); break;
        case json_type_string: v.k = STR; v.s = json_object_get_string(j); break;
        case json_type_array: v.k = USER; v.n = node(); v.n->json = j; for (size_t i = 0; i < json_object_array_length(j); i++) v.n->a.push_back(ofjson(json_object_array_get_idx(j, i))); break;
        case json_type_object: { v.k = USER; v.n = node(true); v.n->json = j; json_object_object_foreach(j, k, x) { v.n->key.push_back(k); v.n->a.push_back(ofjson(x)); } break; }
        default: break;
    }
    return v;
}
// {{{ what can be read off a value
static bool m_true(const Val & v) { switch (v.k) { case TRUE_: return true; case INT: return v.i; case FLT: return v.f != 0; case STR: return v.s.size() && v.s != "0"; case ARR: case MAP: case USER: return v.n->a.size(); } return false; }
static B m_esc(const B & s) { B o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&#x27;"; break; case '`': o += "&#x60;"; break; default: o += c; } return o; }
static B m_text(const Val & v, bool esc) {
    switch (v.k) {
        case TRUE_: return "true"; case FALSE_: return "false"; case INT: return fmt("%ld", v.i); case FLT: return fmt("%g", v.f);
        case STR: return esc && !v.safe ? m_esc(v.s) : v.s;
        case USER: if (v.n->map) return ""; // fallthrough
        case ARR: { B o; for (size_t i = 0; i < v.n->a.size(); i++) { if (i) o += ","; o += m_text(v.n->a[i], esc); } return o; }
    }
    return "";
}
static B m_dump(const Val & v, int depth) {
    B in(depth * 4, ' '), in2(depth * 4 + 4, ' ');
    switch (v.k) {
        case NUL: return "NULL"; case TRUE_: return "boolean(true)"; case FALSE_: return "boolean(false)"; case INT: return fmt("integer(%ld)", v.i); case FLT: return fmt("float(%g)", v.f); case STR: return "string(" + B(v.s.c_str()) + ")";
        case HELPER: return fmt("(function, real type %d)", HELPER); case PTR: case CLOS: return fmt("unknown type %d", v.k);
    }
    bool map = v.n->map; size_t n = v.n->a.size();
    B o = map ? "{" : "["; if (n) o += "\n";
    for (size_t i = 0; i < n; i++) o += in2 + (map ? v.n->key[i] : fmt("%zu", i)) + " => " + m_dump(v.n->a[i], depth + 1) + "\n";
    return o + (n ? in : "") + (map ? "}" : "]");
}
static int m_type(const Val & v) { return v.k == USER ? v.n->map ? MAP : ARR : v.k; }
static bool m_eq(const Val & a, const Val & b) { if (a.k != b.k) return false; switch (a.k) { case NUL: case TRUE_: case FALSE_: case HELPER: return true; case INT: return a.i == b.i; case FLT: return a.f == b.f; case STR: return a.s == b.s; case USER: return a.n->json == b.n->json; } return a.n == b.n; }   // a JSON container is itself however often it is wrapped
static B m_show(const Val & v) { return B(v.safe ? "safe " : "") + (v.k == USER ? "json " : "") + esc(m_dump(v, 0)); }
// }}}
static handlebars_string * str(const B & s) { return handlebars_string_ctor(os_ctx, s.data(), s.size()); }
static B take(handlebars_string * s) { B r(hbs_str_val(s), hbs_str_len(s)); handlebars_string_delref(s); return r; }
// everything a value tells about itself against what was stored
static void look(V * v, const Val & m, const B & who, B & err, int depth = 0) {
    if (err.size()) return;
    auto bad = [&](const B & what) { if (err.empty()) err = who + ", which should be " + m_show(m) + ": " + what; };
    #define IS(got, want) do { auto g_ = (got); decltype(g_) w_ = (want); if (g_ != w_) { bad(#got); return; } } while (0)
    IS((int) handlebars_value_get_real_type(v), m.k);
    IS((int) handlebars_value_get_type(v), m_type(m));
    IS(handlebars_value_get_boolval(v), m_true(m));
    IS(handlebars_value_is_empty(v), !m_true(m));
    IS(handlebars_value_is_scalar(v), m.k <= STR);
    IS(handlebars_value_is_callable(v), m.k == HELPER || m.k == CLOS);
    IS(handlebars_value_count(v), m.k >= ARR && m.k <= USER ? (long) m.n->a.size() : -1);
    IS((int) handlebars_value_get_flags(v), m.safe ? 1 : 0);
    IS(handlebars_value_get_intval(v), m.k == INT ? m.i : 0);
    IS(handlebars_value_get_floatval(v), m.k == FLT ? m.f : 0);
    IS(handlebars_value_get_map(v) != nullptr, m.k == MAP); IS(handlebars_value_get_stack(v) != nullptr, m.k == ARR); IS(handlebars_value_get_string(v) != nullptr, m.k == STR);
    IS(handlebars_value_get_user(v) != nullptr, m.k == USER); IS(handlebars_value_get_closure(v) != nullptr, m.k == CLOS);
    if (m.k == STR) IS(B(handlebars_value_get_strval(v), handlebars_value_get_strlen(v)), m.s); else { IS(handlebars_value_get_strval(v) == nullptr, true); IS(handlebars_value_get_strlen(v), (size_t) 0); }
    if (m.k == PTR) IS(*(long *) handlebars_value_get_ptr_ex(v, "long"), 42L);
    handlebars_string * t = handlebars_value_to_string(v, os_ctx);
    IS(B(hbs_str_val(t), hbs_str_len(t)), m.k <= STR ? m_text(m, false) : "");
    handlebars_string_delref(t);
    IS(take(handlebars_value_expression(os_ctx, v, true)), m_text(m, true));
    IS(take(handlebars_value_expression(os_ctx, v, false)), m_text(m, false));
    IS(take(handlebars_value_expression_append(os_ctx, v, str("<"), true)), "<" + m_text(m, true));
    char * d = handlebars_value_dump(v, os_ctx, depth); B ds = d; talloc_free(d); IS(ds, m_dump(m, depth));
    HANDLEBARS_VALUE_DECL(rv); handlebars_string * nk = str("nokey");
    handlebars_string_addref(nk);
    size_t n = m.k >= ARR && m.k <= USER ? m.n->a.size() : 0; bool map = m_type(m) == MAP;
    for (size_t i : {n, n + 1, (size_t) 1 << 32, (size_t) -1}) if (handlebars_value_array_find(v, i, rv)) bad(fmt("something at index %zu", i));
    if (handlebars_value_map_find(v, nk, rv) || handlebars_value_map_str_find(v, "", 0, rv) || handlebars_value_map_str_find(v, "a\0b", 3, rv)) bad("a key that is not there is found");
    for (size_t i = 0; i < n && err.empty(); i++) {
        handlebars_value_str(rv, str("old"));
        V * e; if (!map) e = handlebars_value_array_find(v, i, rv); else { handlebars_string * k = str(m.n->key[i]); handlebars_string_addref(k); e = handlebars_value_map_find(v, k, rv); handlebars_string_delref(k); }
        if (!e) { bad(fmt("element %zu is not found", i)); break; }
        look(e, m.n->a[i], who + fmt("[%zu]", i), err, depth + 1);
        handlebars_value_null(rv);
        if (map && err.empty()) { e = handlebars_value_map_str_find(v, m.n->key[i].data(), m.n->key[i].size(), rv); if (!e) bad(fmt("element %zu is not found by name", i)); else look(e, m.n->a[i], who + fmt("[%zu]", i), err, depth + 1); }
    }
    size_t seen = 0;
    HANDLEBARS_VALUE_FOREACH_IDX_KV(v, i, k, c) {
        if (err.empty()) {
            if (i != seen || seen >= n) bad(fmt("the iteration yields index %zu where %zu is due", i, seen));
            else if (map && (!k || B(hbs_str_val(k), hbs_str_len(k)) != m.n->key[i])) bad(fmt("the iteration's key %zu is wrong", i));
            else look(c, m.n->a[i], who + fmt(" iterated %zu", i), err, depth + 1);
        }
        seen++;
    } HANDLEBARS_VALUE_FOREACH_END();
    if (seen != n) bad(fmt("the iteration yields %zu elements", seen));
    handlebars_string_delref(nk);
    HANDLEBARS_VALUE_UNDECL(rv);
}
static V * fn_h(int argc, V * argv, handlebars_options * options, handlebars_vm * vm, V * rv) { handlebars_value_integer(rv, 99); return rv; }
static V * fn_c(int localc, V * localv, int argc, V * argv, handlebars_options * options, handlebars_vm * vm, V * rv) { handlebars_value_value(rv, localv); return rv; }
static const char * JSON[] = {"[1,null,\"<\",[2]]", "{\"a\":[3],\"b\":null}", "[]", "{}"};
enum Kind { K_STORE, K_ASSIGN, K_DTOR, K_NULL, K_SAFE, K_PUSH, K_SET, K_UPDATE, K_ARR_FIND, K_MAP_FIND, K_SAME, K_CONVERT, K_CONVERT1, K_ITER_PUSH, K_ITER_SET, K_ITER_UPDATE, K_ITER_STORE, K_CALL, K_APPEND_TEXT, K_EXPR_INTO, K_CLOSURE, K_REF };
enum { S_NULL, S_TRUE, S_FALSE, S_ZERO, S_INT, S_FZERO, S_FLT, S_EMPTY, S_STR0, S_STR0X, S_STR, S_ARR, S_MAP, S_PTR, S_HELPER, S_J0, S_J1, S_J2, S_J3, S_SAMESTR, NSTORE };
static const char * store_name[] = {"null", "true", "false", "0", "-7", "0.0", "1.5", "\"\"", "\"0\"", "\"0\\0x\"", "\"a<\"", "new array", "new map", "new ptr", "helper", JSON[0], JSON[1], JSON[2], JSON[3], "a string kept elsewhere"};
struct Op { int op, i, j, a; B name; };
struct Vals : System {
    int n; size_t maxlen; int maxdepth; std::vector<Op> ops;
    V * c[3]; Val m[3]; std::vector<char> mem; size_t b0; json_object * root[4]; std::vector<json_object *> kids; handlebars_vm * vm; handlebars_string * kept; std::shared_ptr<Node> keptn;
    int nops() override { return ops.size(); }
    B name(int o) override { return ops[o].name; }
    void hold(json_object * j) {   // keeps every container in there, to see at the end that nobody else does
        if (json_object_is_type(j, json_type_array)) { for (size_t i = 0; i < json_object_array_length(j); i++) hold(json_object_array_get_idx(j, i)); }
        else if (json_object_is_type(j, json_type_object)) { json_object_object_foreach(j, k, x) { (void) k; hold(x); } }
        else return;
        kids.push_back(json_object_get(j));
    }
    void reset() override {
        if (os_ctx) os_end();
        os_reset(); vm = handlebars_vm_ctor(os_ctx); kept = str("kept<"); handlebars_string_addref(kept);
        kids.clear();
        for (int i = 0; i < 4; i++) { root[i] = json_tokener_parse(JSON[i]); hold(root[i]); }
        mem.assign(HANDLEBARS_VALUE_SIZE * 3, 0);
        for (int i = 0; i < 3; i++) { c[i] = handlebars_value_init((V *) (mem.data() + i * HANDLEBARS_VALUE_SIZE)); m[i] = Val(); }
        b0 = talloc_total_blocks(os_ctx);
    }
    static int depth(const Val & v) { if (!v.n) return 0; int d = 0; for (auto & e : v.n->a) d = std::max(d, depth(e)); return d + 1; }
    static Val & own(Val & v) { if (v.n.use_count() > 1) v.n = std::make_shared<Node>(*v.n); return v; }
    void set(Val & v, size_t i, const Val & x) { own(v); if (i == v.n->a.size()) v.n->a.push_back(x); else v.n->a[i] = x; }
    void upd(Val & v, const B & k, const Val & x) { own(v); for (size_t i = 0; i < v.n->key.size(); i++) if (v.n->key[i] == k) { v.n->a[i] = x; return; } v.n->key.push_back(k); v.n->a.push_back(x); }
    static Val conv(const Val & v, bool rec) { if (v.k != USER) return v; Val r; r.k = v.n->map ? MAP : ARR; r.n = node(v.n->map); r.n->key = v.n->key; for (auto & e : v.n->a) r.n->a.push_back(rec ? conv(e, rec) : e); return r; }
    // native containers convert what they hold; what holds nothing convertible is left as it is
    static bool convertible(const Val & v) { if (v.k == USER) return true; if (v.k != ARR && v.k != MAP) return false; for (auto & e : v.n->a) if (convertible(e)) return true; return false; }
    static Val convall(const Val & v) { if (v.k == USER) return conv(v, true); if (!convertible(v)) return v; Val r = v; r.n = std::make_shared<Node>(*v.n); for (auto & e : r.n->a) e = convall(e); return r; }
    static void fresh(Val & v) { if (v.k == USER) { v.n = std::make_shared<Node>(*v.n); } }   // found again: another value of the same content
    void store(V * v, Val & x, int what) {
        Val r;
        switch (what) {
            case S_NULL: handlebars_value_null(v); break;
            case S_TRUE: case S_FALSE: handlebars_value_boolean(v, what == S_TRUE); r.k = what == S_TRUE ? TRUE_ : FALSE_; break;
            case S_ZERO: case S_INT: r.k = INT; r.i = what == S_INT ? -7 : 0; handlebars_value_integer(v, r.i); break;
            case S_FZERO: case S_FLT: r.k = FLT; r.f = what == S_FLT ? 1.5 : 0; handlebars_value_float(v, r.f); break;
            case S_EMPTY: case S_STR0: case S_STR0X: case S_STR: r.k = STR; r.s = what == S_EMPTY ? B() : what == S_STR0 ? B("0") : what == S_STR0X ? B("0\0x", 3) : B("a<"); handlebars_value_str(v, str(r.s)); break;
            case S_SAMESTR: r.k = STR; r.s = "kept<"; handlebars_value_str(v, kept); break;
            case S_ARR: r.k = ARR; r.n = node(); handlebars_value_array(v, handlebars_stack_ctor(os_ctx, 0)); break;
            case S_MAP: r.k = MAP; r.n = node(true); handlebars_value_map(v, handlebars_map_ctor(os_ctx, 0)); break;
            case S_PTR: { r.k = PTR; r.n = node(); long * p = talloc(os_ctx, long); *p = 42; handlebars_value_ptr(v, handlebars_ptr_ctor(os_ctx, long, p, false)); break; }
            case S_HELPER: r.k = HELPER; handlebars_value_helper(v, fn_h); break;
            default: r = ofjson(root[what - S_J0]); handlebars_value_init_json_object(os_ctx, v, root[what - S_J0]);
        }
        x = r;
    }
    bool apply(int o, B & err) override {
        const Op & p = ops[o]; Val & x = m[p.i], & y = m[p.j]; V * v = c[p.i], * w = c[p.j];
        auto fits = [&](const Val & e) { return depth(e) + 1 <= maxdepth; };
        switch (p.op) {
            case K_STORE: store(v, x, p.a); return true;
            case K_ASSIGN: handlebars_value_value(v, w); x = Val(y); return true;
            case K_DTOR: handlebars_value_dtor(v); x = Val(); return true;
            case K_SAFE: handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING); x.safe = true; return true;
            case K_PUSH: { if (x.k != ARR || x.n->a.size() >= maxlen || !fits(y)) return false; Val e = y; handlebars_value_array_push(v, w); set(x, x.n->a.size(), e); return true; }
            case K_SET: { if (x.k != ARR || (size_t) p.a >= x.n->a.size() || !fits(y)) return false; Val e = y; handlebars_value_array_set(v, p.a, w); set(x, p.a, e); return true; }
            case K_UPDATE: { if (x.k != MAP || x.n->a.size() + 1 > maxlen || !fits(y)) return false; Val e = y; B k(1, 'a' + p.a); handlebars_string * ks = str(k); handlebars_string_addref(ks); handlebars_value_map_update(v, ks, w); handlebars_string_delref(ks); upd(x, k, e); return true; }
            case K_ARR_FIND: {   // into v, which may be the array
                if (y.k != ARR && y.k != USER) return false;
                bool has = m_type(y) == ARR && (size_t) p.a < y.n->a.size();
                V * r = handlebars_value_array_find(w, p.a, v);
                if ((r != nullptr) != has) { err = "found or not"; return true; }
                if (has) { if (r != v) { err = "found elsewhere"; return true; } Val e = y.n->a[p.a]; if (y.k == USER) fresh(e); x = e; }
                return true;
            }
            case K_MAP_FIND: {
                if (y.k != MAP && y.k != USER) return false;
                B k(1, 'a' + p.a); Val e; bool has = false;
                if (m_type(y) == MAP) for (size_t i = 0; i < y.n->a.size(); i++) if (y.n->key[i] == k) { has = true; e = y.n->a[i]; }
                V * r = handlebars_value_map_str_find(w, k.data(), k.size(), v);
                if ((r != nullptr) != has) { err = "found or not"; return true; }
                if (has) { if (y.k == USER) fresh(e); x = e; }
                return true;
            }
            case K_SAME: {   // the very content, stored again
                bool f = false; (void) f; Val e = y; e.safe = false;
                switch (y.k) {
                    case STR: handlebars_value_str(v, handlebars_value_get_string(w)); break;
                    case ARR: handlebars_value_array(v, handlebars_value_get_stack(w)); break;
                    case MAP: handlebars_value_map(v, handlebars_value_get_map(w)); break;
                    case USER: handlebars_value_user(v, handlebars_value_get_user(w)); break;
                    case CLOS: handlebars_value_closure(v, handlebars_value_get_closure(w)); break;
                    default: return false;
                }
                x = e; return true;
            }
            case K_CONVERT: { if (x.k < ARR || x.k > USER) return false; handlebars_value_convert(v); Val r = convall(x); if (x.k == USER || r.n != x.n) { bool keep = x.k != USER && x.n.use_count() == 1; if (keep) { x.n->a = r.n->a; } else x = r; } return true; }
            case K_CONVERT1: { if (x.k != USER) return false; handlebars_value_convert_ex(v, false); x = conv(x, false); return true; }
            case K_ITER_PUSH: case K_ITER_SET: case K_ITER_UPDATE: case K_ITER_STORE: {
                if (x.k < ARR || x.k > USER || x.n->a.empty()) return false;
                if (p.op == K_ITER_PUSH && (x.k != ARR || x.n->a.size() >= maxlen || !fits(y) )) return false;
                if (p.op == K_ITER_SET && (x.k != ARR || !fits(y))) return false;
                if (p.op == K_ITER_UPDATE && (x.k != MAP || x.n->a.size() + 1 > maxlen || !fits(y))) return false;
                Val before = x; size_t len = x.n->a.size(), seen = 0; B e2;
                HANDLEBARS_VALUE_FOREACH_IDX(v, idx, child) {
                    if (idx < len) look(child, before.n->a[idx], fmt("%c iterated %zu", 'A' + p.i, idx), e2);
                    if (seen == 0) {
                        Val e = y;
                        if (p.op == K_ITER_PUSH) { handlebars_value_array_push(v, w); set(x, len, e); }
                        else if (p.op == K_ITER_SET) { handlebars_value_array_set(v, 0, w); set(x, 0, e); }
                        else if (p.op == K_ITER_UPDATE) { handlebars_string * ks = str("c"); handlebars_string_addref(ks); handlebars_value_map_update(v, ks, w); handlebars_string_delref(ks); upd(x, "c", e); }
                        else store(v, x, p.a);
                    }
                    seen++;
                } HANDLEBARS_VALUE_FOREACH_END();
                if (e2.size()) err = e2; else if (seen != len && !(p.op == K_ITER_PUSH && seen == len + 1)) err = fmt("the iteration of %zu elements yielded %zu", len, seen);
                return true;
            }
            case K_CALL: {
                if (y.k != HELPER && y.k != CLOS) return false;
                if (p.i == p.j) return false;
                handlebars_value_call(w, 0, nullptr, nullptr, vm, v);
                if (y.k == HELPER) { x = Val(); x.k = INT; x.i = 99; } else x = Val(y.n->a[0]);
                return true;
            }
            case K_APPEND_TEXT: {   // the text of y, appended to a string that is x's too
                if (x.k != STR || x.s.size() > 6) return false;
                handlebars_string * s = handlebars_value_get_string(v); handlebars_string_addref(s);
                B want = x.s + m_text(y, true), was = x.s;
                s = handlebars_value_expression_append(os_ctx, w, s, true);
                if (B(hbs_str_val(s), hbs_str_len(s)) != want) err = "the text appended is wrong";
                handlebars_string_delref(s); return true;
            }
            case K_CLOSURE: { if (depth(y) + 1 > maxdepth) return false; Val r; r.k = CLOS; r.n = node(); r.n->a.push_back(y); handlebars_value_closure(v, handlebars_closure_ctor(vm, fn_c, 1, w)); x = r; return true; }
        }
        return false;
    }
    // shared content by number, so that sharing is part of the state
    void pr(const Val & v, std::map<Node *, int> & id, B & o) {
        o += fmt("%d%s", v.k, v.safe ? "s" : "");
        if (!v.n) { o += v.k == INT ? fmt("(%ld)", v.i) : v.k == FLT ? fmt("(%g)", v.f) : v.k == STR ? "(" + fmt("%zu:", v.s.size()) + v.s + ")" : B(); return; }
        auto it = id.find(v.n.get());
        if (it != id.end()) { o += fmt("#%d", it->second); return; }
        int k = id.size(); id[v.n.get()] = k;
        o += "{"; for (size_t i = 0; i < v.n->a.size(); i++) { if (v.n->map) o += v.n->key[i] + ":"; pr(v.n->a[i], id, o); o += ","; } o += "}";
    }
    uint64_t print() override { std::map<Node *, int> id; B o; for (int i = 0; i < n; i++) { pr(m[i], id, o); o += ";"; } return hash(o); }
    void observe(B & err) override {
        for (int i = 0; i < n; i++) look(c[i], m[i], B(1, 'A' + i), err);
        for (int i = 0; i < n && err.empty(); i++) for (int j = 0; j < n; j++) if (handlebars_value_eq(c[i], c[j]) != m_eq(m[i], m[j])) err = fmt("comparison of %c and %c", 'A' + i, 'A' + j);
    }
    void finish(B & err) override {
        if (!os_ctx) return;
        if (err.size()) { os_ctx = nullptr; return; }
        for (int i = 0; i < n; i++) { handlebars_value_dtor(c[i]); m[i] = Val(); }
        B e; for (int i = 0; i < n; i++) look(c[i], Val(), "a destroyed value", err);
        if (talloc_total_blocks(os_ctx) != b0) err = fmt("%zd blocks remain", (ssize_t) (talloc_total_blocks(os_ctx) - b0));
        for (auto r : root) json_object_put(r);
        // containers were recorded inside out
        for (size_t i = kids.size(); i-- > 0;) if (json_object_put(kids[i]) != 1) err = "a JSON object remains";
        if (err.empty()) os_end(); else os_ctx = nullptr;
    }
};
static Vals * vals(int n, size_t maxlen, int maxdepth, std::vector<int> stores, bool iter) {
    auto * s = new Vals; s->n = n; s->maxlen = maxlen; s->maxdepth = maxdepth;
    auto add = [&](int op, int i, int j, int a, B nm) { s->ops.push_back({op, i, j, a, nm}); };
    for (int i = 0; i < n; i++) {
        char I = 'A' + i;
        for (int k : stores) add(K_STORE, i, i, k, fmt("%c:=%s", I, store_name[k]));
        add(K_DTOR, i, i, 0, fmt("destroy %c", I)); add(K_SAFE, i, i, 0, fmt("mark %c safe", I));
        add(K_CONVERT, i, i, 0, fmt("convert %c", I)); add(K_CONVERT1, i, i, 0, fmt("convert %c without its elements", I));
        for (int j = 0; j < n; j++) {
            char J = 'A' + j;
            add(K_ASSIGN, i, j, 0, fmt("%c:=%c", I, J)); add(K_PUSH, i, j, 0, fmt("push %c onto %c", J, I)); add(K_SET, i, j, 0, fmt("%c[0]:=%c", I, J));
            add(K_UPDATE, i, j, 0, fmt("%c.a:=%c", I, J)); add(K_UPDATE, i, j, 1, fmt("%c.b:=%c", I, J));
            add(K_ARR_FIND, i, j, 0, fmt("%c:=%c[0]", I, J)); add(K_ARR_FIND, i, j, 3, fmt("%c:=%c[3]", I, J)); add(K_MAP_FIND, i, j, 0, fmt("%c:=%c.a", I, J)); add(K_MAP_FIND, i, j, 1, fmt("%c:=%c.b", I, J));
            add(K_SAME, i, j, 0, fmt("%c:=content of %c", I, J)); add(K_CALL, i, j, 0, fmt("%c:=call %c", I, J)); add(K_APPEND_TEXT, i, j, 0, fmt("append text of %c to the string of %c", J, I)); add(K_CLOSURE, i, j, 0, fmt("%c:=closure over %c", I, J));
            if (iter) { add(K_ITER_PUSH, i, j, 0, fmt("push %c onto %c while iterating", J, I)); add(K_ITER_SET, i, j, 0, fmt("%c[0]:=%c while iterating", I, J)); add(K_ITER_UPDATE, i, j, 0, fmt("%c.c:=%c while iterating", I, J)); }
        }
        if (iter) for (int k : {S_NULL, S_ARR, S_J0}) add(K_ITER_STORE, i, i, k, fmt("%c:=%s while iterating", I, store_name[k]));
    }
    return s;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P14";
    m.rule = "every operation applied in every reachable state of a few real values (states told apart by content and by what is shared), everything readable compared after each, everything released and counted at the end; non-trivial: distinct states";
    m.parse(argc, argv);
    bool th = m.thorough();
    uint64_t lim = th ? 1 << 24 : 1 << 21;
    std::vector<int> all, few = {S_INT, S_STR, S_ARR, S_MAP}, cont = {S_ARR, S_MAP, S_J0, S_J1, S_SAMESTR};
    for (int i = 0; i < NSTORE; i++) all.push_back(i);
    m.explore("two-values-every-kind", th ? 5 : 4, [=] { return vals(2, 3, 3, all, true); }, lim);
    m.explore("three-values", th ? 6 : 4, [=] { return vals(3, 3, 3, few, false); }, lim);
    m.explore("two-values-containers", th ? 8 : 5, [=] { return vals(2, 3, 3, cont, true); }, lim);
    m.explore("one-value", th ? 10 : 6, [=] { return vals(1, 3, 3, all, true); }, lim);
    return m.go(argc, argv);
}
