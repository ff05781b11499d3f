#include <functional>
#include <memory>
#include "hx.hpp"
#include "objshim.h"
#include "libh.hpp"
using namespace hx;
typedef handlebars_string S;
typedef std::string B;
static B q(const B & s) { B x = s.size() > 80 ? s.substr(0, 80) : s; return "\"" + esc(x) + "\"" + (x.size() < s.size() ? fmt("... (%zu bytes)", s.size()) : B()); }
static S * mk(const B & b) { return handlebars_string_ctor(os_ctx, b.data(), b.size()); }
static std::pair<B, B> clash;      // two strings of one length and hash
static void find_clash() {
    std::vector<std::pair<uint32_t, uint32_t>> v;
    for (uint32_t i = 0; i < 260000; i++) { B s = fmt("%08u", i); v.push_back({handlebars_string_hash(s.data(), 8), i}); }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) if (v[i].first == v[i - 1].first) { clash = {fmt("%08u", v[i - 1].second), fmt("%08u", v[i].second)}; return; }
    clash = {"", ""};
}
// {{{ definitions
static B d_replace(const B & s, const B & f, const B & r) {
    if (f.empty()) return s;
    B o; size_t p = 0;
    for (size_t q; (q = s.find(f, p)) != B::npos; p = q + f.size()) o += s.substr(p, q - p) + r;
    return o + s.substr(p);
}
static B d_reduce(const B & s, const B & f, const B & r) { return r.size() > f.size() ? s : d_replace(s, f, r); }
static B d_ltrim(const B & s, const B & w) { size_t i = 0; while (i < s.size() && w.find(s[i]) != B::npos) i++; return s.substr(i); }
static B d_rtrim(const B & s, const B & w) { size_t i = s.size(); while (i > 0 && w.find(s[i - 1]) != B::npos) i--; return s.substr(0, i); }
static B d_truncate(const B & s, size_t a, size_t b) { if (b > s.size()) b = s.size(); return a >= b ? "" : s.substr(a, b - a); }
static B d_html(const B & s) { B o; for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; case '\'': o += "&#x27;"; break; case '`': o += "&#x60;"; break; default: o += c; } return o; }
static B d_add(const B & s, const B & w) {
    static const char * from = "\n\t\r\a\v\b\f", * to = "ntravbf"; (void) to;
    B o;
    for (char c : s) {
        if (w.find(c) == B::npos) { o += c; continue; }
        unsigned char u = c;
        if (u >= 32 && u <= 126) { o += '\\'; o += c; continue; }
        const char * p = u ? strchr(from, c) : nullptr;
        if (p) { o += '\\'; o += "ntravbf"[p - from]; } else o += fmt("\\%03o", u);
    }
    return o;
}
static B d_strip(const B & s) {
    B o; size_t n = s.size();
    for (size_t i = 0; i < n; i++) {
        if (s[i] != '\\' || i + 1 == n) { o += s[i]; continue; }
        char c = s[++i];
        static const B f = "nratvbf", t = "\n\r\a\t\v\b\f";
        size_t k = f.find(c);
        if (k != B::npos) { o += t[k]; continue; }
        if (c == 'x' && i + 1 < n && isxdigit((unsigned char) s[i + 1])) { int v = 0, d = 0; while (d < 2 && i + 1 < n && isxdigit((unsigned char) s[i + 1])) { char h = s[++i]; v = v * 16 + (isdigit((unsigned char) h) ? h - '0' : (h | 32) - 'a' + 10); d++; } o += (char) v; continue; }
        if (c >= '0' && c <= '7') { int v = c - '0', d = 1; while (d < 3 && i + 1 < n && s[i + 1] >= '0' && s[i + 1] <= '7') { v = v * 8 + s[++i] - '0'; d++; } o += (char) v; continue; }
        o += c;
    }
    return o;
}
static B d_indent(const B & s, const B & ind) {
    if (s.empty()) return "";
    B o = ind; size_t n = s.size(); bool nl = s[n - 1] == '\n'; if (nl) n--;
    for (size_t i = 0; i < n; i++) { o += s[i]; if (s[i] == '\n') o += ind; }
    return o + (nl ? "\n" : "");
}
// }}}
// {{{ checks
static void right(Case & c, S * s, const B & want, const char * who) {
    B got(hbs_str_val(s), hbs_str_len(s));
    if (got != want) { c.fail("P13", fmt("%s is %s, should be %s", who, q(got).c_str(), q(want).c_str())); return; }
    if (talloc_get_size(s) < HBS_STR_SIZE(want.size())) { c.fail("P13", fmt("%s: a buffer of %zu for %zu bytes", who, talloc_get_size(s), want.size())); return; }
    if (hbs_str_val(s)[want.size()]) c.fail("P13", fmt("%s is not terminated", who));
    if (hbs_str_hash(s) != handlebars_string_hash(want.data(), want.size())) c.fail("P13", fmt("%s has a hash that is not that of its bytes", who));
}
enum { FRESH, OWNED, OWNED_HASHED, OWNED_SLACK, SHARED, SHARED_HASHED, SHARED_SLACK, ETERNAL, NSTATE };
static const char * state_name[] = {"fresh", "referenced", "referenced, hash known", "referenced, with room", "shared", "shared, hash known", "shared, with room", "immortal"};
struct Tgt {
    S * s, * other = nullptr; B bytes; int st;
    Tgt(const B & b, int state) : bytes(b), st(state) {
        s = mk(b);
        if (st == OWNED_SLACK || st == SHARED_SLACK) s = handlebars_string_extend(os_ctx, s, b.size() + 20);
        if (st == OWNED_HASHED || st == SHARED_HASHED) (void) hbs_str_hash(s);
        if (st != FRESH) handlebars_string_addref(s);
        if (st >= SHARED && st < ETERNAL) { handlebars_string_addref(s); other = s; }
        if (st == ETERNAL) { handlebars_string_immortalize(s); other = s; }
    }
    // the operation gave r in place of s
    void done(Case & c, S * r, const B & want) {
        right(c, r, want, "the result");
        if (other) right(c, other, bytes, "the other reference");
        if (!c.failed) { handlebars_string_delref(r); if (other) { right(c, other, bytes, "the other reference, after the result is released,"); if (st == ETERNAL) talloc_free(other); else handlebars_string_delref(other); } }
    }
};
static void begin() { if (!os_ctx) os_reset(); }
static size_t blocks0() { return talloc_total_blocks(os_ctx); }
static void end(Case & c, size_t b0) {
    if (c.failed) { os_ctx = nullptr; return; }
    size_t n = talloc_total_blocks(os_ctx);
    if (n != b0) { c.fail("P13", fmt("%zd blocks remain", (ssize_t) (n - b0))); os_ctx = nullptr; }
}
static Case * cur;
// one operation in one state of its target
static void one(Case & c, const B & t, int st, const B & want, std::function<S *(S *)> op) {
    begin(); size_t b0 = blocks0();
    { Tgt x(t, st); S * r = op(x.s); x.done(c, r, want); }
    c.trace(); c.outcome(hash(want)); c.state(hash(t + want, st));
    end(c, b0);
}
// a new string
static void fresh(Case & c, const B & t, int st, const B & want, std::function<S *(S *)> op) {
    begin(); size_t b0 = blocks0();
    Tgt x(t, st);
    S * r = op(x.s);
    if (r == x.s) c.fail("P13", "gave its argument, not a new string");
    else { right(c, r, want, "the result"); right(c, x.s, t, "the argument"); }
    if (!c.failed) { handlebars_string_delref(r); right(c, x.s, t, "the argument, after the result is released,"); x.done(c, x.s, t); }
    c.trace(); c.outcome(hash(want)); c.state(hash(t + want, st));
    end(c, b0);
}
// }}}
static std::vector<B> words(const B & al, int n) {
    std::vector<B> v;
    for (int len = 0; len <= n; len++) { uint64_t k = ipow(al.size(), len); for (uint64_t i = 0; i < k; i++) { B s; uint64_t x = i; for (int j = 0; j < len; j++) { s += al[x % al.size()]; x /= al.size(); } v.push_back(s); } }
    return v;
}
static const size_t MAX = -1;
static const std::vector<size_t> SIZES = {0, 1, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 239, 240, 241, 255, 256, 257, 300, 341, 342, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, 2047, 2048, 2049, 4096, 5000, 70000};

struct Seq : System {
    struct Op { B name; std::function<S *(S * a, S * b)> real; std::function<B(const B & a, const B & b)> def; };
    std::vector<Op> ops; size_t maxlen; size_t b0 = 0;
    S * h[2]; B d[2]; bool has = false, same = false;
    enum { SHARE = 0, DROP, SWAP, COPY, NEW, HASHA, IMMORTAL, N };
    bool imm = false;
    int nops() override { return N + ops.size(); }
    std::string name(int o) override { static const char * n[] = {"B:=A", "drop B", "swap", "B:=copy(A)", "B:=\"\\0a\"", "hash", "immortal A"}; return o < N ? n[o] : ops[o - N].name; }
    void reset() override { if (os_ctx) os_end(); os_reset(); b0 = blocks0(); h[0] = handlebars_string_init(os_ctx, 0); handlebars_string_addref(h[0]); d[0] = ""; has = same = imm = false; }
    void drop() { handlebars_string_delref(h[1]); has = same = false; }
    bool apply(int o, std::string & err) override {
        switch (o) {
            case SHARE: if (has) return false; h[1] = h[0]; handlebars_string_addref(h[1]); d[1] = d[0]; has = same = true; return true;
            case DROP: if (!has || imm) return false; drop(); return true;
            case SWAP: if (!has || same) return false; std::swap(h[0], h[1]); std::swap(d[0], d[1]); return true;
            case COPY: if (has) return false; h[1] = handlebars_string_copy_ctor(os_ctx, h[0]); handlebars_string_addref(h[1]); d[1] = d[0]; has = true; return true;
            case NEW: if (has) return false; h[1] = mk(B("\0a", 2)); handlebars_string_addref(h[1]); d[1] = B("\0a", 2); has = true; return true;
            case HASHA: (void) hbs_str_hash(h[0]); return true;
            case IMMORTAL: if (imm || !same) return false; imm = true; handlebars_string_immortalize(h[0]); return true;
        }
        auto & p = ops[o - N];
        B n = p.def(d[0], has ? d[1] : d[0]);
        if (n.size() > maxlen) return false;
        S * r = p.real(h[0], has ? h[1] : h[0]);
        h[0] = r; d[0] = n;
        if (same && r != h[1]) same = false;
        if (same && d[0] != d[1]) err = "a shared string was changed in place";
        return true;
    }
    uint64_t print() override { uint64_t x = os_image(h[0], hash(d[0])); if (has) x = same ? hash(&x, 8, 3) : os_image(h[1], hash(d[1], x)); return x; }
    void look(int i, std::string & err) {
        S * s = h[i]; B got(hbs_str_val(s), hbs_str_len(s));
        if (got != d[i]) err = fmt("%c is %s, should be %s", 'A' + i, q(got).c_str(), q(d[i]).c_str());
        else if (talloc_get_size(s) < HBS_STR_SIZE(got.size()) || hbs_str_val(s)[got.size()]) err = fmt("%c is not terminated", 'A' + i);
    }
    void observe(std::string & err) override {
        look(0, err); if (err.empty() && has) look(1, err);
        if (err.empty()) for (int i = 0; i <= has; i++) { if (hbs_str_hash(h[i]) != handlebars_string_hash(d[i].data(), d[i].size())) err = "a hash is not that of the bytes"; }
        if (err.empty() && has && handlebars_string_eq(h[0], h[1]) != (d[0] == d[1])) err = "the comparison of A with B is wrong";
    }
    void finish(std::string & err) override {
        if (!os_ctx) return;
        if (err.size()) { os_ctx = nullptr; return; }
        if (!imm) { handlebars_string_delref(h[0]); if (has) drop(); if (blocks0() != b0) err = fmt("%zd blocks remain", (ssize_t) (blocks0() - b0)); }
        os_end();
    }
};
static Seq * seq(size_t maxlen) {
    auto * s = new Seq; s->maxlen = maxlen;
    auto add = [&](B n, std::function<S *(S *, S *)> r, std::function<B(const B &, const B &)> d) { s->ops.push_back({n, r, d}); };
    for (B t : {B("a"), B("\0", 1), B("\\"), B("&"), B("\n")}) {
        add("append " + q(t), [=](S * a, S *) { return handlebars_string_append(os_ctx, a, t.data(), t.size()); }, [=](const B & a, const B &) { return a + t; });
    }
    add("append B", [](S * a, S * b) { return handlebars_string_append_str(os_ctx, a, b); }, [](const B & a, const B & b) { return a + b; });
    add("append A", [](S * a, S *) { return handlebars_string_append_str(os_ctx, a, a); }, [](const B & a, const B &) { return a + a; });
    add("append escaped B", [](S * a, S * b) { return handlebars_string_htmlspecialchars_append(os_ctx, a, HBS_STR_STRL(b)); }, [](const B & a, const B & b) { return a + d_html(b); });
    add("print", [](S * a, S *) { return handlebars_string_asprintf_append(os_ctx, a, "%d", 8); }, [](const B & a, const B &) { return a + "8"; });
    add("ltrim", [](S * a, S *) { return handlebars_string_ltrim(a, "a\0", 2); }, [](const B & a, const B &) { return d_ltrim(a, B("a\0", 2)); });
    add("rtrim", [](S * a, S *) { return handlebars_string_rtrim(a, "a\0", 2); }, [](const B & a, const B &) { return d_rtrim(a, B("a\0", 2)); });
    add("truncate 1,", [](S * a, S *) { return handlebars_string_truncate(a, 1, MAX); }, [](const B & a, const B &) { return d_truncate(a, 1, MAX); });
    add("truncate 0,1", [](S * a, S *) { return handlebars_string_truncate(a, 0, 1); }, [](const B & a, const B &) { return d_truncate(a, 0, 1); });
    add("reduce aa->\\0", [](S * a, S *) { return handlebars_str_reduce(a, "aa", 2, "\0", 1); }, [](const B & a, const B &) { return d_reduce(a, "aa", B("\0", 1)); });
    add("unescape", [](S * a, S *) { return handlebars_string_stripcslashes(a); }, [](const B & a, const B &) { return d_strip(a); });
    add("compact", [](S * a, S *) { return handlebars_string_compact(a); }, [](const B & a, const B &) { return a; });
    add("extend", [](S * a, S *) { return handlebars_string_extend(os_ctx, a, 40); }, [](const B & a, const B &) { return a; });
    return s;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P13";
    m.rule = "each operation on every combination of argument strings and every state of its target string (fresh, referenced, shared, immortal, with room, hash known), then operation sequences state by state; result, other references, hashes, terminators and blocks left compared; non-trivial: distinct targets and results";
    m.parse(argc, argv);
    bool th = m.thorough();
    find_clash();
    auto rest = [](B n) { return [n](uint64_t) { return n; }; };
    // target x args, all states
    auto space3 = [&](const char * name, std::vector<B> t, std::vector<B> a, std::vector<B> b, std::function<void(Case &, const B &, const B &, const B &, int)> f, int states = NSTATE) {
        auto T = std::make_shared<std::vector<B>>(t), A = std::make_shared<std::vector<B>>(a), Bv = std::make_shared<std::vector<B>>(b);
        auto dec = [=](uint64_t i, int & st, B & x, B & y, B & z) { st = i % states; i /= states; z = (*Bv)[i % Bv->size()]; i /= Bv->size(); y = (*A)[i % A->size()]; x = (*T)[i / A->size()]; };
        m.add(name, (uint64_t) t.size() * a.size() * b.size() * states,
            [=](Case & c) { int st; B x, y, z; dec(c.idx, st, x, y, z); f(c, x, y, z, st); },
            [=](uint64_t i) { int st; B x, y, z; dec(i, st, x, y, z); return fmt("%s: target %s (%s), %s, %s", name, q(x.size() > 80 ? x.substr(0, 80) + "..." : x).c_str(), state_name[st], q(y).c_str(), q(z).c_str()); }, 256);
    };
    std::vector<B> none = {""};
    B n3("ab\0", 3), app("a&\0", 3);
    auto big = [&]() { std::vector<B> v; for (size_t n : SIZES) for (int k = 0; k < 4; k++) { B s; for (size_t i = 0; i < n; i++) s += k == 0 ? 'a' : k == 1 ? '&' : k == 2 ? (i % 3 ? 'a' : '\n') : (char) (i * 37); v.push_back(s); } return v; }();
    int L = th ? 4 : 3;
    space3("append", words(app, L), words(app, L), none, [](Case & c, const B & s, const B & t, const B &, int st) {
        one(c, s, st, s + t, [&](S * x) { return handlebars_string_append(os_ctx, x, t.data(), t.size()); });
        if (c.failed) return;
        one(c, s, st, s + t, [&](S * x) { S * y = mk(t); S * r = handlebars_string_append_str(os_ctx, x, y); if (B(hbs_str_val(y), hbs_str_len(y)) != t) c.fail("P13", "the appended string changed"); handlebars_string_delref(y); return r; });
    });
    space3("append-own-bytes", words(app, L), words("01234", 2), none, [](Case & c, const B & s, const B & t, const B &, int st) {
        if (t.size() != 2) { c.skip(); return; }
        size_t a = t[0] - '0', n = t[1] - '0'; if (a + n > s.size()) { c.skip(); return; }
        one(c, s, st, s + s.substr(a, n), [&](S * x) { return handlebars_string_append(os_ctx, x, hbs_str_val(x) + a, n); });
        if (!c.failed) one(c, s, st, s + d_html(s.substr(a, n)), [&](S * x) { return handlebars_string_htmlspecialchars_append(os_ctx, x, hbs_str_val(x) + a, n); });
        if (!c.failed && a == 0 && n == s.size()) one(c, s, st, s + s, [&](S * x) { return handlebars_string_append_str(os_ctx, x, x); });
    });
    std::vector<B> spec = words(B("&<>\"'`a\0", 8), th ? 4 : 3);
    for (int i = 0; i < 256; i++) spec.push_back(B("x") + (char) i);
    space3("html-escape", {"", "a", B("\0&", 2)}, spec, none, [](Case & c, const B & s, const B & t, const B &, int st) {
        one(c, s, st, s + d_html(t), [&](S * x) { return handlebars_string_htmlspecialchars_append(os_ctx, x, t.data(), t.size()); });
        if (s.empty() && st == 0 && !c.failed) fresh(c, t, FRESH, d_html(t), [&](S *) { return handlebars_string_htmlspecialchars(os_ctx, t.data(), t.size()); });
    });
    space3("reduce", words(n3, th ? 6 : 5), words(n3, 2), words(n3, 2), [](Case & c, const B & s, const B & f, const B & r, int st) {
        one(c, s, st, d_reduce(s, f, r), [&](S * x) { return handlebars_str_reduce(x, f.data(), f.size(), r.data(), r.size()); });
    });
    space3("replace", words(n3, th ? 6 : 5), words(n3, 2), words(n3, th ? 3 : 2), [](Case & c, const B & s, const B & f, const B & r, int st) {
        if (f == "b" || (f.size() && f[0] == 'b')) { c.skip(); return; }   // as "a", with a and b exchanged
        fresh(c, s, st, d_replace(s, f, r), [&](S * x) { return handlebars_str_replace(os_ctx, x, f.data(), f.size(), r.data(), r.size()); });
    });
    space3("search", words(n3, th ? 6 : 5), words(n3, 3), none, [](Case & c, const B & s, const B & f, const B &, int) {
        // exactly as long as allocated, so that a read beyond it is seen
        char * hs = (char *) malloc(s.size() ? s.size() : 1), * nd = (char *) malloc(f.size() ? f.size() : 1); memcpy(hs, s.data(), s.size()); memcpy(nd, f.data(), f.size());
        const char * r = handlebars_strnstr(hs, s.size(), nd, f.size());
        size_t w = f.empty() ? B::npos : s.find(f);
        if ((r ? (size_t) (r - hs) : B::npos) != w) c.fail("P13", fmt("found at %zd, should be %zd", r ? r - hs : -1, (ssize_t) w));
        free(hs); free(nd); c.trace(); c.outcome(w); c.state(hash(s + "|" + f));
    }, 1);
    space3("trim", words(n3, th ? 6 : 5), words(n3, 2), none, [](Case & c, const B & s, const B & w, const B &, int st) {
        one(c, s, st, d_ltrim(s, w), [&](S * x) { return handlebars_string_ltrim(x, w.data(), w.size()); });
        if (!c.failed) one(c, s, st, d_rtrim(s, w), [&](S * x) { return handlebars_string_rtrim(x, w.data(), w.size()); });
    });
    space3("trim-bytes", {"x"}, words("0123456789abcdef", 2), none, [](Case & c, const B &, const B & t, const B &, int st) {
        if (t.size() != 2) { c.skip(); return; }
        B s(1, (char) strtol(t.c_str(), nullptr, 16)), y = s + "_" + s;
        one(c, y, st, s == "_" ? "" : "_" + s, [&](S * x) { return handlebars_string_ltrim(x, s.data(), s.size()); });
        if (!c.failed) one(c, y, st, s == "_" ? "" : s + "_", [&](S * x) { return handlebars_string_rtrim(x, s.data(), s.size()); });
    });
    static const size_t at[] = {0, 1, 2, 3, 4, 5, 6, 1000, MAX};
    space3("truncate", words(n3, 4), words("012345678", 1), words("012345678", 1), [](Case & c, const B & s, const B & a, const B & b, int st) {
        if (a.empty() || b.empty()) { c.skip(); return; }
        size_t i = at[a[0] - '0'], j = at[b[0] - '0'];
        one(c, s, st, d_truncate(s, i, j), [&](S * x) { return handlebars_string_truncate(x, i, j); });
    });
    std::vector<B> esc = words(B("\\nx0178fa\xff\0", 11), 4);
    for (int i = 0; i < 256; i++) { esc.push_back(B("\\") + (char) i); esc.push_back(B("\\x4") + (char) i); esc.push_back(B("\\x") + (char) i + "q"); esc.push_back(B("\\1") + (char) i + "1"); }
    space3("unescape", esc, none, none, [](Case & c, const B & s, const B &, const B &, int st) { one(c, s, st, d_strip(s), [&](S * x) { return handlebars_string_stripcslashes(x); }); });
    std::vector<B> all; for (int i = 0; i < 256; i++) { all.push_back(B(1, (char) i)); all.push_back(B("\\") + (char) i + "1"); all.push_back(B(1, (char) i) + "\\" + (char) i); }
    for (auto & w : words(B("\\n1\n\xff\0", 6), th ? 5 : 4)) all.push_back(w);
    std::vector<B> whats = words(B("\\n\n\xff\0", 5), 2); { B x; for (int i = 0; i < 256; i++) x += (char) i; whats.push_back(x); x.erase(x.find('\\'), 1); whats.push_back(x);x = B(); for (int i = 0; i < 256; i++) if (!isalnum(i)) x += (char) i; whats.push_back(x); }
    space3("escape", all, whats, none, [](Case & c, const B & s, const B & w, const B &, int st) {
        if (st != FRESH && st != SHARED_HASHED) { c.skip(); return; }
        fresh(c, s, st, d_add(s, w), [&](S * x) { return handlebars_string_addcslashes(os_ctx, x, w.data(), w.size()); });
        // with the backslash but no letter or digit escaped, unescaping undoes it
        if (!c.failed && w.find('\\') != B::npos && std::none_of(w.begin(), w.end(), [](unsigned char ch) { return isalnum(ch); })) one(c, s, st, s, [&](S * x) { S * e = handlebars_string_addcslashes(os_ctx, x, w.data(), w.size()); e = handlebars_string_stripcslashes(e); B g(hbs_str_val(e), hbs_str_len(e)); if (g != s) c.fail("P13", "escaping and unescaping gives " + q(g)); handlebars_string_delref(e); return x; });
    });
    B lines("a\n \0", 4);
    space3("indent", words(lines, th ? 5 : 4), words(B(" >\n", 3), 2), {"", "b\n"}, [](Case & c, const B & s, const B & in, const B & pre, int st) {
        begin(); size_t b0 = blocks0(); S * i = mk(in);
        Tgt x(s, st);   // the input is consumed
        S * r;
        if (pre.empty()) r = handlebars_string_indent(os_ctx, x.s, i); else { S * p = mk(pre); r = handlebars_string_indent_append(os_ctx, p, x.s, i); }
        right(c, i, in, "the indentation");
        x.done(c, r, pre + d_indent(s, in)); c.trace(); c.outcome(hash(s + in)); c.state(hash(s + in + pre, st));
        if (!c.failed) handlebars_string_delref(i);
        end(c, b0);
    });
    space3("indent-append-shared", words(lines, 3), {"", " "}, {"", "b"}, [](Case & c, const B & s, const B & in, const B & pre, int st) {
        one(c, pre, st, pre + d_indent(s, in), [&](S * x) { S * i = mk(in), * y = mk(s); S * r = handlebars_string_indent_append(os_ctx, x, y, i); handlebars_string_delref(i); return r; });
    });
    space3("format", {"", "a", B("\0b", 2)}, {"", "a", "%d", B(200, 'w')}, {"%s", "%d", "%.3s", "%5s", "%-4d|", "%c", "%%", "", "x", "%zu %s"}, [](Case & c, const B & s, const B & t, const B & f, int st) {
        auto pr = [&](auto && g) {
            if (f == "%s" || f == "%.3s" || f == "%5s") return g(t.c_str(), 0); if (f == "%d" || f == "%-4d|") return g((int) t.size() - 1, 0); if (f == "%c") return g(t.empty() ? 0 : 'z', 0); if (f == "%zu %s") return g((size_t) 12345678901ull, t.c_str()); return g(0, 0); };
        B w = pr([&](auto a, auto b) { char buf[1024]; int n = snprintf(buf, sizeof buf, f.c_str(), a, b); return B(buf, n); });
        one(c, s, st, s + w, [&](S * x) { return pr([&](auto a, auto b) { return handlebars_string_asprintf_append(os_ctx, x, f.c_str(), a, b); }); });
        if (!c.failed && s.empty() && st == 0) fresh(c, t, FRESH, w, [&](S *) { return pr([&](auto a, auto b) { return handlebars_string_asprintf(os_ctx, f.c_str(), a, b); }); });
    });
    space3("compact-extend", words(n3, 3), words("0123", 2), none, [](Case & c, const B & s, const B & a, const B &, int st) {
        one(c, s, st, s, [&](S * x) { for (char k : a) { x = k == '0' ? handlebars_string_compact(x) : handlebars_string_extend(os_ctx, x, k == '1' ? 0 : k == '2' ? 5 : 500); } return x; });
    });
    // equality: every pair, in every combination of known hashes; and pairs with equal hashes
    std::vector<B> eqs = words(n3, 4); eqs.push_back(clash.first); eqs.push_back(clash.second); eqs.push_back(clash.first + B("\0", 1)); eqs.push_back(B("ab\0" "c", 4)); eqs.push_back(B("ab\0" "d", 4));
    space3("equal", eqs, eqs, none, [](Case & c, const B & s, const B & t, const B &, int st) {
        if (st == SHARED || st == ETERNAL) { c.skip(); return; }
        one(c, s, st, s, [&](S * x) { S * y = mk(t); if (st == SHARED_HASHED) (void) hbs_str_hash(y);
            if (handlebars_string_eq(x, y) != (s == t) || handlebars_string_eq(y, x) != (s == t) || !handlebars_string_eq(x, x)) c.fail("P13", s == t ? "equal strings differ" : "different strings are equal");
            char * p = (char *) malloc(t.size() ? t.size() : 1); memcpy(p, t.data(), t.size());
            if (hbs_str_eq_strl(x, p, t.size()) != (s == t)) c.fail("P13", "comparison with plain bytes is wrong");
            if (s == t && (hbs_str_hash(x) != hbs_str_hash(y) || handlebars_hash_xxh3(p, t.size()) != handlebars_hash_xxh3(hbs_str_val(x), s.size()) || handlebars_hash_djbx33a(p, t.size()) != handlebars_hash_djbx33a(hbs_str_val(x), s.size()))) c.fail("P13", "equal bytes, different hashes");
            uint32_t dj = 5381; for (unsigned char ch : t) dj = dj * 33 + ch;
            if (handlebars_hash_djbx33a(p, t.size()) != dj) c.fail("P13", "handlebars_hash_djbx33a is not the hash of all bytes");
            free(p); handlebars_string_delref(y); return x; });
    });
    // joining
    auto parts = std::make_shared<std::vector<std::vector<B>>>();
    { std::vector<B> w = {"", "a", B("\0", 1), "bc"}; for (int n = 0; n <= (th ? 5 : 4); n++) for (uint64_t i = 0; i < ipow(w.size(), n); i++) { std::vector<B> v; uint64_t x = i; for (int j = 0; j < n; j++) { v.push_back(w[x % w.size()]); x /= w.size(); } parts->push_back(v); } }
    static const std::vector<B> seps = {"", ",", "::", B("\0", 1)};
    m.add("join", parts->size() * seps.size(), [=](Case & c) {
        auto & v = (*parts)[c.idx / seps.size()]; const B & sep = seps[c.idx % seps.size()];
        begin(); size_t b0 = blocks0(); B want; std::vector<S *> p;
        for (size_t i = 0; i < v.size(); i++) { if (i) want += sep; want += v[i]; p.push_back(mk(v[i])); }
        p.push_back(nullptr);
        S * r = handlebars_string_implode(os_ctx, sep.data(), sep.size(), p.data());
        right(c, r, want, "the result");
        for (size_t i = 0; i < v.size() && !c.failed; i++) { right(c, p[i], v[i], "a part"); handlebars_string_delref(p[i]); }
        if (!c.failed) handlebars_string_delref(r);
        c.trace(); c.outcome(hash(want)); c.state(c.idx); end(c, b0);
    }, [=](uint64_t i) { B s = "join with " + q(seps[i % seps.size()]) + ":"; for (auto & x : (*parts)[i / seps.size()]) s += " " + q(x); return s; });
    // all operations on strings of many sizes
    space3("sizes", big, {"append", "reduce", "replace", "ltrim", "rtrim", "truncate", "unescape", "escape", "html", "indent", "join", "compact", "copy"}, none, [](Case & c, const B & s, const B & op, const B &, int st) {
        if (op == "append") one(c, s, st, s + s + "x", [&](S * x) { x = handlebars_string_append(os_ctx, x, s.data(), s.size()); return handlebars_string_append(os_ctx, x, "x", 1); });
        else if (op == "reduce") one(c, s, st, d_reduce(s, "a", ""), [&](S * x) { return handlebars_str_reduce(x, "a", 1, "", 0); });
        else if (op == "replace") fresh(c, s, st, d_replace(s, "a", "bcd"), [&](S * x) { return handlebars_str_replace(os_ctx, x, "a", 1, "bcd", 3); });
        else if (op == "ltrim") one(c, s, st, d_ltrim(s, "a"), [&](S * x) { return handlebars_string_ltrim(x, "a", 1); });
        else if (op == "rtrim") one(c, s, st, d_rtrim(s, "a"), [&](S * x) { return handlebars_string_rtrim(x, "a", 1); });
        else if (op == "truncate") one(c, s, st, d_truncate(s, 1, s.size() / 2), [&](S * x) { return handlebars_string_compact(handlebars_string_truncate(x, 1, s.size() / 2)); });
        else if (op == "unescape") { B e = d_add(s, "\\&"); one(c, e, st, s, [&](S * x) { return handlebars_string_stripcslashes(x); }); }
        else if (op == "escape") fresh(c, s, st, d_add(s, "a\\\n"), [&](S * x) { return handlebars_string_addcslashes(os_ctx, x, "a\\\n", 3); });
        else if (op == "html") { fresh(c, s, st, d_html(s), [&](S * x) { return handlebars_string_htmlspecialchars(os_ctx, hbs_str_val(x), hbs_str_len(x)); }); if (!c.failed) one(c, s, st, s + d_html(s), [&](S * x) { return handlebars_string_htmlspecialchars_append(os_ctx, x, s.data(), s.size()); }); }
        else if (op == "indent") one(c, s, st, d_indent(s, "  "), [&](S * x) { S * i = mk("  "); S * r = handlebars_string_indent(os_ctx, x, i); handlebars_string_delref(i); return r; });
        else if (op == "join") fresh(c, s, st, s + "," + s, [&](S * x) { S * p[] = {x, x, nullptr}; return handlebars_string_implode(os_ctx, ",", 1, p); });
        else if (op == "compact") one(c, s, st, s, [&](S * x) { x = handlebars_string_extend(os_ctx, x, s.size() + 3000); return handlebars_string_compact(x); });
        else if (op == "copy") fresh(c, s, st, s, [&](S * x) { return handlebars_string_copy_ctor(os_ctx, x); });
    });
    m.explore("sequences", th ? 12 : 7, [=] { return seq(th ? 5 : 4); }, th ? 1 << 24 : 1 << 21);
    return m.go(argc, argv);
}
