#include "hx.hpp"
#include "objshim.h"
using namespace hx;
// the dictionary every handle should be: entries in insertion order
struct Dict {
    std::vector<std::pair<int, int>> e;
    int find(int k) const { for (auto & p : e) if (p.first == k) return p.second; return -1; }
    void set(int k, int v) { for (auto & p : e) if (p.first == k) { p.second = v; return; } e.push_back({k, v}); }
    void del(int k) { for (size_t i = 0; i < e.size(); i++) if (e[i].first == k) { e.erase(e.begin() + i); return; } }
    std::string str() const { std::string s = "{"; for (auto & p : e) s += fmt("%sk%d:%d", s.size() > 1 ? "," : "", p.first, p.second); return s + "}"; }
};
static std::string str(const mo_seq & s) { Dict d; for (int i = 0; i < s.n && i < 64; i++) d.e.push_back({s.key[i], s.val[i]}); return d.str(); }
enum { ITER = 100, ITER_ALL, ITER_VALUE, SHARE, DROP, SWAP, COPY };
struct Op { int op, a, b, at, iop; std::string name; };
struct Maps : System {
    std::vector<const char *> keys; int cap; std::vector<Op> ops;
    handlebars_map * h[2] = {nullptr, nullptr}; Dict d[2]; long refused = 0; int apart = 0, maxapart = 1; // operations since A and B are separate
    int nops() override { return ops.size(); }
    std::string name(int o) override { return ops[o].name; }
    void reset() override {
        if (os_ctx) os_end();
        os_reset(); mo_setup(keys.data(), keys.size());
        h[0] = mo_new(cap); h[1] = nullptr; d[0].e.clear(); d[1].e.clear(); refused = 0; apart = 0;
    }
    // what an operation makes of the dictionary; false: it must be refused
    static bool model(Dict & m, int op, int a, int b) {
        switch (op) {
            case MO_ADD: case MO_STR_ADD: if (m.find(a) >= 0) return false; m.set(a, b); break;
            case MO_UPDATE: case MO_STR_UPDATE: m.set(a, b); break;
            case MO_UPDATE_OWN_KEY: if (m.find(a) >= 0) m.set(a, b); break;
            case MO_REMOVE: case MO_STR_REMOVE: case MO_REMOVE_OWN_KEY: m.del(a); break;
            case MO_UPDATE_OWN_VALUE: if (m.find(b) >= 0) m.set(a, m.find(b)); break;
            case MO_ADD_OWN_VALUE: if (m.find(b) < 0) break; if (m.find(a) >= 0) return false; m.set(a, m.find(b)); break;
            case MO_SORT: std::sort(m.e.begin(), m.e.end()); break;
            case MO_SORT_R: std::sort(m.e.begin(), m.e.end(), [](auto & x, auto & y) { return x.second != y.second ? x.second > y.second : x.first > y.first; }); break;
        }
        return true;
    }
    bool apply(int o, std::string & err) override {
        const Op & p = ops[o];
        if (h[1] && h[0] != h[1] && p.op != DROP && p.op != SWAP && p.op != SHARE && apart >= maxapart) return false;
        bool r = apply1(p, err);
        if (!h[1] || h[0] == h[1]) apart = 0; else if (p.op != SWAP) apart++;
        return r;
    }
    bool apply1(const Op & p, std::string & err) {
        switch (p.op) {
            case SHARE: if (h[1] == h[0]) return false; if (h[1]) mo_unref(h[1]); h[1] = h[0]; mo_ref(h[1]); d[1] = d[0]; return true;
            case DROP: if (!h[1]) return false; mo_unref(h[1]); h[1] = nullptr; d[1].e.clear(); return true;
            case SWAP: if (!h[1] || h[0] == h[1]) return false; std::swap(h[0], h[1]); std::swap(d[0], d[1]); return true;
            case COPY: if (h[1]) mo_unref(h[1]); h[1] = mo_copy(h[0], p.a); d[1] = d[0]; return true;
            case ITER: return iter(p, err);
            case ITER_ALL: {
                Dict before = d[0]; mo_seq s;
                mo_iter(&h[0], -1, p.iop, 0, p.b, p.a, &s);
                if (s.err) { err = fmt("refused: %s", os_msg); return true; }
                for (auto & x : before.e) if (p.a < 0 || x.second == p.a) model(d[0], p.iop, x.first, p.b);
                if (str(s) != before.str()) err = "the iteration yielded " + str(s) + " instead of " + before.str();
                return true;
            }
            case ITER_VALUE: {
                if (d[0].e.size() <= (size_t) p.at) return false;
                mo_seq s; Dict before = d[0];
                mo_iter_value_update(&h[0], p.at, p.a, p.b, &s);
                d[0].set(p.a, p.b);
                if (str(s) != before.str()) err = "the iteration yielded " + str(s) + " instead of " + before.str();
                return true;
            }
            default: {
                Dict m = d[0];
                bool ok = model(m, p.op, p.a, p.b);
                int e = mo_op(&h[0], p.op, p.a, p.b);
                if (e) refused++;
                if (ok && e) err = fmt("refused: %s", os_msg);
                if (!ok && !e) err = "accepted";
                if (ok) d[0] = m;
                return true;
            }
        }
    }
    bool iter(const Op & p, std::string & err) {
        if (d[0].e.size() <= (size_t) p.at) return false;
        mo_seq s; Dict before = d[0];
        bool has = before.find(p.a) >= 0;
        bool ok = model(d[0], p.iop, p.a, p.b);
        mo_iter(&h[0], p.at, p.iop, p.a, p.b, -1, &s);
        if (s.err) {
            d[0] = before;
            // a map may refuse to grow while it is iterated over
            if (ok && !(!has && (p.iop == MO_UPDATE || p.iop == MO_ADD))) { err = fmt("refused: %s", os_msg); return true; }
        } else if (!ok) { err = "accepted"; return true; }
        // each entry once, in order; the one that is changed, removed or added may be seen either way from then on
        std::string y; bool bad = false;
        int i = 0, n = s.n > 64 ? 64 : s.n;
        for (size_t j = 0; j < before.e.size(); j++) {
            auto [k, v] = before.e[j];
            bool later = (int) j > p.at && k == p.a && !s.err;
            if (i < n && s.key[i] == k && (s.val[i] == v || (later && s.val[i] == d[0].find(k)))) i++;
            else if (later && d[0].find(k) < 0) {}
            else bad = true;
        }
        if (!s.err && !has && d[0].find(p.a) >= 0 && i < n && s.key[i] == p.a && s.val[i] == d[0].find(p.a)) i++;
        if (i != s.n) bad = true;
        if (bad) err = "the iteration yielded " + str(s) + ", before " + before.str() + ", after " + d[0].str();
        return true;
    }
    uint64_t print() override {
        uint64_t x = hash(d[0].str() + d[1].str());
        x = mo_print(h[0], x);
        if (h[1] && h[1] != h[0]) x = mo_print(h[1], x);
        return hash(&x, 8, h[1] ? h[1] == h[0] ? 2 : 10 + apart : 0);
    }
    void look(handlebars_map * m, const Dict & e, const char * who, std::string & err) {
        auto bad = [&](std::string s) { if (err.empty()) err = fmt("%s, which should be %s: ", who, e.str().c_str()) + s; };
        if (mo_count(m) != e.e.size()) bad(fmt("count %zu", mo_count(m)));
        for (size_t k = 0; k < keys.size(); k++) for (int st = 0; st < 2; st++) { int f = mo_find(m, k, st); if (f != e.find(k)) bad(fmt("find k%zu gives %d", k, f)); }
        size_t slots = mo_slots(m);
        if (slots < e.e.size()) { bad(fmt("%zu slots", slots)); return; }
        if (!!mo_sparse(m) != (slots != e.e.size())) bad("sparse flag");
        int l = mo_load(m); if (l < 0 || l > 100 || (l == 0) != e.e.empty()) bad(fmt("load factor %d", l));
        Dict at; int k, v;
        for (size_t i = 0; i < slots; i++) { if (mo_at(m, i, &k, &v)) bad("index in range refused"); else if (k != -1) at.e.push_back({k, v}); }
        if (at.str() != e.str()) bad("by index: " + at.str());
        for (size_t i : {slots, slots + 1, slots + 1000, (size_t) -1}) if (mo_at(m, i, &k, &v) == 0 || mo_at(m, i, &k, &v) == 1000) bad("index out of range accepted");
        if (err.size()) return;
        for (int ok = 0; ok < 2; ok++) for (int ik = 0; ik < 2; ik++) {
            mo_seq o, in; int n;
            mo_nested(m, ok, ik, &o, &in, &n);
            if (str(o) != e.str()) bad(fmt("iteration %d around %d yields ", ok, ik) + str(o));
            if ((size_t) n != e.e.size() || (n && (str(in) != e.str() || in.err))) bad(fmt("iteration %d inside of %d yields ", ik, ok) + str(in));
        }
        mo_seq s; mo_iter_value(m, &s); if (str(s) != e.str()) bad("value iterator yields " + str(s));
    }
    void observe(std::string & err) override {
        look(h[0], d[0], "A", err);
        if (h[1]) look(h[1], d[1], "B", err);
        if (h[1]) look(h[0], d[0], "A", err);
    }
    void finish(std::string & err) override {
        if (!os_ctx) return;
        if (err.size()) { os_ctx = nullptr; return; }
        mo_unref(h[0]); if (h[1]) mo_unref(h[1]);
        long m = os_live("map"), s = os_live("string");
        if (m != 1) err = fmt("%ld maps remain", m - 1);
        s -= keys.size() + 1;   // what a refused operation made for itself stays with the context
        if (s < 0 || s > refused) err = fmt("%ld key strings remain", s);
        os_end();
    }
};
static std::vector<const char *> pickkeys(int n, const char * how) {
    std::vector<const char *> r; uint32_t base = 0;
    if (!strcmp(how, "same")) {   // two keys of one length and hash
        std::vector<std::pair<uint32_t, int>> v;
        for (int i = 0; i < 260000; i++) { std::string s = fmt("%08d", i); v.push_back({mo_hash(s.data(), 8), i}); }
        std::sort(v.begin(), v.end());
        for (size_t i = 1; i < v.size(); i++) if (v[i].first == v[i - 1].first) { r = {strdup(fmt("%08d", v[i - 1].second).c_str()), strdup(fmt("%08d", v[i].second).c_str())}; return r; }
        how = "collide";
    }
    for (int i = 0; i < 2000000 && (int) r.size() < n; i++) {
        std::string s = fmt("k%d", i); uint32_t x = mo_hash(s.data(), s.size());
        bool ok = true; int j = r.size();
        if (!strcmp(how, "collide")) { if (!j) base = x; ok = x % 5 == base % 5 && x % 11 == base % 11; }
        else if (!strcmp(how, "wrap")) { ok = x % 5 == 4u - (j % 2) && x % 11 == 10u - (j % 2); }   // last slots, wrapping around
        else if (!strcmp(how, "spread")) { ok = x % 5 == (unsigned) j % 5 && x % 11 == (unsigned) j % 11; }
        if (ok) r.push_back(strdup(s.c_str()));
    }
    return r;
}
static Maps * maps(const char * how, int nk, int cap, int level) {
    auto * m = new Maps; m->keys = pickkeys(nk, how); m->cap = cap;
    auto add = [&](int op, int a, int b, std::string n, int at = 0, int iop = 0) { m->ops.push_back({op, a, b, at, iop, n}); };
    for (int k = 0; k < nk; k++) {
        add(MO_UPDATE, k, 1, fmt("update(k%d,1)", k));
        add(MO_REMOVE, k, 0, fmt("remove(k%d)", k));
        if (level < 1) continue;
        add(MO_STR_UPDATE, k, 2, fmt("str_update(k%d,2)", k));
        add(k % 2 ? MO_STR_ADD : MO_ADD, k, 3, fmt("%sadd(k%d,3)", k % 2 ? "str_" : "", k));
        if (level < 2) continue;
        add(MO_UPDATE_OWN_VALUE, k, (k + 1) % nk, fmt("update(k%d,find(k%d))", k, (k + 1) % nk));
        add(MO_ADD_OWN_VALUE, k, (k + 1) % nk, fmt("add(k%d,find(k%d))", k, (k + 1) % nk));
        add(k % 2 ? MO_STR_REMOVE : MO_REMOVE_OWN_KEY, k, 0, fmt("%s(k%d)", k % 2 ? "str_remove" : "remove own key", k));
        add(MO_UPDATE_OWN_KEY, k, 1, fmt("update(own key k%d,1)", k));
        for (int at = 0; at < 2; at++) {
            add(ITER, k, 0, fmt("foreach at %d remove(k%d)", at, k), at, MO_REMOVE);
            add(ITER, k, 2, fmt("foreach at %d update(k%d,2)", at, k), at, MO_UPDATE);
            if (k < 2) add(ITER, k, 1, fmt("foreach at %d add(k%d,1)", at, k), at, MO_ADD);
            add(ITER_VALUE, k, at + 1, fmt("value iterator at %d update(k%d,%d)", at, k, at + 1), at);
        }
    }
    add(MO_REHASH, 1, 0, "rehash(force)");
    add(MO_REHASH, 0, 0, "rehash");
    add(MO_COMPACT, 0, 0, "compact");
    add(MO_SORT_R, 0, 0, "sort_r");
    if (level >= 1) {
        add(MO_SORT, 0, 0, "sort");
        add(SHARE, 0, 0, "B:=A"); add(DROP, 0, 0, "drop B"); add(SWAP, 0, 0, "swap"); add(COPY, 0, 0, "B:=copy(A)");
        add(ITER_ALL, -1, 0, "foreach remove each", 0, MO_REMOVE);
        add(ITER_ALL, 1, 0, "foreach remove each that is 1", 0, MO_REMOVE);
        add(ITER_ALL, -1, 2, "foreach update each to 2", 0, MO_UPDATE);
        add(ITER_ALL, -1, 2, "foreach compact", 0, MO_COMPACT);
    }
    if (level >= 2) { add(COPY, 9, 0, "B:=copy(A,9)"); add(ITER_ALL, -1, 0, "foreach rehash", 0, MO_REHASH); }
    return m;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P11";
    m.rule = "every operation applied in every reachable state of the real map (states told apart by the map's memory and the dictionary it should be), everything readable compared after each; non-trivial: distinct states";
    m.parse(argc, argv);
    bool th = m.thorough();
    uint64_t lim = th ? 1 << 24 : 1 << 21;
    m.explore("all-operations-2-colliding-keys", th ? 16 : 8, [] { return maps("collide", 2, 0, 2); }, lim);
    m.explore("2-keys-of-one-hash", th ? 12 : 6, [] { return maps("same", 2, 0, 1); }, lim);
    m.explore("all-operations-3-keys-wrapping", th ? 9 : 5, [] { return maps("wrap", 3, 2, 2); }, lim);
    m.explore("sharing-3-colliding-keys", th ? 12 : 6, [] { return maps("collide", 3, 1, 1); }, lim);
    m.explore("growth-7-spread-keys", th ? 12 : 7, [] { return maps("spread", 7, 1, 0); }, lim);
    m.explore("growth-5-colliding-keys", th ? 16 : 8, [] { return maps("collide", 5, 3, 0); }, lim);
    return m.go(argc, argv);
}
