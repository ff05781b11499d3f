#include <memory>
#include "hx.hpp"
#include "objshim.h"
using namespace hx;
struct List { std::vector<int> e; size_t protect = 0; std::string str() const { std::string s = "["; for (int x : e) s += fmt("%s%d", s.size() > 1 ? "," : "", x); return s + fmt("]p%zu", protect); } };
enum { SHARE = 100, DROP, SWAP, COPY, ITER_PUSH };
struct Op { int op; size_t a; int b; std::string name; };
struct Stacks : System {
    int cap; bool fixed; std::vector<Op> ops; size_t maxlen;
    handlebars_stack * h[2]; std::shared_ptr<List> d[2]; std::vector<std::pair<so_buf, so_buf>> saved; void * mem = nullptr;
    int nops() override { return ops.size(); }
    std::string name(int o) override { return ops[o].name; }
    void reset() override {
        if (os_ctx) os_end();
        os_reset(); so_setup();
        if (fixed) { free(mem); mem = malloc(so_size(cap)); }
        h[0] = so_new(cap, fixed, mem); h[1] = nullptr; d[0] = std::make_shared<List>(); d[1].reset(); saved.clear();
    }
    bool shared() { return d[1] && d[0] == d[1]; }
    void own() { if (shared()) d[0] = std::make_shared<List>(*d[0]); }
    bool apply(int o, std::string & err) override {
        const Op & p = ops[o];
        long r; so_buf b{0, 0};
        auto expect = [&](int e, bool ok) { if (ok && e) err = fmt("refused: %s", os_msg); if (!ok && !e) err = "accepted"; return true; };
        List & l = *d[0];
        size_t n = l.e.size();
        switch (p.op) {
            case SHARE: if (shared()) return false; if (h[1]) so_unref(h[1]); h[1] = h[0]; so_ref(h[1]); d[1] = d[0]; return true;
            case DROP: if (!h[1]) return false; so_unref(h[1]); h[1] = nullptr; d[1].reset(); return true;
            case SWAP: if (!h[1] || shared() || saved.size()) return false; std::swap(h[0], h[1]); std::swap(d[0], d[1]); return true;
            case COPY: { if (h[1]) so_unref(h[1]); h[1] = so_copy(h[0], p.a); auto x = std::make_shared<List>(l); x->protect = 0; d[1] = x; return true; }
            case SO_PUSH: case SO_VALUE_PUSH: case SO_PUSH_OWN: case SO_VALUE_PUSH_OWN: {
                if (n >= maxlen + (fixed ? 1 : 0)) return false;
                bool o2 = p.op == SO_PUSH_OWN || p.op == SO_VALUE_PUSH_OWN;
                if (o2 && p.a >= n) return false;
                int v = o2 ? l.e[p.a] : p.b;
                bool ok = !fixed || n < (size_t) cap;
                int e = so_op(&h[0], p.op, p.a, p.b, &b, &r);
                if (ok) { own(); d[0]->e.push_back(v); }
                return expect(e, ok);
            }
            case SO_SET: case SO_VALUE_SET: case SO_SET_OWN: {
                if (p.op == SO_SET_OWN && (size_t) p.b >= n) return false;
                if (p.a == n && n >= maxlen + (fixed ? 1 : 0)) return false;
                bool ok = p.a == n ? !fixed || n < (size_t) cap : p.a < n && p.a >= l.protect;
                int v = p.op == SO_SET_OWN ? l.e[p.b] : p.b;
                int e = so_op(&h[0], p.op, p.a, p.b, &b, &r);
                if (ok) { own(); if (p.a == n) d[0]->e.push_back(v); else d[0]->e[p.a] = v; }
                return expect(e, ok);
            }
            case SO_POP: {
                bool ok = n == 0 || (!shared() && n > l.protect);
                int e = so_op(&h[0], p.op, 0, p.b, &b, &r);
                expect(e, ok);
                if (err.empty() && ok && r != (n ? l.e.back() : -1)) err = fmt("gave %ld", r);
                if (ok && n) l.e.pop_back();
                return true;
            }
            case SO_TRUNCATE: {
                bool ok = n <= p.a || (!shared() && p.a >= l.protect);
                int e = so_op(&h[0], p.op, p.a, 0, &b, &r);
                if (n > p.a && !shared()) { size_t to = std::max(p.a, l.protect); if (n > to) l.e.resize(to); }
                return expect(e, ok);
            }
            case SO_PROTECT: {
                if (saved.size()) return false;
                size_t to = std::min(p.a, n);
                so_op(&h[0], p.op, to, 0, &b, &r);
                if (r != (long) l.protect) err = fmt("the old protection was %ld", r);
                l.protect = to;
                return true;
            }
            case SO_SAVE: {
                if (saved.size() >= 2) return false;
                so_op(&h[0], p.op, 0, 0, &b, &r);
                if (b.count != n || b.protect != l.protect) err = fmt("saved %zu and %zu", b.count, b.protect);
                saved.push_back({b, {n, l.protect}});
                l.protect = n;
                return true;
            }
            case SO_RESTORE: {
                if (saved.empty()) return false;
                so_buf m = saved.back().second;
                bool ok = n <= m.count || !shared();
                int e = so_op(&h[0], p.op, 0, 0, &saved.back().first, &r);
                saved.pop_back();
                l.protect = m.protect;
                if (ok && n > m.count) l.e.resize(m.count);
                return expect(e, ok);
            }
            case ITER_PUSH: {
                if (n <= p.a || n >= maxlen) return false;
                mo_seq s; List before = l;
                so_iter_push(&h[0], p.a, p.b, &s);
                own(); d[0]->e.push_back(p.b);
                std::vector<int> y(s.val, s.val + std::min(s.n, 64));
                if (y != before.e && y != d[0]->e) err = fmt("the iteration yielded %d elements", s.n);
                return true;
            }
        }
        return false;
    }
    uint64_t print() override {
        uint64_t x = hash(d[0]->str() + (d[1] ? d[1]->str() : ""));
        for (auto & s : saved) x = hash(&s.second, sizeof s.second, x);
        if (!fixed) x = so_print(h[0], x);
        if (h[1] && h[1] != h[0]) x = so_print(h[1], x);
        return hash(&x, 8, h[1] ? h[1] == h[0] ? 2 : 1 : 0);
    }
    void look(handlebars_stack * s, const List & l, const char * who, std::string & err) {
        auto bad = [&](std::string m) { if (err.empty()) err = fmt("%s, which should be %s: ", who, l.str().c_str()) + m; };
        size_t n = l.e.size();
        if (so_count(s) != n) { bad(fmt("count %zu", so_count(s))); return; }
        for (size_t i = 0; i < n; i++) { if (so_get(s, i) != l.e[i]) bad(fmt("element %zu is %d", i, so_get(s, i))); if (!fixed && so_find(s, i) != l.e[i]) bad(fmt("value finds %d at %zu", so_find(s, i), i)); }
        for (size_t i : {n, n + 1, n + 7, (size_t) 1 << 32, (size_t) -1}) if (so_get(s, i) != -1 || (!fixed && so_find(s, i) != -1)) bad(fmt("something at index %zu", i));
        if (so_top(s) != (n ? l.e.back() : -1)) bad(fmt("top %d", so_top(s)));
        if (fixed) return;   // never a value
        mo_seq q; so_iter(s, &q);
        if (std::vector<int>(q.val, q.val + std::min(q.n, 64)) != l.e) bad(fmt("iteration of %d elements", q.n));
    }
    void observe(std::string & err) override {
        look(h[0], *d[0], "A", err);
        if (h[1]) look(h[1], *d[1], "B", err);
    }
    void finish(std::string & err) override {
        if (!os_ctx) return;
        if (err.size()) { os_ctx = nullptr; return; }
        if (fixed) so_dtor(h[0]); else so_unref(h[0]);
        if (h[1]) so_unref(h[1]);
        if (long n = os_live("stack")) err = fmt("%ld stacks remain", n);
        if (long n = os_live("string") - 1) err = fmt("%ld strings remain", n);
        if (long n = os_live("map") - 1) err = fmt("%ld maps remain", n);
        os_end();
    }
};
static Stacks * stacks(int cap, bool fixed, size_t maxlen, bool share, int nv) {
    auto * s = new Stacks; s->cap = cap; s->fixed = fixed; s->maxlen = maxlen;
    auto add = [&](int op, size_t a, int b, std::string n) { s->ops.push_back({op, a, b, n}); };
    for (int v = 1; v <= nv; v++) add(v % 2 ? SO_PUSH : SO_VALUE_PUSH, 0, v, fmt("push(%d)", v));
    add(SO_POP, 0, 0, "pop"); add(SO_POP, 0, 2, "pop over a string");
    for (size_t i = 0; i <= std::min<size_t>(maxlen + 1, 4); i++) {
        add(i % 2 ? SO_VALUE_SET : SO_SET, i, 4, fmt("set(%zu,safe)", i));
        add(i % 2 ? SO_SET : SO_VALUE_SET, i, 1, fmt("set(%zu,1)", i));
        add(SO_TRUNCATE, i, 0, fmt("truncate(%zu)", i));
        add(SO_PROTECT, i, 0, fmt("protect(%zu)", i));
        add(i % 2 ? SO_PUSH_OWN : SO_VALUE_PUSH_OWN, i, 0, fmt("push own element %zu", i));
        add(SO_SET_OWN, i, 0, fmt("set(%zu,own element 0)", i));
        add(SO_SET_OWN, 0, i, fmt("set(0,own element %zu)", i));
    }
    add(SO_SET, 1000, 1, "set(1000,1)"); add(SO_TRUNCATE, 1000, 0, "truncate(1000)");
    add(SO_SAVE, 0, 0, "save"); add(SO_RESTORE, 0, 0, "restore");
    if (!fixed) { add(ITER_PUSH, 0, 1, "push(1) at 0 while iterating"); add(ITER_PUSH, 1, 2, "push(2) at 1 while iterating"); }
    if (share) { add(SHARE, 0, 0, "B:=A"); add(DROP, 0, 0, "drop B"); add(SWAP, 0, 0, "swap"); add(COPY, 0, 0, "B:=copy(A)"); add(COPY, 7, 0, "B:=copy(A,7)"); }
    return s;
}
int main(int argc, char ** argv) {
    Main m; m.prop = "P12";
    m.rule = "every operation applied in every reachable state of the real stack (states told apart by the stack's memory, the list it should be and the saved marks), everything readable compared after each; non-trivial: distinct states";
    m.parse(argc, argv);
    bool th = m.thorough();
    uint64_t lim = th ? 1 << 24 : 1 << 21;
    for (int cap = 0; cap < 3; cap++) m.explore(fmt("shared-capacity-%d", cap), th ? 9 : 6, [=] { return stacks(cap, false, 4, true, 2); }, lim);
    m.explore("alone", th ? 12 : 7, [] { return stacks(1, false, 6, false, 3); }, lim);
    for (int cap : {0, 1, 3}) m.explore(fmt("fixed-capacity-%d", cap), th ? 20 : 12, [=] { return stacks(cap, true, cap, false, 2); }, lim);
    return m.go(argc, argv);
}
