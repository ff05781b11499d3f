// Shared by the language checks: one case renders a template with a context through the library and
// through the model and compares what a caller sees.
#pragma once
#include "hx.hpp"
#include "hval.hpp"
#include "ref.hpp"
#include <unordered_map>

namespace lang {
using hx::fmt;
struct Setup { // everything but template and context
    std::vector<hhelper> helpers; std::vector<hpartial> partials; std::vector<const char *> known;
    unsigned long flags = 0; int ctxmode = HM_NATIVE; int pipe = HP_DIRECT; hv * data = nullptr; int nojmp = 0;
};
struct Ctx { std::string text; hv * h; ref::V v; };
inline Ctx ctx(const std::string & t) { Ctx c; c.text = t; c.h = J(t); c.v = ref::from(c.h); return c; }
inline std::vector<Ctx> ctxs(std::initializer_list<const char *> l) { std::vector<Ctx> r; for (auto s : l) r.push_back(ctx(s)); return r; }
inline hpartial part(const char * n, const char * t) { return hpartial{n, t, strlen(t), 0}; }

inline hreq req(const Setup & s, const std::string & t, const Ctx & c) {
    hreq r; memset(&r, 0, sizeof r);
    r.tmpl = t.data(); r.tlen = t.size(); r.ctx = c.h; r.ctxmode = s.ctxmode; r.data = s.data;
    r.helpers = s.helpers.data(); r.nhelpers = s.helpers.size();
    r.partials = s.partials.data(); r.npartials = s.partials.size();
    r.known = (const char **) s.known.data(); r.nknown = s.known.size();
    r.flags = s.flags; r.pipe = s.pipe; r.nojmp = s.nojmp;
    return r;
}
inline std::string showres(const hres & r) { return r.err ? fmt("error %d (stage %d) '%s'", r.err, r.stage, r.msg) : "'" + hx::esc(std::string(r.out ? r.out : "", r.outlen)) + "'"; }
inline std::string showref(const ref::Out & o) { return o.err ? fmt("error (stage %d) '%s'", o.stage, o.msg.c_str()) : "'" + hx::esc(o.out) + "'"; }

// msgs: compare the message of run-time errors
inline bool compare(hx::Case & c, const char * prop, const hres & r, const ref::Out & o, bool msgs = true) {
    std::string got(r.out ? r.out : "", r.outlen);
    bool ok = (r.err != 0) == o.err;
    if (ok && !o.err) ok = got == o.out && r.calls == o.calls;
    if (ok && o.err) { int st = r.stage; ok = st == o.stage || (st == 2 && o.stage <= 2); if (ok && msgs && o.stage == 2) ok = !strncmp(r.msg, o.msg.c_str(), std::min<size_t>(o.msg.size(), 400)); }
    if (!ok) c.fail(prop, fmt("library: %s, %ld helper calls; defined: %s, %ld helper calls", showres(r).c_str(), r.calls, showref(o).c_str(), o.calls));
    c.outcome(o.err ? "E" + std::to_string(o.stage) + o.msg.substr(0, 12) : o.out);
    return ok;
}
inline thread_local hres RS;
inline bool one(hx::Case & c, const char * prop, const Setup & s, const std::string & t, const Ctx & x, bool msgs = true) {
    hreq rq = req(s, t, x);
    ref::Out o;
    try { o = ref::render(rq, x.v); } catch (std::exception & e) { c.fail(prop, std::string("model: ") + e.what()); return false; }
    if (o.err && o.stage == 3) { c.skip(); return true; }
    hb_render(&rq, &RS);
    c.transitions();
    return compare(c, prop, RS, o, msgs);
}
inline std::string show(const Setup & s, const std::string & t, const Ctx & x) {
    std::string r = "template '" + hx::esc(t) + "' context " + hx::esc(x.text);
    if (s.flags) r += fmt(" flags %lu", s.flags);
    for (auto & p : s.partials) if (p.text && t.find(p.name) != std::string::npos) r += fmt(" partial %s='%s'", p.name, hx::esc(std::string(p.text, p.len)).c_str());
    return r;
}
// all templates times all contexts
inline void product(hx::Main & m, const std::string & name, const Setup * s, const std::vector<std::string> * t, const std::vector<Ctx> * x, bool msgs = true, unsigned chunk = 256) {
    const char * prop = strdup(m.prop.c_str());
    m.add(name, (uint64_t) t->size() * x->size(),
        [=](hx::Case & c) { one(c, prop, *s, (*t)[c.idx / x->size()], (*x)[c.idx % x->size()], msgs); },
        [=](uint64_t i) { return show(*s, (*t)[i / x->size()], (*x)[i % x->size()]); }, chunk);
}
// substitute $1..$9 in a pattern from lists, all combinations
inline void expand(std::vector<std::string> & out, const std::string & pat, const std::vector<std::vector<std::string>> & l) {
    std::vector<size_t> ix(l.size(), 0);
    for (;;) {
        std::string r;
        for (size_t i = 0; i < pat.size(); i++) if (pat[i] == '$' && i + 1 < pat.size() && isdigit((unsigned char) pat[i + 1])) { int k = pat[++i] - '1'; r += l[k][ix[k]]; } else r += pat[i];
        out.push_back(r);
        size_t k = 0;
        while (k < l.size() && ++ix[k] == l[k].size()) ix[k++] = 0;
        if (k == l.size()) break;
    }
}
}
