// hv trees from a short text: JSON with single quotes, $fn for callables, ~'..' for safe strings
#pragma once
#include "hbshim.h"
#include <cstdlib>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
namespace hval {
inline int fnid(const std::string & n) {
    static const char * t[] = {"none", "rec", "id", "null", "safe", "throw", "blk", "blk2", "lambda", "lamscope", "lamtmpl", "lamval", "arr", "false", "map", "count", "errarg"};
    for (int i = 0; i < (int) (sizeof t / sizeof *t); i++) if (n == t[i]) return i;
    throw std::runtime_error("no such function: " + n);
}
struct R {
    const char * p;
    void sp() { while (*p == ' ') p++; }
    hv * mk(int k) { hv * v = (hv *) calloc(1, sizeof(hv)); v->kind = k; return v; }
    std::string str() {
        p++;
        std::string s;
        while (*p && *p != '\'') {
            if (*p == '\\') { p++; s += *p == 'n' ? '\n' : *p == 'r' ? '\r' : *p == 't' ? '\t' : *p == '0' ? '\0' : *p; p++; }
            else s += *p++;
        }
        p++;
        return s;
    }
    static char * dup(const std::string & s) { char * r = (char *) malloc(s.size() + 1); memcpy(r, s.data(), s.size()); r[s.size()] = 0; return r; }
    hv * value() {
        sp();
        if (*p == '{') {
            hv * v = mk(HV_MAP); p++;
            std::vector<hv *> it; std::vector<const char *> ks;
            for (sp(); *p != '}'; sp()) {
                if (*p == ',') { p++; continue; }
                std::string k;
                if (*p == '\'') k = str(); else while (*p != ':') k += *p++;
                sp(); p++;
                ks.push_back(dup(k)); it.push_back(value());
            }
            p++;
            return fill(v, it, &ks);
        }
        if (*p == '[') {
            hv * v = mk(HV_ARR); p++;
            std::vector<hv *> it;
            for (sp(); *p != ']'; sp()) { if (*p == ',') { p++; continue; } it.push_back(value()); }
            p++;
            return fill(v, it, nullptr);
        }
        if (*p == '\'' || *p == '~') {
            hv * v = mk(HV_STR);
            if (*p == '~') { v->safe = 1; p++; }
            std::string s = str();
            v->s = dup(s); v->n = s.size();
            return v;
        }
        if (*p == '$') { p++; std::string n; while (isalnum(*p)) n += *p++; hv * v = mk(HV_FN); v->fn = fnid(n); return v; }
        std::string w;
        while (*p && !strchr(",]} :", *p)) w += *p++;
        if (w == "null") return mk(HV_NULL);
        if (w == "true") return mk(HV_TRUE);
        if (w == "false") return mk(HV_FALSE);
        if (w.find_first_of(".e") != std::string::npos) { hv * v = mk(HV_DBL); v->d = strtod(w.c_str(), nullptr); return v; }
        hv * v = mk(HV_INT); v->i = strtol(w.c_str(), nullptr, 10);
        return v;
    }
    hv * fill(hv * v, std::vector<hv *> & it, std::vector<const char *> * ks) {
        v->n = it.size();
        v->items = (hv **) calloc(it.size() + 1, sizeof(hv *));
        std::copy(it.begin(), it.end(), v->items);
        if (ks) { v->keys = (const char **) calloc(it.size() + 1, sizeof(char *)); std::copy(ks->begin(), ks->end(), v->keys); }
        return v;
    }
};
inline hv * J(const std::string & s) { char * c = R::dup(s); R r{c}; return r.value(); }
inline bool hasfn(const hv * v) { if (v->kind == HV_FN) return true; for (size_t i = 0; i < v->n && v->items; i++) if (hasfn(v->items[i])) return true; return false; }
}
using hval::J;
