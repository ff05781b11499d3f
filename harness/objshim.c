#include <assert.h>
#include <malloc.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <talloc.h>
#include "config.h"
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_value_private.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "objshim.h"

struct handlebars_context * os_ctx;
char os_msg[512];
static jmp_buf jb;
/* the previous handler is kept: guarded calls nest */
#define GUARD_BEGIN jmp_buf buf_; jmp_buf * prev_ = os_ctx->e->jmp; int err_ = 0; if ((err_ = handlebars_setjmp_ex(os_ctx, &buf_))) { snprintf(os_msg, sizeof os_msg, "%s", os_ctx->e->msg ? os_ctx->e->msg : "(none)"); } else {
#define GUARD_END } os_ctx->e->jmp = prev_;

void os_reset(void)
{
    static int once;
    if (!once) { mallopt(M_PERTURB, 0xa5); once = 1; }
    os_ctx = handlebars_context_ctor();
    os_msg[0] = 0;
}
struct cnt { const char * name; long n; };
static void count_cb(const void * p, int depth, int max, int ref, void * priv)
{
    struct cnt * c = priv;
    if (!ref && !strcmp(talloc_get_name(p), c->name)) c->n++;
}
long os_live(const char * kind)
{
    char n[64]; snprintf(n, sizeof n, "struct handlebars_%s", kind);
    struct cnt c = {n, 0};
    talloc_report_depth_cb(os_ctx, 0, 64, count_cb, &c);
    return c.n;
}
void os_end(void) { handlebars_context_dtor(os_ctx); os_ctx = NULL; }

#define NKNOWN 512
static struct { const void * p; uint64_t id; } known[NKNOWN];
static int nknown;
void os_known_clear(void) { nknown = 0; }
void os_known(const void * p, uint64_t id) { if (nknown < NKNOWN) { known[nknown].p = p; known[nknown++].id = id; } }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; }
uint64_t os_image(const void * block, uint64_t h)
{
    size_t n = talloc_get_size(block);
    const uintptr_t b = (uintptr_t) block;
    h = mix(h, n);
    /* the layout is not known, pointers may stand anywhere */
    for (size_t i = 0; i < n;) {
        uintptr_t w; uint64_t v = 0;
        if (i + 8 <= n) {
            memcpy(&w, (const char *) block + i, 8);
            if (w >= b && w < b + n) v = 0x1000000 + (w - b);
            else if (w == (uintptr_t) os_ctx) v = 0x2000000;
            else if (w >= 0x500000000000 && w < 0x800000000000) {
                v = 0x4000000;   /* something outside: the tombstone, or what was there before */
                for (int k = 0; k < nknown; k++) if (w == (uintptr_t) known[k].p) { v = 0x3000000 + known[k].id; break; }
            }
        }
        if (v) { h = mix(h, v); i += 8; }
        else { h = mix(h, ((const unsigned char *) block)[i]); i++; }
    }
    return h;
}

/* {{{ maps */
static const char ** mkeys; static int nmkeys;
static struct handlebars_string * ks[32];
static struct handlebars_string * vs;           /* value 2 is this string, value 3 a map, 4 the string marked safe, others are integers */
static struct handlebars_map * vm;
void mo_setup(const char ** keys, int n)
{
    mkeys = keys; nmkeys = n;
    for (int i = 0; i < n; i++) { ks[i] = handlebars_string_ctor(os_ctx, keys[i], strlen(keys[i])); handlebars_string_addref(ks[i]); }
    vs = handlebars_string_ctor(os_ctx, "two", 3); handlebars_string_addref(vs);
    vm = handlebars_map_ctor(os_ctx, 1); handlebars_map_addref(vm);
}
static void setv(struct handlebars_value * v, int n)
{
    if (n == 2) handlebars_value_str(v, vs); else if (n == 4) { handlebars_value_str(v, vs); handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING); } else if (n == 3) handlebars_value_map(v, vm); else handlebars_value_integer(v, n);
}
static int getv(struct handlebars_value * v)
{
    if (!v) return -1;
    switch (v->type) {
        case HANDLEBARS_VALUE_TYPE_INTEGER: return v->v.lval >= 0 && v->v.lval < 100 ? (int) v->v.lval : -2;
        case HANDLEBARS_VALUE_TYPE_STRING: return v->v.string != vs ? -2 : v->flags ? 4 : 2;
        case HANDLEBARS_VALUE_TYPE_MAP: return v->v.map == vm ? 3 : -2;
        default: return -2;
    }
}
static int getk(struct handlebars_string * s)
{
    if (!s) return -1;
    for (int i = 0; i < nmkeys; i++) if (hbs_str_len(s) == strlen(mkeys[i]) && !memcmp(hbs_str_val(s), mkeys[i], hbs_str_len(s))) return i;
    return -2;
}
struct handlebars_map * mo_new(int cap)
{
    struct handlebars_map * m = handlebars_map_ctor(os_ctx, cap);
    handlebars_map_addref(m);
    return m;
}
static struct handlebars_string * ownkey(struct handlebars_map * m, int k)
{
    for (size_t i = 0; i < handlebars_map_sparse_array_count(m); i++) { struct handlebars_string * s = handlebars_map_get_key_at_index(m, i); if (s && getk(s) == k) return s; }
    return NULL;
}
static int cmp(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b) { return getk(a->key) - getk(b->key); }
static int cmp_r(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b, const void * arg)
{
    int x = getv(a->value), y = getv(b->value);
    return (x != y ? x - y : getk(a->key) - getk(b->key)) * *(const int *) arg;
}
int mo_op(struct handlebars_map ** mp, int op, int a, int b)
{
    struct handlebars_map * volatile m = *mp;
    struct handlebars_value v_; struct handlebars_value * v = handlebars_value_init(&v_);
    struct handlebars_value * own; struct handlebars_string * k;
    static const int minus = -1;
    GUARD_BEGIN
    switch (op) {
        case MO_ADD: setv(v, b); m = handlebars_map_add(m, ks[a], v); break;
        case MO_UPDATE: setv(v, b); m = handlebars_map_update(m, ks[a], v); break;
        case MO_REMOVE: m = handlebars_map_remove(m, ks[a]); break;
        case MO_STR_ADD: setv(v, b); m = handlebars_map_str_add(m, mkeys[a], strlen(mkeys[a]), v); break;
        case MO_STR_UPDATE: setv(v, b); m = handlebars_map_str_update(m, mkeys[a], strlen(mkeys[a]), v); break;
        case MO_STR_REMOVE: m = handlebars_map_str_remove(m, mkeys[a], strlen(mkeys[a])); break;
        case MO_UPDATE_OWN_VALUE: own = handlebars_map_find(m, ks[b]); if (own) m = handlebars_map_update(m, ks[a], own); break;
        case MO_ADD_OWN_VALUE: own = handlebars_map_find(m, ks[b]); if (own) m = handlebars_map_add(m, ks[a], own); break;
        case MO_UPDATE_OWN_KEY: k = ownkey(m, a); setv(v, b); if (k) m = handlebars_map_update(m, k, v); break;
        case MO_REMOVE_OWN_KEY: k = ownkey(m, a); if (k) m = handlebars_map_remove(m, k); break;
        case MO_REHASH: m = handlebars_map_rehash(m, a); break;
        case MO_COMPACT: handlebars_map_sparse_array_compact(m); break;
        case MO_SORT: m = handlebars_map_sort(m, cmp); break;
        case MO_SORT_R: m = handlebars_map_sort_r(m, cmp_r, &minus); break;
    }
    GUARD_END
    handlebars_value_dtor(v);
    if (!err_) *mp = m;
    return err_;
}
static void rec(mo_seq * o, struct handlebars_string * k, struct handlebars_value * v, size_t idx)
{
    if (o->n < 64) { o->key[o->n] = getk(k); o->val[o->n] = getv(v); o->idx[o->n] = idx; }
    o->n++;
    if (o->n > 200) abort();   /* does not end */
}
int mo_iter(struct handlebars_map ** mp, int at, int op, int a, int b, int only, mo_seq * out)
{
    struct handlebars_map * m = *mp;
    int pos = 0;
    memset(out, 0, sizeof *out);
    handlebars_map_foreach(m, index, key, value) {
        rec(out, key, value, index);
        if (at < 0 ? only < 0 || getv(value) == only : pos == at) { int e = mo_op(&m, op, at < 0 ? getk(key) : a, b); if (e) out->err = e; }
        pos++;
    } handlebars_map_foreach_end(m);
    *mp = m;
    return out->err;
}
void mo_iter_value(struct handlebars_map * m, mo_seq * out)
{
    HANDLEBARS_VALUE_DECL(v);
    handlebars_value_map(v, m);
    memset(out, 0, sizeof *out);
    HANDLEBARS_VALUE_FOREACH_IDX_KV(v, index, key, child) {
        rec(out, key, child, index);
    } HANDLEBARS_VALUE_FOREACH_END();
    handlebars_value_dtor(v);
    HANDLEBARS_VALUE_UNDECL(v);
}
int mo_iter_value_update(struct handlebars_map ** mp, int at, int k, int n, mo_seq * out)
{
    struct handlebars_value v_; struct handlebars_value * v = handlebars_value_init(&v_);
    HANDLEBARS_VALUE_DECL(child2);
    int pos = 0;
    handlebars_value_map(v, *mp);
    handlebars_map_delref(*mp);       /* the value owns it */
    memset(out, 0, sizeof *out);
    HANDLEBARS_VALUE_FOREACH_IDX_KV(v, index, key, child) {
        rec(out, key, child, index);
        if (pos++ == at) { setv(child2, n); handlebars_value_map_update(v, ks[k], child2); }
    } HANDLEBARS_VALUE_FOREACH_END();
    *mp = v->v.map;
    handlebars_map_addref(*mp);
    handlebars_value_dtor(v);
    handlebars_value_dtor(child2);
    HANDLEBARS_VALUE_UNDECL(child2);
    return 0;
}
static void inner_(struct handlebars_map * m, int kind, mo_seq * in, int * n)
{
    mo_seq s;
    memset(&s, 0, sizeof s);
    if (kind) mo_iter_value(m, &s);
    else { handlebars_map_foreach(m, index, key, value) { rec(&s, key, value, index); } handlebars_map_foreach_end(m); }
    if ((*n)++ == 0) *in = s;
    else if (s.n != in->n || memcmp(s.key, in->key, sizeof s.key) || memcmp(s.val, in->val, sizeof s.val)) in->err = 1;
}
void mo_nested(struct handlebars_map * m, int outerkind, int innerkind, mo_seq * outer, mo_seq * in, int * ninner)
{
    memset(outer, 0, sizeof *outer); memset(in, 0, sizeof *in); *ninner = 0;
    if (outerkind) {
        HANDLEBARS_VALUE_DECL(v);
        handlebars_value_map(v, m);
        HANDLEBARS_VALUE_FOREACH_IDX_KV(v, index, key, child) { rec(outer, key, child, index); inner_(m, innerkind, in, ninner); } HANDLEBARS_VALUE_FOREACH_END();
        handlebars_value_dtor(v);
        HANDLEBARS_VALUE_UNDECL(v);
    } else {
        handlebars_map_foreach(m, index, key, value) { rec(outer, key, value, index); inner_(m, innerkind, in, ninner); } handlebars_map_foreach_end(m);
    }
}
int mo_find(struct handlebars_map * m, int k, int str) { return getv(str ? handlebars_map_str_find(m, mkeys[k], strlen(mkeys[k])) : handlebars_map_find(m, ks[k])); }
size_t mo_count(struct handlebars_map * m) { return handlebars_map_count(m); }
int mo_load(struct handlebars_map * m) { return handlebars_map_load_factor(m); }
int mo_sparse(struct handlebars_map * m) { return handlebars_map_is_sparse(m); }
size_t mo_slots(struct handlebars_map * m) { return handlebars_map_sparse_array_count(m); }
int mo_at(struct handlebars_map * m, size_t i, int * key, int * val)
{
    struct handlebars_string * k = NULL; struct handlebars_value * v = NULL;
    GUARD_BEGIN
    handlebars_map_get_kv_at_index(m, i, &k, &v);
    if (handlebars_map_get_key_at_index(m, i) != k) err_ = 1000;
    GUARD_END
    *key = getk(k); *val = k ? getv(v) : -1;
    return err_;
}
struct handlebars_map * mo_copy(struct handlebars_map * m, int cap) { struct handlebars_map * r = handlebars_map_copy_ctor(m, cap); handlebars_map_addref(r); return r; }
void mo_ref(struct handlebars_map * m) { handlebars_map_addref(m); }
void mo_unref(struct handlebars_map * m) { handlebars_map_delref(m); }
uint32_t mo_hash(const char * s, size_t n) { struct handlebars_context * c = handlebars_context_ctor(); uint32_t h = hbs_str_hash(handlebars_string_ctor(c, s, n)); handlebars_context_dtor(c); return h; }
uint64_t mo_print(struct handlebars_map * m, uint64_t h)
{
    os_known_clear();
    for (int i = 0; i < nmkeys; i++) os_known(ks[i], i);
    os_known(vs, 100); os_known(vm, 101);
    for (size_t i = 0; i < handlebars_map_sparse_array_count(m); i++) {
        struct handlebars_string * k = handlebars_map_get_key_at_index(m, i);
        if (k) os_known(k, getk(k));
    }
    return os_image(m, h);
}
/* }}} */

/* {{{ stacks */
void so_setup(void) { mo_setup(NULL, 0); }
size_t so_size(int cap) { return handlebars_stack_size(cap); }
struct handlebars_stack * so_new(int cap, int fixed, void * mem)
{
    struct handlebars_stack * s = fixed ? handlebars_stack_init(os_ctx, mem, cap) : handlebars_stack_ctor(os_ctx, cap);
    if (!fixed) handlebars_stack_addref(s);   /* one of fixed size is never shared */
    return s;
}
void so_dtor(struct handlebars_stack * s) { handlebars_stack_dtor(s); }
int so_op(struct handlebars_stack ** sp, int op, size_t a, int b, so_buf * buf, long * result)
{
    struct handlebars_stack * volatile s = *sp;
    struct handlebars_value v_; struct handlebars_value * v = handlebars_value_init(&v_);
    struct handlebars_value w_; struct handlebars_value * w = handlebars_value_init(&w_);
    struct handlebars_value * r; struct handlebars_stack_save_buf sb;
    setv(v, b);
    *result = -1;
    GUARD_BEGIN
    switch (op) {
        case SO_PUSH: s = handlebars_stack_push(s, v); break;
        case SO_POP: r = handlebars_stack_pop(s, v); *result = r ? getv(r) : -1; if (r && r != v) err_ = 1000; break;
        case SO_SET: s = handlebars_stack_set(s, a, v); break;
        case SO_TRUNCATE: handlebars_stack_truncate(s, a); break;
        case SO_PROTECT: *result = handlebars_stack_protect(s, a); break;
        case SO_SAVE: sb = handlebars_stack_save(s); buf->count = sb.count; buf->protect = sb.protect; break;
        case SO_RESTORE: sb.count = buf->count; sb.protect = buf->protect; handlebars_stack_restore(s, sb); break;
        case SO_PUSH_OWN: r = handlebars_stack_get(s, a); if (r) s = handlebars_stack_push(s, r); break;
        case SO_SET_OWN: r = handlebars_stack_get(s, b); if (r) s = handlebars_stack_set(s, a, r); break;
        /* through a value that takes over the reference */
        case SO_VALUE_PUSH: case SO_VALUE_SET: case SO_VALUE_PUSH_OWN:
            w->type = HANDLEBARS_VALUE_TYPE_ARRAY; w->v.stack = s;
            if (op == SO_VALUE_PUSH) handlebars_value_array_push(w, v);
            else if (op == SO_VALUE_SET) handlebars_value_array_set(w, a, v);
            else { r = handlebars_stack_get(s, a); if (r) handlebars_value_array_push(w, r); }
            s = w->v.stack;
            break;
    }
    GUARD_END
    handlebars_value_dtor(v);
    if (!err_) *sp = s;
    return err_;
}
size_t so_count(struct handlebars_stack * s) { return handlebars_stack_count(s); }
int so_get(struct handlebars_stack * s, size_t i) { return getv(handlebars_stack_get(s, i)); }
int so_top(struct handlebars_stack * s) { return getv(handlebars_stack_top(s)); }
void so_iter(struct handlebars_stack * s, mo_seq * out)
{
    HANDLEBARS_VALUE_DECL(v);
    handlebars_value_array(v, s);
    memset(out, 0, sizeof *out);
    HANDLEBARS_VALUE_FOREACH_IDX(v, index, child) { rec(out, NULL, child, index); } HANDLEBARS_VALUE_FOREACH_END();
    handlebars_value_dtor(v);
    HANDLEBARS_VALUE_UNDECL(v);
}
void so_iter_push(struct handlebars_stack ** sp, int at, int n, mo_seq * out)
{
    struct handlebars_value v_; struct handlebars_value * v = handlebars_value_init(&v_);
    HANDLEBARS_VALUE_DECL(x);
    int pos = 0;
    v->type = HANDLEBARS_VALUE_TYPE_ARRAY; v->v.stack = *sp;
    memset(out, 0, sizeof *out);
    HANDLEBARS_VALUE_FOREACH_IDX(v, index, child) { rec(out, NULL, child, index); if (pos++ == at) { setv(x, n); handlebars_value_array_push(v, x); } } HANDLEBARS_VALUE_FOREACH_END();
    *sp = v->v.stack;
    handlebars_value_dtor(x);
    HANDLEBARS_VALUE_UNDECL(x);
}
int so_find(struct handlebars_stack * s, size_t i)
{
    HANDLEBARS_VALUE_DECL(v); HANDLEBARS_VALUE_DECL(r);
    handlebars_value_array(v, s);
    int n = getv(handlebars_value_array_find(v, i, r));
    handlebars_value_dtor(v); handlebars_value_dtor(r);
    HANDLEBARS_VALUE_UNDECL(r); HANDLEBARS_VALUE_UNDECL(v);
    return n;
}
struct handlebars_stack * so_copy(struct handlebars_stack * s, int cap) { struct handlebars_stack * r = handlebars_stack_copy_ctor(s, cap); handlebars_stack_addref(r); handlebars_stack_protect(r, 0); return r; }
void so_ref(struct handlebars_stack * s) { handlebars_stack_addref(s); }
void so_unref(struct handlebars_stack * s) { handlebars_stack_delref(s); }
uint64_t so_print(struct handlebars_stack * s, uint64_t h)
{
    os_known_clear(); os_known(vs, 100); os_known(vm, 101);
    return os_image(s, h);
}
/* }}} */
