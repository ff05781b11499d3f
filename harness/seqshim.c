#include <talloc.h>
#define HANDLEBARS_VALUE_PRIVATE
#include "hbshim.c"
#include "handlebars_value_private.h"
#include "handlebars_cache.h"
#include "seqshim.h"
static struct { struct handlebars_context * c; struct handlebars_vm * vm; struct handlebars_cache * cache; struct handlebars_value hp, pa, da; struct handlebars_module * last; } Q;
static void add_all(struct handlebars_value * dst, const hreq * rq, int partials)
{
    int n = partials ? rq->npartials : rq->nhelpers;
    struct handlebars_map * m = handlebars_map_ctor(Q.c, n);
    handlebars_map_addref(m);
    for (int i = 0; i < n; i++) {
        HANDLEBARS_VALUE_DECL(t);
        const char * name = partials ? rq->partials[i].name : rq->helpers[i].name;
        int fn = partials ? rq->partials[i].fn : rq->helpers[i].fn;
        if (fn) handlebars_value_helper(t, (handlebars_helper_func) hb_fn(fn));
        else if (rq->partials[i].text) handlebars_value_str(t, handlebars_string_ctor(Q.c, rq->partials[i].text, rq->partials[i].len));
        m = handlebars_map_str_update(m, name, strlen(name), t);
        HANDLEBARS_VALUE_UNDECL(t);
    }
    handlebars_value_map(dst, m);
    handlebars_map_delref(m);
}
void sq_open(const hreq * rq, int cache)
{
    memset(&Q, 0, sizeof Q);
    Q.c = handlebars_context_ctor();
    handlebars_value_init(&Q.hp); handlebars_value_init(&Q.pa); handlebars_value_init(&Q.da);
    Q.vm = handlebars_vm_ctor(Q.c);
    handlebars_vm_set_flags(Q.vm, rq->flags);
    add_all(&Q.hp, rq, 0); add_all(&Q.pa, rq, 1);
    handlebars_vm_set_helpers(Q.vm, &Q.hp);
    handlebars_vm_set_partials(Q.vm, &Q.pa);
    if (rq->data) { hb_build(Q.c, &Q.da, rq->data); handlebars_vm_set_data(Q.vm, &Q.da); }
    Q.cache = cache == SC_SIMPLE ? handlebars_cache_simple_ctor(Q.c) : cache == SC_MMAP ? handlebars_cache_mmap_ctor(Q.c, 1 << 18, 64) : NULL;
    if (Q.cache) handlebars_vm_set_cache(Q.vm, Q.cache);
}
static void step(const hreq * rq, int how, hres * rs)
{
    struct handlebars_context * c = Q.c;
    struct handlebars_module * m = Q.last;
    struct handlebars_value vin; struct handlebars_value * in = handlebars_value_init(&vin);
    if (rq->ctx || rq->ctxtext) {
        if (rq->ctxmode == HM_JSON) handlebars_value_init_json_stringl(c, in, rq->ctxtext, rq->ctxlen);
        else hb_build(c, in, rq->ctx);
    }
    if (rq->tmpl) {
        struct handlebars_parser * p = handlebars_parser_ctor(c);
        struct handlebars_string * t = handlebars_string_ctor(c, rq->tmpl, rq->tlen);
        if (rq->flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(c, t, NULL, NULL);
        struct handlebars_ast_node * ast = handlebars_parse_ex(p, t, rq->flags);
        if (!ast) { set_err(c, rs, 0); return; }
        struct handlebars_compiler * k = handlebars_compiler_ctor(c);
        handlebars_compiler_set_flags(k, rq->flags);
        if (rq->nknown) {
            const char ** l = talloc_zero_array(c, const char *, rq->nknown + 16);
            int n = 0;
            for (const char ** x = handlebars_builtins_names(); *x; x++) l[n++] = *x;
            for (int i = 0; i < rq->nknown; i++) l[n++] = rq->known[i];
            handlebars_compiler_set_known_helpers(k, l);
        }
        struct handlebars_program * g = handlebars_compiler_compile_ex(k, ast);
        if (how == SQ_RET && handlebars_error_num(c)) { set_err(c, rs, 1); return; }
        Q.last = m = handlebars_program_serialize(c, g);
    }
    if (!m) return;
    struct handlebars_string * out = handlebars_vm_execute(Q.vm, m, in);
    if (!out) { set_err(c, rs, 2); return; }
    set_out(rs, hbs_str_val(out), hbs_str_len(out));
}
void sq_step(const hreq * rq, int how, hres * rs, char * bad, size_t nbad)
{
    jmp_buf buf;
    struct handlebars_context * c = Q.c;
    rs->err = 0; rs->stage = 2; rs->msg[0] = 0; rs->line = rs->col = 0; set_out(rs, "", 0);
    hb_calls = 0;
    bad[0] = 0;
    if (how == SQ_JMP) {
        if (handlebars_setjmp_ex(c, &buf)) set_err(c, rs, 2);
        else {
            step(rq, how, rs);
            if (rs->err) snprintf(bad, nbad, "failed without using the caller's handler");
        }
        if (c->e->jmp != &buf) snprintf(bad, nbad, "the caller's handler was not put back");
        c->e->jmp = NULL;
    } else {
        step(rq, how, rs);
        if (c->e->jmp) snprintf(bad, nbad, "a handler is left behind");
        else if (!rs->err && handlebars_error_num(c)) snprintf(bad, nbad, "succeeded, but the context reports error %d '%s'", handlebars_error_num(c), handlebars_error_msg(c));
        c->e->jmp = NULL;
    }
    rs->calls = hb_calls;
    if (Q.cache && handlebars_cache_stat(Q.cache).refcount) snprintf(bad, nbad, "%zu cached templates are still held", (size_t) handlebars_cache_stat(Q.cache).refcount);
}
void sq_close(void)
{
    if (Q.cache) handlebars_cache_dtor(Q.cache);
    handlebars_context_dtor(Q.c);
}
