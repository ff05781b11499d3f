#include <config.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <talloc.h>
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#define HANDLEBARS_AST_PRIVATE
#define HANDLEBARS_AST_LIST_PRIVATE
#define HANDLEBARS_COMPILER_PRIVATE
#define HANDLEBARS_OPCODES_PRIVATE
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_string.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_value.h"
#include "handlebars_ast.h"
#include "handlebars_ast_list.h"
#include "handlebars_token.h"
#include "handlebars_ast_printer.h"
#include "handlebars_parser.h"
#include "handlebars_compiler.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_delimiters.h"
#include "handlebars_helpers.h"
#include "handlebars_json.h"
#include "handlebars_yaml.h"
#include "handlebars_cache.h"
#include "handlebars_vm.h"
#include "hbshim.h"

__thread long hb_calls;

#define S(x) x, strlen(x)

/* -------------------------------------------------------------------- values */
void hb_build(struct handlebars_context * c, struct handlebars_value * dst, const hv * v)
{
    switch (v->kind) {
        case HV_NULL: handlebars_value_null(dst); break;
        case HV_TRUE: handlebars_value_boolean(dst, true); break;
        case HV_FALSE: handlebars_value_boolean(dst, false); break;
        case HV_INT: handlebars_value_integer(dst, v->i); break;
        case HV_DBL: handlebars_value_float(dst, v->d); break;
        case HV_STR:
            handlebars_value_str(dst, handlebars_string_ctor(c, v->s, v->n));
            if (v->safe) handlebars_value_set_flag(dst, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
            break;
        case HV_ARR: {
            handlebars_value_array(dst, handlebars_stack_ctor(c, v->n));
            for (size_t i = 0; i < v->n; i++) {
                HANDLEBARS_VALUE_DECL(t);
                hb_build(c, t, v->items[i]);
                handlebars_value_array_push(dst, t);
                HANDLEBARS_VALUE_UNDECL(t);
            }
            break;
        }
        case HV_MAP: {
            struct handlebars_map * m = handlebars_map_ctor(c, v->n);
            for (size_t i = 0; i < v->n; i++) {
                HANDLEBARS_VALUE_DECL(t);
                hb_build(c, t, v->items[i]);
                m = handlebars_map_str_update(m, S(v->keys[i]), t);
                HANDLEBARS_VALUE_UNDECL(t);
            }
            handlebars_value_map(dst, m);
            break;
        }
        case HV_FN: handlebars_value_helper(dst, (handlebars_helper_func) hb_fn(v->fn)); break;
    }
}

static void jesc(char ** b, const char * s, size_t n)
{
    *b = talloc_strdup_append(*b, "\"");
    for (size_t i = 0; i < n; i++) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') *b = talloc_asprintf_append(*b, "\\%c", ch);
        else if (ch < 0x20 || ch == 0x7f) *b = talloc_asprintf_append(*b, "\\u%04x", ch);
        else *b = talloc_strndup_append(*b, (const char *) &s[i], 1);
    }
    *b = talloc_strdup_append(*b, "\"");
}

static void jtext(char ** b, const hv * v)
{
    switch (v->kind) {
        case HV_TRUE: *b = talloc_strdup_append(*b, "true"); break;
        case HV_FALSE: *b = talloc_strdup_append(*b, "false"); break;
        case HV_INT: *b = talloc_asprintf_append(*b, "%ld", v->i); break;
        case HV_DBL: { char t[64]; snprintf(t, sizeof(t), "%.17g", v->d); *b = talloc_strdup_append(*b, t); if (!strpbrk(t, ".e")) *b = talloc_strdup_append(*b, ".0"); break; }
        case HV_STR: jesc(b, v->s, v->n); break;
        case HV_ARR:
            *b = talloc_strdup_append(*b, "[");
            for (size_t i = 0; i < v->n; i++) { if (i) *b = talloc_strdup_append(*b, ","); jtext(b, v->items[i]); }
            *b = talloc_strdup_append(*b, "]");
            break;
        case HV_MAP:
            *b = talloc_strdup_append(*b, "{");
            for (size_t i = 0; i < v->n; i++) {
                if (i) *b = talloc_strdup_append(*b, ",");
                jesc(b, v->keys[i], strlen(v->keys[i]));
                *b = talloc_strdup_append(*b, ":");
                jtext(b, v->items[i]);
            }
            *b = talloc_strdup_append(*b, "}");
            break;
        default: *b = talloc_strdup_append(*b, "null"); break;
    }
}

/* -------------------------------------------------------------------- helpers */
static void show(char ** b, struct handlebars_value * v, int depth)
{
    if (!v) { *b = talloc_strdup_append(*b, "~"); return; }
    switch (handlebars_value_get_type(v)) {
        case HANDLEBARS_VALUE_TYPE_NULL: *b = talloc_strdup_append(*b, "null"); break;
        case HANDLEBARS_VALUE_TYPE_TRUE: *b = talloc_strdup_append(*b, "true"); break;
        case HANDLEBARS_VALUE_TYPE_FALSE: *b = talloc_strdup_append(*b, "false"); break;
        case HANDLEBARS_VALUE_TYPE_INTEGER: *b = talloc_asprintf_append(*b, "%ld", handlebars_value_get_intval(v)); break;
        case HANDLEBARS_VALUE_TYPE_FLOAT: *b = talloc_asprintf_append(*b, "%gf", handlebars_value_get_floatval(v)); break;
        case HANDLEBARS_VALUE_TYPE_STRING: *b = talloc_asprintf_append(*b, "'%.*s'", (int) handlebars_value_get_strlen(v), handlebars_value_get_strval(v)); break;
        case HANDLEBARS_VALUE_TYPE_ARRAY: {
            int first = 1;
            *b = talloc_strdup_append(*b, "[");
            HANDLEBARS_VALUE_FOREACH(v, child) {
                if (!first) *b = talloc_strdup_append(*b, ",");
                first = 0;
                show(b, child, depth + 1);
            } HANDLEBARS_VALUE_FOREACH_END();
            *b = talloc_strdup_append(*b, "]");
            break;
        }
        case HANDLEBARS_VALUE_TYPE_MAP: {
            int first = 1;
            *b = talloc_strdup_append(*b, "{");
            HANDLEBARS_VALUE_FOREACH_KV(v, key, child) {
                if (!first) *b = talloc_strdup_append(*b, ",");
                first = 0;
                *b = talloc_asprintf_append(*b, "%.*s:", (int) hbs_str_len(key), hbs_str_val(key));
                show(b, child, depth + 1);
            } HANDLEBARS_VALUE_FOREACH_END();
            *b = talloc_strdup_append(*b, "}");
            break;
        }
        default: *b = talloc_strdup_append(*b, "fn"); break;
    }
}

static void ret_str(struct handlebars_vm * vm, struct handlebars_value * rv, const char * s, size_t n)
{
    handlebars_value_str(rv, handlebars_string_ctor((struct handlebars_context *) vm, s, n));
}

/* the helpers' own memory: not part of what is checked (see oomwrap.c) */
__attribute__((weak)) void hb_hold(int on) { (void) on; }

#define HELPER(name) static struct handlebars_value * name(HANDLEBARS_HELPER_ARGS)

HELPER(f_rec)
{
    hb_hold(1);
    char * b = talloc_asprintf(vm, "#%ld(", ++hb_calls);
    for (int i = 0; i < argc; i++) {
        if (i) b = talloc_strdup_append(b, ",");
        show(&b, HANDLEBARS_ARG_AT(i), 0);
    }
    if (options->hash && handlebars_value_get_type(options->hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(options->hash) > 0) {
        /* the order of the pairs is not part of the interface: by key */
        int left = (int) handlebars_value_count(options->hash), first = 1;
        char prev[256] = "";
        b = talloc_strdup_append(b, ";{");
        while (left-- > 0) {
            char best[256] = "";
            HANDLEBARS_VALUE_FOREACH_KV(options->hash, key, child) {
                (void) child;
                if ((first || strcmp(hbs_str_val(key), prev) > 0) && (!best[0] || strcmp(hbs_str_val(key), best) < 0)) snprintf(best, sizeof(best), "%s", hbs_str_val(key));
            } HANDLEBARS_VALUE_FOREACH_END();
            HANDLEBARS_VALUE_DECL(r);
            struct handlebars_value * v = handlebars_value_map_str_find(options->hash, best, strlen(best), r);
            b = talloc_asprintf_append(b, "%s%s:", first ? "" : ",", best);
            show(&b, v, 0);
            HANDLEBARS_VALUE_UNDECL(r);
            strcpy(prev, best);
            first = 0;
        }
        b = talloc_strdup_append(b, "}");
    }
    b = talloc_strdup_append(b, "@");
    {
        /* scope, but not the containers in it */
        struct handlebars_value * sc = options->scope;
        if (sc && handlebars_value_get_type(sc) == HANDLEBARS_VALUE_TYPE_MAP) {
            HANDLEBARS_VALUE_DECL(r);
            struct handlebars_value * n = handlebars_value_map_str_find(sc, "n", 1, r);
            b = talloc_strdup_append(b, "n=");
            show(&b, n, 0);
            HANDLEBARS_VALUE_UNDECL(r);
        } else {
            show(&b, sc, 0);
        }
    }
    b = talloc_strdup_append(b, ")");
    hb_hold(0);
    ret_str(vm, rv, b, talloc_get_size(b) - 1);
    talloc_free(b);
    return rv;
}
HELPER(f_id) { ++hb_calls; if (argc > 0) handlebars_value_value(rv, HANDLEBARS_ARG_AT(0)); return rv; }
HELPER(f_null) { ++hb_calls; return rv; }
HELPER(f_safe)
{
    ++hb_calls;
    if (argc > 0) {
        handlebars_value_value(rv, HANDLEBARS_ARG_AT(0));
        handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
    }
    return rv;
}
HELPER(f_throw) { ++hb_calls; handlebars_throw((struct handlebars_context *) vm, HANDLEBARS_ERROR, "boom"); return rv; }
HELPER(f_errarg)
{
    ++hb_calls;
    struct handlebars_value * a = HANDLEBARS_ARG_AT(0);
    handlebars_throw((struct handlebars_context *) vm, HANDLEBARS_ERROR, "%.*s", (int) handlebars_value_get_strlen(a), handlebars_value_get_strval(a));
    return rv;
}
HELPER(f_blk)
{
    ++hb_calls;
    struct handlebars_context * c = (struct handlebars_context *) vm;
    HANDLEBARS_VALUE_DECL(bp);
    HANDLEBARS_VALUE_DECL(data);
    HANDLEBARS_VALUE_DECL(t);
    struct handlebars_value * ctx = argc > 0 ? HANDLEBARS_ARG_AT(0) : options->scope;
    handlebars_value_array(bp, handlebars_stack_ctor(c, 2));
    handlebars_value_array_push(bp, ctx);
    handlebars_value_str(t, handlebars_string_ctor(c, "B", 1));
    handlebars_value_array_push(bp, t);
    struct handlebars_map * m = handlebars_map_ctor(c, 4);
    if (options->data && handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP) {
        HANDLEBARS_VALUE_FOREACH_KV(options->data, key, child) {
            m = handlebars_map_update(m, key, child);
        } HANDLEBARS_VALUE_FOREACH_END();
    }
    handlebars_value_integer(t, 7);
    m = handlebars_map_str_update(m, "v", 1, t);
    handlebars_value_map(data, m);
    struct handlebars_string * s = handlebars_vm_execute_program_ex(vm, options->program, ctx, data, bp);
    handlebars_value_str(rv, s);
    HANDLEBARS_VALUE_UNDECL(t);
    HANDLEBARS_VALUE_UNDECL(data);
    HANDLEBARS_VALUE_UNDECL(bp);
    return rv;
}
HELPER(f_blk2)
{
    ++hb_calls;
    struct handlebars_context * c = (struct handlebars_context *) vm;
    struct handlebars_string * o = handlebars_string_ctor(c, "", 0);
    for (int i = 0; i < 2; i++) {
        struct handlebars_string * s = handlebars_vm_execute_program(vm, options->program, options->scope);
        o = handlebars_string_append(c, o, hbs_str_val(s), hbs_str_len(s));
    }
    struct handlebars_string * s = handlebars_vm_execute_program(vm, options->inverse, options->scope);
    o = handlebars_string_append(c, o, hbs_str_val(s), hbs_str_len(s));
    handlebars_value_str(rv, o);
    return rv;
}
HELPER(f_lambda) { ++hb_calls; ret_str(vm, rv, "L<&>", 4); return rv; }
HELPER(f_lamscope)
{
    ++hb_calls;
    struct handlebars_value * sc = options->scope;
    if (sc && handlebars_value_get_type(sc) == HANDLEBARS_VALUE_TYPE_MAP) {
        HANDLEBARS_VALUE_DECL(r);
        struct handlebars_value * n = handlebars_value_map_str_find(sc, "n", 1, r);
        if (n) handlebars_value_value(rv, n);
        HANDLEBARS_VALUE_UNDECL(r);
    }
    return rv;
}
HELPER(f_lamtmpl)
{
    ++hb_calls;
    struct handlebars_value * a = argc > 0 ? HANDLEBARS_ARG_AT(0) : NULL;
    if (a && handlebars_value_get_type(a) == HANDLEBARS_VALUE_TYPE_STRING) {
        hb_hold(1);
        char * b = talloc_asprintf(vm, "%.*s-%.*s", (int) handlebars_value_get_strlen(a), handlebars_value_get_strval(a),
            (int) handlebars_value_get_strlen(a), handlebars_value_get_strval(a));
        hb_hold(0);
        ret_str(vm, rv, b, talloc_get_size(b) - 1);
        talloc_free(b);
    }
    return rv;
}
HELPER(f_lamval) { ++hb_calls; ret_str(vm, rv, "{{n}}", 5); return rv; }
HELPER(f_arr)
{
    ++hb_calls;
    handlebars_value_array(rv, handlebars_stack_ctor((struct handlebars_context *) vm, 2));
    HANDLEBARS_VALUE_DECL(t);
    handlebars_value_integer(t, 1);
    handlebars_value_array_push(rv, t);
    handlebars_value_integer(t, 2);
    handlebars_value_array_push(rv, t);
    HANDLEBARS_VALUE_UNDECL(t);
    return rv;
}
HELPER(f_false) { ++hb_calls; handlebars_value_boolean(rv, false); return rv; }
HELPER(f_map)
{
    ++hb_calls;
    struct handlebars_context * c = (struct handlebars_context *) vm;
    HANDLEBARS_VALUE_DECL(t);
    handlebars_value_str(t, handlebars_string_ctor(c, "M", 1));
    handlebars_value_map(rv, handlebars_map_str_update(handlebars_map_ctor(c, 1), "n", 1, t));
    HANDLEBARS_VALUE_UNDECL(t);
    return rv;
}
HELPER(f_count) { handlebars_value_integer(rv, ++hb_calls); return rv; }

void * hb_fn(int fn)
{
    static void * t[HF_ENUM_END] = {
        [HF_REC] = f_rec, [HF_ID] = f_id, [HF_NULL] = f_null, [HF_SAFE] = f_safe, [HF_THROW] = f_throw, [HF_BLK] = f_blk,
        [HF_BLK2] = f_blk2, [HF_LAMBDA] = f_lambda, [HF_LAMSCOPE] = f_lamscope, [HF_LAMTMPL] = f_lamtmpl, [HF_LAMVAL] = f_lamval,
        [HF_ARR] = f_arr, [HF_FALSE] = f_false, [HF_MAP] = f_map, [HF_COUNT] = f_count, [HF_ERRARG] = f_errarg,
    };
    return t[fn];
}

/* -------------------------------------------------------------------- pipeline */
static void set_err(struct handlebars_context * c, hres * rs, int stage)
{
    rs->err = handlebars_error_num(c);
    rs->stage = stage;
    const char * m = handlebars_error_msg(c);
    snprintf(rs->msg, sizeof(rs->msg), "%s", m ? m : "(null)");
    struct handlebars_locinfo loc = handlebars_error_loc(c);
    rs->line = loc.last_line;
    rs->col = loc.last_column;
    if (!rs->err) rs->err = -1; /* failed without an error number */
}

void hb_res_free(hres * rs) { free(rs->out); rs->out = NULL; rs->outcap = 0; }

static void set_out(hres * rs, const char * s, size_t n)
{
    if (rs->outcap < n + 1) {
        rs->outcap = (n + 1) * 2;
        rs->out = realloc(rs->out, rs->outcap);
    }
    memcpy(rs->out, s, n);
    rs->out[n] = 0;
    rs->outlen = n;
}

void hb_render(const hreq * rq, hres * rs)
{
    struct handlebars_context * volatile ctx = rq->parent ? handlebars_context_ctor_ex(rq->parent) : handlebars_context_ctor();
    volatile int stage = 0;
    void * volatile moved = NULL;
    jmp_buf jmp;

    rs->err = 0;
    rs->outlen = 0;
    rs->msg[0] = 0;
    rs->line = rs->col = 0;
    hb_calls = 0;

    if (!rq->nojmp) {
        if (handlebars_setjmp_ex(ctx, &jmp)) {
            set_err(ctx, rs, stage);
            goto done;
        }
    }

    do {
        struct handlebars_module * module;
        int times = 0;
        if (rq->placed) { stage = 1; module = (void *) rq->placed; }
        else if (rq->mod) {
            stage = 1;
            times = rq->mods ? rq->mods - 1 : 0;
            module = moved = malloc(rq->modlen);
            memcpy(module, rq->mod, rq->modlen);
            if (!handlebars_module_verify(module, ctx)) { rs->err = -2; rs->stage = 1; strcpy(rs->msg, "module does not verify"); break; }
            handlebars_module_patch_pointers(module);
        } else {
        struct handlebars_parser * parser = handlebars_parser_ctor(ctx);
        struct handlebars_compiler * compiler = handlebars_compiler_ctor(ctx);
        handlebars_compiler_set_flags(compiler, rq->flags);
        if (rq->nknown) {
            const char ** l = talloc_zero_array(ctx, const char *, rq->nknown + 16);
            int n = 0;
            for (const char ** p = handlebars_builtins_names(); *p; p++) l[n++] = *p;
            for (int i = 0; i < rq->nknown; i++) l[n++] = rq->known[i];
            handlebars_compiler_set_known_helpers(compiler, l);
        }
        struct handlebars_string * tmpl = handlebars_string_ctor(ctx, rq->tmpl, rq->tlen);
        if ((rq->flags & handlebars_compiler_flag_compat) && !rq->noprep) {
            tmpl = handlebars_preprocess_delimiters(ctx, tmpl, NULL, NULL);
        }
        struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, rq->flags);
        if (handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) { set_err(ctx, rs, stage); break; }
        if (rq->pipe == HP_REPRINT) {
            struct handlebars_string * src = handlebars_ast_to_string(ctx, ast);
            parser = handlebars_parser_ctor(ctx);
            ast = handlebars_parse_ex(parser, src, rq->flags);
            if (handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) { set_err(ctx, rs, stage); break; }
        }
        stage = 1;
        struct handlebars_program * program = handlebars_compiler_compile_ex(compiler, ast);
        if (handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) { set_err(ctx, rs, stage); break; }
        module = handlebars_program_serialize(ctx, program);
        if (handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) { set_err(ctx, rs, stage); break; }
        }
        if (rq->pipe == HP_MODULE) {
            handlebars_module_normalize_pointers(module, NULL);
            handlebars_module_generate_hash(module);
            set_out(rs, (const char *) module, handlebars_module_get_size(module));
            break;
        }
        if (rq->pipe == HP_RELOC) {
            size_t sz = handlebars_module_get_size(module);
            handlebars_module_normalize_pointers(module, NULL);
            handlebars_module_generate_hash(module);
            moved = malloc(sz);
            memcpy(moved, module, sz);
            memset((void *) module, 0xA5, sz);
            module = moved;
            if (!handlebars_module_verify(module, ctx)) { rs->err = -2; rs->stage = 1; strcpy(rs->msg, "module does not verify"); break; }
            handlebars_module_patch_pointers(module);
        }
        stage = 3;
        HANDLEBARS_VALUE_DECL(input);
        if (rq->ctxmode == HM_NATIVE) {
            if (rq->ctx) hb_build(ctx, input, rq->ctx);
        } else {
            const char * text = rq->ctxtext;
            size_t len = rq->ctxlen;
            if (!text) {
                char * b = talloc_strdup(ctx, "");
                jtext(&b, rq->ctx);
                text = b;
                len = strlen(b);
            }
            if (rq->ctxmode == HM_YAML) handlebars_value_init_yaml_string(ctx, input, text);
            else handlebars_value_init_json_stringl(ctx, input, text, len);
            if (rq->ctxmode == HM_JSON_CONVERT) handlebars_value_convert(input);
        }
        HANDLEBARS_VALUE_DECL(helpers);
        HANDLEBARS_VALUE_DECL(partials);
        {
            struct handlebars_map * m = handlebars_map_ctor(ctx, rq->nhelpers);
            for (int i = 0; i < rq->nhelpers; i++) {
                HANDLEBARS_VALUE_DECL(t);
                handlebars_value_helper(t, (handlebars_helper_func) hb_fn(rq->helpers[i].fn));
                m = handlebars_map_str_update(m, S(rq->helpers[i].name), t);
                HANDLEBARS_VALUE_UNDECL(t);
            }
            handlebars_value_map(helpers, m);
            m = handlebars_map_ctor(ctx, rq->npartials);
            for (int i = 0; i < rq->npartials; i++) {
                HANDLEBARS_VALUE_DECL(t);
                if (rq->partials[i].fn) handlebars_value_helper(t, (handlebars_helper_func) hb_fn(rq->partials[i].fn));
                else if (rq->partials[i].text) handlebars_value_str(t, handlebars_string_ctor(ctx, rq->partials[i].text, rq->partials[i].len));
                m = handlebars_map_str_update(m, S(rq->partials[i].name), t);
                HANDLEBARS_VALUE_UNDECL(t);
            }
            handlebars_value_map(partials, m);
        }
        stage = 2;
        struct handlebars_vm * vm = handlebars_vm_ctor(ctx);
        handlebars_vm_set_flags(vm, rq->flags);
        handlebars_vm_set_helpers(vm, helpers);
        handlebars_vm_set_partials(vm, partials);
        if (rq->cache) handlebars_vm_set_cache(vm, rq->cache);
        if (rq->data) {
            HANDLEBARS_VALUE_DECL(d);
            hb_build(ctx, d, rq->data);
            handlebars_vm_set_data(vm, d);
            HANDLEBARS_VALUE_UNDECL(d);
        }
        for (; times > 0; times--) {
            handlebars_vm_execute(vm, module, input);
            if (handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) break;
            /* verbatim copy to another address: the pointers are those of the former one */
            void * next = malloc(rq->modlen);
            memcpy(next, module, rq->modlen);
            memset((void *) module, 0xA5, rq->modlen);
            free((void *) module);
            module = moved = next;
            handlebars_module_patch_pointers(module);
            hb_calls = 0;
        }
        struct handlebars_string * out = handlebars_vm_execute(vm, module, input);
        if (!out || handlebars_error_num(ctx) != HANDLEBARS_SUCCESS) { set_err(ctx, rs, stage); break; }
        set_out(rs, hbs_str_val(out), hbs_str_len(out));
        handlebars_vm_dtor(vm);
        handlebars_value_dtor(input);
        handlebars_value_dtor(helpers);
        handlebars_value_dtor(partials);
    } while (0);

done:
    rs->calls = hb_calls;
    handlebars_context_dtor(ctx);
    if (moved) free(moved);
}

/* -------------------------------------------------------------------- syntax trees */
static void adds(hres * o, const char * s, size_t n)
{
    if (o->outlen + n + 1 > o->outcap) {
        o->outcap = (o->outlen + n + 1) * 2;
        o->out = realloc(o->out, o->outcap);
    }
    memcpy(o->out + o->outlen, s, n);
    o->outlen += n;
    o->out[o->outlen] = 0;
}
static void addz(hres * o, const char * s) { adds(o, s, strlen(s)); }
static void addh(hres * o, struct handlebars_string * s) { if (s) adds(o, hbs_str_val(s), hbs_str_len(s)); }
static void dump(hres * o, struct handlebars_ast_node * n);
static void dump_list(hres * o, struct handlebars_ast_list * l)
{
    struct handlebars_ast_list_item * item, * tmp;
    if (l) handlebars_ast_list_foreach(l, item, tmp) { addz(o, " "); dump(o, item->data); }
}
static void dump_hash(hres * o, struct handlebars_ast_node * h)
{
    struct handlebars_ast_list_item * item, * tmp;
    if (h && h->node.hash.pairs) handlebars_ast_list_foreach(h->node.hash.pairs, item, tmp) {
        addz(o, ";");
        addh(o, item->data->node.hash_pair.key);
        addz(o, "=");
        dump(o, item->data->node.hash_pair.value);
    }
}
static void dump_call(hres * o, struct handlebars_ast_node * p, struct handlebars_ast_list * l, struct handlebars_ast_node * h)
{
    if (p) dump(o, p);
    dump_list(o, l);
    dump_hash(o, h);
}
static void dump_strip(hres * o, unsigned s)
{
    addz(o, s & handlebars_ast_strip_flag_left ? "~" : "-");
    addz(o, s & handlebars_ast_strip_flag_right ? "~" : "-");
}
static void dump(hres * o, struct handlebars_ast_node * n)
{
    char b[32];
    struct handlebars_ast_list_item * item, * tmp;
    int first = 1;
    if (!n) { addz(o, "?"); return; }
    switch (n->type) {
        case HANDLEBARS_AST_NODE_PROGRAM:
            addz(o, "P");
            if (n->node.program.block_param1) {
                addz(o, "|"); addh(o, n->node.program.block_param1);
                if (n->node.program.block_param2) { addz(o, " "); addh(o, n->node.program.block_param2); }
                addz(o, "|");
            }
            addz(o, "(");
            if (n->node.program.statements) handlebars_ast_list_foreach(n->node.program.statements, item, tmp) dump(o, item->data);
            addz(o, ")");
            break;
        case HANDLEBARS_AST_NODE_CONTENT: addz(o, "'"); addh(o, n->node.content.value); addz(o, "'"); break;
        case HANDLEBARS_AST_NODE_COMMENT: addz(o, "!"); addh(o, n->node.comment.value); addz(o, "!"); dump_strip(o, n->strip); break;
        case HANDLEBARS_AST_NODE_MUSTACHE:
            addz(o, n->node.mustache.unescaped ? "U<" : "M<");
            if (n->node.mustache.is_decorator) addz(o, "*");
            dump_call(o, n->node.mustache.path, n->node.mustache.params, n->node.mustache.hash);
            addz(o, ">"); dump_strip(o, n->strip);
            break;
        case HANDLEBARS_AST_NODE_BLOCK:
            addz(o, "B<");
            if (n->node.block.is_decorator) addz(o, "*");
            dump_call(o, n->node.block.path, n->node.block.params, n->node.block.hash);
            addz(o, ">{");
            if (n->node.block.program) dump(o, n->node.block.program);
            addz(o, "}{");
            if (n->node.block.inverse) dump(o, n->node.block.inverse);
            addz(o, "}");
            dump_strip(o, n->node.block.open_strip); dump_strip(o, n->node.block.inverse_strip); dump_strip(o, n->node.block.close_strip);
            break;
        case HANDLEBARS_AST_NODE_RAW_BLOCK:
            addz(o, "R<");
            dump_call(o, n->node.raw_block.path, n->node.raw_block.params, n->node.raw_block.hash);
            addz(o, ">{");
            if (n->node.raw_block.program) {
                if (n->node.raw_block.program->type == HANDLEBARS_AST_NODE_CONTENT) addh(o, n->node.raw_block.program->node.content.value);
                else if (n->node.raw_block.program->node.program.statements) handlebars_ast_list_foreach(n->node.raw_block.program->node.program.statements, item, tmp) addh(o, item->data->node.content.value);
            }
            addz(o, "}");
            break;
        case HANDLEBARS_AST_NODE_PARTIAL:
            addz(o, "><");
            dump_call(o, n->node.partial.name, n->node.partial.params, n->node.partial.hash);
            addz(o, ">"); dump_strip(o, n->strip);
            addz(o, "\""); addh(o, n->node.partial.indent); addz(o, "\"");
            break;
        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
            addz(o, "#<");
            dump_call(o, n->node.partial_block.path, n->node.partial_block.params, n->node.partial_block.hash);
            addz(o, ">{");
            if (n->node.partial_block.program) dump(o, n->node.partial_block.program);
            addz(o, "}");
            dump_strip(o, n->node.partial_block.open_strip); dump_strip(o, n->node.partial_block.close_strip);
            break;
        case HANDLEBARS_AST_NODE_SEXPR: addz(o, "("); dump_call(o, n->node.sexpr.path, n->node.sexpr.params, n->node.sexpr.hash); addz(o, ")"); break;
        case HANDLEBARS_AST_NODE_PATH:
            snprintf(b, sizeof b, "%s%u[", n->node.path.data ? "@" : "", n->node.path.depth);
            addz(o, b);
            if (n->node.path.parts) handlebars_ast_list_foreach(n->node.path.parts, item, tmp) { if (!first) addz(o, "\001"); first = 0; addh(o, item->data->node.path_segment.part); }
            addz(o, "]");
            addh(o, n->node.path.original);
            break;
        case HANDLEBARS_AST_NODE_STRING: addz(o, "\""); addh(o, n->node.string.value); addz(o, "\""); break;
        case HANDLEBARS_AST_NODE_NUMBER: addz(o, "#"); addh(o, n->node.number.value); break;
        case HANDLEBARS_AST_NODE_BOOLEAN: addz(o, "b"); addh(o, n->node.boolean.value); break;
        case HANDLEBARS_AST_NODE_UNDEFINED: addz(o, "undef"); break;
        case HANDLEBARS_AST_NODE_NUL: addz(o, "nul"); break;
        default: addz(o, "??"); break;
    }
}
static void clear(hres * r) { r->err = 0; r->stage = 0; r->msg[0] = 0; r->outlen = 0; r->line = r->col = 0; adds(r, "", 0); }
void hb_parse(const char * t, size_t n, unsigned long flags, int what, hparse * r)
{
    struct handlebars_context * ctx = handlebars_context_ctor();
    hres * volatile at = &r->tree;
    jmp_buf jmp;
    clear(&r->tree); clear(&r->tree2); clear(&r->print); clear(&r->print2); clear(&r->tokens);
    if (handlebars_setjmp_ex(ctx, &jmp)) {
        set_err(ctx, at, 0);
        handlebars_context_dtor(ctx);
        return;
    }
    if (what & 4) {
        at = &r->tokens;
        struct handlebars_token ** l = handlebars_lex_ex(handlebars_parser_ctor(ctx), handlebars_string_ctor(ctx, t, n));
        for (; l && *l; l++) {
            addz(&r->tokens, handlebars_token_readable_type(handlebars_token_get_type(*l)));
            addz(&r->tokens, "\001");
            addh(&r->tokens, handlebars_token_get_text(*l));
            addz(&r->tokens, "\002");
        }
        at = &r->tree;
    }
    struct handlebars_ast_node * ast = handlebars_parse_ex(handlebars_parser_ctor(ctx), handlebars_string_ctor(ctx, t, n), flags);
    if (handlebars_error_num(ctx)) set_err(ctx, at, 0);
    else {
        dump(&r->tree, ast);
        if (what & 2) {
            at = &r->print;
            struct handlebars_string * s = handlebars_ast_to_string(ctx, ast);
            addh(&r->print, s);
            dump(&r->tree2, ast);
            r->shared = r->tree.outlen == r->tree2.outlen && !memcmp(r->tree.out, r->tree2.out, r->tree.outlen);   /* printing alters nothing */
            clear(&r->tree2);
            at = &r->tree2;
            struct handlebars_ast_node * a2 = handlebars_parse_ex(handlebars_parser_ctor(ctx), handlebars_string_ctor(ctx, hbs_str_val(s), hbs_str_len(s)), flags);
            if (handlebars_error_num(ctx)) set_err(ctx, at, 0);
            else {
                dump(&r->tree2, a2);
                at = &r->print2;
                addh(&r->print2, handlebars_ast_to_string(ctx, a2));
            }
        }
    }
    handlebars_context_dtor(ctx);
}
