#define HANDLEBARS_VALUE_PRIVATE
#include <string.h>
#include <setjmp.h>
#include <stdio.h>
#include <talloc.h>
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_value_private.h"
#include "handlebars_ast.h"
#include "handlebars_compiler.h"
#include "handlebars_map.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_parser.h"
#include "handlebars_partial_loader.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_vm.h"
#include "pldshim.h"
static struct handlebars_context * c;
static struct handlebars_value ld;
static struct handlebars_vm * vm;
static jmp_buf jb;
#define GUARD(rs) (rs)->err = 0; (rs)->msg[0] = 0; (rs)->len = 0; (rs)->found = 0; \
    if (setjmp(jb)) { (rs)->err = handlebars_error_num(c); const char * mm = handlebars_error_msg(c); snprintf((rs)->msg, sizeof (rs)->msg, "%s", mm ? mm : "(null)"); c->e->jmp = NULL; c->e->num = 0; return; } c->e->jmp = &jb
static void put(plres * rs, const char * p, size_t n) { if (rs->len + n > sizeof rs->out) n = sizeof rs->out - rs->len; memcpy(rs->out + rs->len, p, n); rs->len += n; }
void pl_open(const char * dir, const char * ext)
{
    c = handlebars_context_ctor(); vm = NULL;
    handlebars_value_init(&ld);
    handlebars_value_partial_loader_init(c, handlebars_string_ctor(c, dir, strlen(dir)), handlebars_string_ctor(c, ext, strlen(ext)), &ld);
}
void pl_find(const char * name, size_t len, int copy, plres * rs)
{
    GUARD(rs);
    struct handlebars_string * k = handlebars_string_ctor(c, name, len);
    handlebars_string_addref(k);
    struct handlebars_value cp; handlebars_value_init(&cp);
    struct handlebars_value rv; handlebars_value_init(&rv);
    struct handlebars_value * from = &ld;
    if (copy) { handlebars_value_value(&cp, &ld); from = &cp; }
    struct handlebars_value * r = handlebars_value_map_find(from, k, &rv);
    if (r) { rs->found = 1; if (handlebars_value_get_type(r) == HANDLEBARS_VALUE_TYPE_STRING) put(rs, handlebars_value_get_strval(r), handlebars_value_get_strlen(r)); else put(rs, "(no string)", 11); }
    handlebars_value_dtor(&rv); handlebars_value_dtor(&cp);
    /* the caller's key belongs to the caller */
    if (hbs_str_len(k) != len || memcmp(hbs_str_val(k), name, len)) put(rs, "(key changed)", 13);
    handlebars_string_delref(k);
    c->e->jmp = NULL;
}
void pl_iter(int at, const char * name, size_t len, plres * rs)
{
    GUARD(rs);
    int i = 0;
    HANDLEBARS_VALUE_FOREACH_KV(&ld, key, child) {
        put(rs, hbs_str_val(key), hbs_str_len(key)); put(rs, "\1", 1);
        put(rs, handlebars_value_get_strval(child), handlebars_value_get_strlen(child)); put(rs, "\2", 1);
        if (i++ == at) {
            jmp_buf in, * old = c->e->jmp;
            struct handlebars_value rv; handlebars_value_init(&rv);
            if (!setjmp(in)) { c->e->jmp = &in; handlebars_value_map_find(&ld, handlebars_string_ctor(c, name, len), &rv); }
            handlebars_value_dtor(&rv);
            c->e->jmp = old; c->e->num = 0;
        }
    } HANDLEBARS_VALUE_FOREACH_END();
    rs->found = i;
    c->e->jmp = NULL;
}
long pl_count(void) { return handlebars_value_count(&ld); }
int pl_type(void) { return handlebars_value_get_type(&ld) == HANDLEBARS_VALUE_TYPE_MAP; }
void pl_render(const char * tmpl, size_t len, int again, plres * rs)
{
    GUARD(rs);
    if (!vm || again) { vm = handlebars_vm_ctor(c); handlebars_vm_set_partials(vm, &ld); }
    struct handlebars_ast_node * ast = handlebars_parse_ex(handlebars_parser_ctor(c), handlebars_string_ctor(c, tmpl, len), 0);
    struct handlebars_module * m = handlebars_program_serialize(c, handlebars_compiler_compile_ex(handlebars_compiler_ctor(c), ast));
    struct handlebars_value in; handlebars_value_init(&in);
    struct handlebars_map * map = handlebars_map_ctor(c, 1);
    handlebars_map_addref(map);
    struct handlebars_value t; handlebars_value_init(&t);
    handlebars_value_str(&t, handlebars_string_ctor(c, "N&", 2));
    map = handlebars_map_str_add(map, "n", 1, &t);
    handlebars_value_map(&in, map);
    struct handlebars_string * s = handlebars_vm_execute(vm, m, &in);
    if (s) { rs->found = 1; put(rs, hbs_str_val(s), hbs_str_len(s)); }
    handlebars_value_dtor(&t); handlebars_value_dtor(&in);
    c->e->jmp = NULL;
}
long pl_blocks(void) { return talloc_total_blocks(c); }
void pl_close(void) { if (vm) handlebars_vm_dtor(vm); handlebars_value_dtor(&ld); handlebars_context_dtor(c); }
