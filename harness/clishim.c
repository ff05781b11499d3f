#define HANDLEBARS_VALUE_PRIVATE
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <talloc.h>
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_ast.h"
#include "handlebars_ast_printer.h"
#include "handlebars_compiler.h"
#include "handlebars_delimiters.h"
#include "handlebars_json.h"
#include "handlebars_module_printer.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_opcodes.h"
#include "handlebars_parser.h"
#include "handlebars_partial_loader.h"
#include "handlebars_string.h"
#include "handlebars_token.h"
#include "handlebars_value.h"
#include "handlebars_value_private.h"
#include "handlebars_vm.h"
#include "handlebars_yaml.h"
#include "clishim.h"
static void put(clres * r, const char * p, size_t n) { r->out = realloc(r->out, r->len + n + 1); memcpy(r->out + r->len, p, n); r->len += n; }
static void puts_(clres * r, struct handlebars_string * s) { put(r, hbs_str_val(s), hbs_str_len(s)); }
void cl_run(const clreq * q, clres * r)
{
    jmp_buf jmp;
    struct handlebars_context * c = handlebars_context_ctor();
    r->ok = 0; r->msg[0] = 0; r->len = 0;
    if (handlebars_setjmp_ex(c, &jmp)) {
        snprintf(r->msg, sizeof r->msg, "%s", handlebars_error_message(c));
        r->len = 0;
        c->e->jmp = NULL;
        handlebars_context_dtor(c);
        return;
    }
    struct handlebars_string * t = handlebars_string_ctor(c, q->tmpl, q->tlen);
    if (q->flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(c, t, NULL, NULL);
    struct handlebars_parser * p = handlebars_parser_ctor(c);
    if (q->mode == CM_LEX) {
        for (struct handlebars_token ** k = handlebars_lex_ex(p, t); *k; k++) puts_(r, handlebars_token_print(c, *k, 1));
        goto done;
    }
    struct handlebars_value in, pa;
    handlebars_value_init(&in); handlebars_value_init(&pa);
    if (q->mode == CM_EXECUTE) {
        if (q->dir) handlebars_value_partial_loader_init(c, handlebars_string_ctor(c, q->dir, strlen(q->dir)), handlebars_string_ctor(c, q->ext, strlen(q->ext)), &pa);
        if (q->kind == CD_JSON) { handlebars_value_init_json_stringl(c, &in, q->data, q->dlen); if (q->convert) handlebars_value_convert(&in); }
        if (q->kind == CD_YAML) { char * z = talloc_strndup(c, q->data, q->dlen); handlebars_value_init_yaml_string(c, &in, z); }
    }
    struct handlebars_ast_node * ast = handlebars_parse_ex(p, t, q->flags);
    if (q->mode == CM_PARSE) { puts_(r, handlebars_ast_print(c, ast)); goto done; }
    struct handlebars_compiler * k = handlebars_compiler_ctor(c);
    handlebars_compiler_set_flags(k, q->flags);
    struct handlebars_program * g = handlebars_compiler_compile_ex(k, ast);
    if (q->mode == CM_COMPILE) { puts_(r, handlebars_program_print(c, g, 0)); goto done; }
    struct handlebars_module * m = handlebars_program_serialize(c, g);
    if (q->mode == CM_MODULE) { handlebars_module_generate_hash(m); puts_(r, handlebars_module_print(c, m)); goto done; }
    struct handlebars_vm * vm = handlebars_vm_ctor(c);
    handlebars_vm_set_flags(vm, q->flags);
    handlebars_vm_set_partials(vm, &pa);
    puts_(r, handlebars_vm_execute(vm, m, &in));
    if (q->newline) put(r, "\n", 1);
done:
    r->ok = 1;
    c->e->jmp = NULL;
    handlebars_context_dtor(c);
}
