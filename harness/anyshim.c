#include "hbshim.c"
#include "handlebars_ast_printer.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_token.h"
#include "anyshim.h"
long an_blocks(void) { static int on; if (!on) { talloc_enable_null_tracking(); on = 1; } return talloc_total_blocks(NULL); }
static struct handlebars_string * given(struct handlebars_context * c, const hreq * rq) { return handlebars_string_ctor(c, rq->tmpl, rq->tlen); }
static void start(struct handlebars_context ** c, jmp_buf * j) { *c = handlebars_context_ctor(); (*c)->e->jmp = j; }
static void lexing(struct handlebars_context * c, const hreq * rq, ares * a)
{
    struct handlebars_token ** l = handlebars_lex_ex(handlebars_parser_ctor(c), given(c, rq));
    for (; l && *l; l++) addh(&a->r[0], handlebars_token_print(c, *l, handlebars_token_print_flag_newlines));
}
static void delims(struct handlebars_context * c, const hreq * rq, ares * a) { addh(&a->r[1], handlebars_preprocess_delimiters(c, given(c, rq), NULL, NULL)); }
static struct handlebars_ast_node * tree(struct handlebars_context * c, const hreq * rq)
{
    struct handlebars_string * t = given(c, rq);
    if (rq->flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(c, t, NULL, NULL);
    return handlebars_parse_ex(handlebars_parser_ctor(c), t, rq->flags);
}
static void printing(struct handlebars_context * c, const hreq * rq, ares * a)
{
    struct handlebars_ast_node * n = tree(c, rq);
    addh(&a->r[2], handlebars_ast_print(c, n));
    addh(&a->r[3], handlebars_ast_to_string(c, n));
}
static void compiling(struct handlebars_context * c, const hreq * rq, ares * a)
{
    struct handlebars_ast_node * n = tree(c, rq);
    struct handlebars_compiler * k = handlebars_compiler_ctor(c);
    handlebars_compiler_set_flags(k, rq->flags);
    struct handlebars_program * p = handlebars_compiler_compile_ex(k, n);
    addh(&a->r[4], handlebars_program_print(c, p, 0));
    struct handlebars_module * m = handlebars_program_serialize(c, p);
    handlebars_module_normalize_pointers(m, NULL);
    handlebars_module_generate_hash(m);
    if (!handlebars_module_verify(m, c)) addz(&a->r[5], "does not verify");
}
static void stage(void (* f)(struct handlebars_context *, const hreq *, ares *), int at, const hreq * rq, ares * a)
{
    jmp_buf j; struct handlebars_context * c;
    start(&c, &j);
    if (setjmp(j)) set_err(c, &a->r[at], 0); else f(c, rq, a);
    c->e->jmp = NULL;
    handlebars_context_dtor(c);
}
void an_run(const hreq * rq, int as, ares * a)
{
    static void (* const st[])(struct handlebars_context *, const hreq *, ares *) = {lexing, delims, printing, compiling};
    static const int at[] = {0, 1, 2, 4};
    for (int i = 0; i < 8; i++) clear(&a->r[i]);
    if (!as) for (int i = 0; i < 4; i++) stage(st[i], at[i], rq, a);
    hreq x = *rq; hpartial p[40]; char * src = NULL;
    if (as == 1) {
        memcpy(p, rq->partials, rq->npartials * sizeof *p);
        p[rq->npartials] = (hpartial) {"any", rq->tmpl, rq->tlen, 0};
        x.partials = p; x.npartials++;
        x.tmpl = "{{> any}}|\n  {{> any a}}\n{{#> any}}B{{/any}}"; x.tlen = strlen(x.tmpl);
    } else if (as == 2) {
        src = malloc(rq->tlen + 40);
        memcpy(src, "{{#lt}}", 7); memcpy(src + 7, rq->tmpl, rq->tlen); memcpy(src + 7 + rq->tlen, "{{/lt}}", 7);
        x.tmpl = src; x.tlen = rq->tlen + 14;
    }
    hb_render(&x, &a->r[6]);
    x.nojmp = as == 1 || !(x.flags & handlebars_compiler_flag_compat); /* delimiter errors need a handler */ x.pipe = x.pipe == HP_DIRECT ? HP_RELOC : HP_DIRECT;
    hb_render(&x, &a->r[7]);
    free(src);
}
