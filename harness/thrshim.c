#include "anyshim.c"
#include "thrshim.h"
/* one tree, program and module used again and again; what is not as the first time */
void th_reuse(const hreq * rq, unsigned long other, char * msg, size_t n)
{
    jmp_buf j; struct handlebars_context * volatile c;
    static __thread ares a; ares * s = &a;
    start((struct handlebars_context **) &c, &j);
    msg[0] = 0;
    if (setjmp(j)) { c->e->jmp = NULL; handlebars_context_dtor(c); return; }
    struct handlebars_ast_node * t = tree(c, rq);
    for (int i = 0; i < 8; i++) clear(&s->r[i]);
    addh(&s->r[0], handlebars_ast_print(c, t)); addh(&s->r[1], handlebars_ast_to_string(c, t));
    struct handlebars_program * p[3]; struct handlebars_module * m[2];
    hreq x = *rq; x.nojmp = 1;
    for (int i = 0; i < 3 && !msg[0]; i++) {
        struct handlebars_compiler * k = handlebars_compiler_ctor(c);
        handlebars_compiler_set_flags(k, i == 1 ? other : rq->flags);
        jmp_buf in; void * before = c->e->jmp; c->e->jmp = &in;
        if (setjmp(in)) { c->e->jmp = before; c->e->num = 0; p[i] = NULL; if (i == 2 && p[0]) snprintf(msg, n, "compiling again failed"); }
        else { p[i] = handlebars_compiler_compile_ex(k, t); c->e->jmp = before; }
        clear(&s->r[2]); clear(&s->r[3]);
        addh(&s->r[2], handlebars_ast_print(c, t)); addh(&s->r[3], handlebars_ast_to_string(c, t));
        if (s->r[0].outlen != s->r[2].outlen || memcmp(s->r[0].out, s->r[2].out, s->r[0].outlen)) snprintf(msg, n, "compiling changed the syntax tree: %s, before %s", s->r[2].out, s->r[0].out);
        if (s->r[1].outlen != s->r[3].outlen || memcmp(s->r[1].out, s->r[3].out, s->r[1].outlen)) snprintf(msg, n, "compiling changed what the syntax tree prints: %s, before %s", s->r[3].out, s->r[1].out);
    }
    if (!msg[0] && p[0] && p[2]) {
        clear(&s->r[2]); clear(&s->r[3]);
        addh(&s->r[2], handlebars_program_print(c, p[0], 0));
        for (int i = 0; i < 2; i++) m[i] = handlebars_program_serialize(c, p[0]);
        addh(&s->r[3], handlebars_program_print(c, p[2], 0));
        if (s->r[2].outlen != s->r[3].outlen || memcmp(s->r[2].out, s->r[3].out, s->r[2].outlen)) snprintf(msg, n, "compiled again: %s, before %s", s->r[3].out, s->r[2].out);
        clear(&s->r[3]); addh(&s->r[3], handlebars_program_print(c, p[0], 0));
        if (s->r[2].outlen != s->r[3].outlen || memcmp(s->r[2].out, s->r[3].out, s->r[2].outlen)) snprintf(msg, n, "serializing changed the program: %s, before %s", s->r[3].out, s->r[2].out);
        char * copy = malloc(m[0]->size); memcpy(copy, m[0], m[0]->size);
        x.placed = m[0];
        hb_render(&x, &s->r[4]); hb_render(&x, &s->r[5]);
        if (memcmp(copy, m[0], m[0]->size)) snprintf(msg, n, "rendering changed the module");
        free(copy);
        x.placed = m[1]; hb_render(&x, &s->r[6]);
        x.placed = NULL; x.nojmp = 0; hb_render(&x, &s->r[7]);
        for (int i = 4; i < 7; i++) if (s->r[i].err != s->r[7].err || s->r[i].outlen != s->r[7].outlen || memcmp(s->r[i].out, s->r[7].out, s->r[7].outlen)) snprintf(msg, n, "rendering %d of one module: %d '%.*s', alone %d '%.*s'", i - 3, s->r[i].err, (int) s->r[i].outlen, s->r[i].out, s->r[7].err, (int) s->r[7].outlen, s->r[7].out);
    }
    c->e->jmp = NULL; handlebars_context_dtor(c);
}
int th_place(void * at, struct handlebars_context * c) { if (!handlebars_module_verify(at, c)) return 0; handlebars_module_patch_pointers(at); return 1; }
/* every allocation is a point where another participant may go on */
static void (* point)(void);
#define P(f, T, D, A) static T (* o_##f) D; static T p_##f D { point(); return o_##f A; }
P(array, void *, (const void * c, size_t e, unsigned n, const char * m), (c, e, n, m))
P(free, int, (void * p, const char * l), (p, l))
P(named_const, void *, (const void * c, size_t s, const char * m), (c, s, m))
P(realloc_array, void *, (const void * c, void * p, size_t e, unsigned n, const char * m), (c, p, e, n, m))
P(strdup, char *, (const void * c, const char * s), (c, s))
P(strndup, char *, (const void * c, const char * s, size_t n), (c, s, n))
P(zero, void *, (const void * c, size_t s, const char * m), (c, s, m))
#undef P
void th_points(void (* f)(void))
{
    point = f;
#define P(f) o_##f = (void *) _handlebars_talloc_##f; _handlebars_talloc_##f = (void *) p_##f;
    P(realloc_array) P(strndup) P(zero)
}
