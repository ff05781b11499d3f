#include <talloc.h>
/* what the helpers of the check allocate never fails */
char * __real_talloc_asprintf(const void * t, const char * f, ...);
char * __real_talloc_asprintf_append_buffer(char * t, const char * f, ...);
char * __real_talloc_strdup(const void * t, const char * p);
#define talloc_asprintf __real_talloc_asprintf
#define talloc_asprintf_append_buffer __real_talloc_asprintf_append_buffer
#undef talloc_strdup
#define talloc_strdup __real_talloc_strdup
#include "hbshim.c"
#undef talloc_asprintf
#undef talloc_asprintf_append_buffer
#undef talloc_strdup
#include "handlebars_cache.h"
#include "handlebars_cache_private.h"
#include "handlebars_closure.h"
#include "handlebars_module_printer.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_partial_loader.h"
#include "handlebars_ptr.h"
#include "handlebars_stack.h"
#include "handlebars_token.h"
#include "handlebars_yaml.h"
#include "handlebars_json.h"
#include "handlebars_vm_private.h"
#include "oomshim.h"
#include <malloc.h>
#if defined(__SANITIZE_ADDRESS__)
size_t __sanitizer_get_current_allocated_bytes(void);
static long bytes(void) { return (long) __sanitizer_get_current_allocated_bytes(); }
#else
static long bytes(void) { struct mallinfo2 m = mallinfo2(); return (long) (m.uordblks + m.hblkhd); }
#endif
typedef struct handlebars_string str;
/* {{{ objects of the operations */
static struct {
    struct handlebars_context * c; struct handlebars_map * m, * m2; struct handlebars_stack * t, * t2; str * s, * s2;
    struct handlebars_value * v[3]; struct handlebars_cache * cache; struct handlebars_module * mod, * got; struct handlebars_vm * vm; struct handlebars_ptr * p; struct handlebars_closure * clo;
    str * taken; /* over by the operation, whatever becomes of it */ char text[4096]; const oreq * q;
} O;
#define C O.c
#define LIT(x) handlebars_string_ctor(C, x, sizeof(x) - 1)
static void txt(const char * f, ...) { size_t n = strlen(O.text); va_list ap; va_start(ap, f); vsnprintf(O.text + n, sizeof O.text - n, f, ap); va_end(ap); }
static void txts(str * s) { txt("%.*s|", (int) hbs_str_len(s), hbs_str_val(s)); }
static void num(struct handlebars_value * v, long n) { handlebars_value_integer(v, n); }
static struct handlebars_map * map(int n, int cap)
{
    struct handlebars_map * m = handlebars_map_ctor(C, cap);
    handlebars_map_addref(m);
    for (int i = 0; i < n; i++) { char k[8]; sprintf(k, "k%d", i); HANDLEBARS_VALUE_DECL(v); num(v, i); m = handlebars_map_str_update(m, k, strlen(k), v); HANDLEBARS_VALUE_UNDECL(v); }
    return m;
}
static struct handlebars_stack * stack(int n, int cap)
{
    struct handlebars_stack * t = handlebars_stack_ctor(C, cap);
    handlebars_stack_addref(t);
    for (int i = 0; i < n; i++) { HANDLEBARS_VALUE_DECL(v); num(v, i); t = handlebars_stack_push(t, v); HANDLEBARS_VALUE_UNDECL(v); }
    return t;
}
static str * hold(str * s) { handlebars_string_addref(s); return s; }
static int kcmp(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b) { return -strcmp(hbs_str_val(a->key), hbs_str_val(b->key)); }
static int kcmp_r(const struct handlebars_map_kv_pair * a, const struct handlebars_map_kv_pair * b, const void * p) { return strcmp(hbs_str_val(a->key), hbs_str_val(b->key)) * *(const int *) p; }
HANDLEBARS_CLOSURE_ATTRS static struct handlebars_value * clofn(HANDLEBARS_CLOSURE_ARGS) { return rv; }
static const int minus = -1;
static void json(struct handlebars_value * v, const char * t) { handlebars_value_init_json_stringl(C, v, t, strlen(t)); }
static const char JS[] = "{\"a\":[1,\"two\",{\"b\":null}],\"s\":\"text\",\"o\":{\"x\":1.5,\"y\":true}}";
static const char YS[] = "a: [1, two, {b: x}]\ns: text\no:\n  x: 1.5\n  y: true\n";
static struct handlebars_value * V(int i) { return O.v[i]; }
static struct handlebars_module * module(void)
{
    struct handlebars_parser * p = handlebars_parser_ctor(C); struct handlebars_compiler * k = handlebars_compiler_ctor(C);
    struct handlebars_program * g = handlebars_compiler_compile_ex(k, handlebars_parse_ex(p, LIT("a{{b}}{{#if c}}d{{/if}}"), 0));
    struct handlebars_module * m = handlebars_program_serialize(C, g);
    handlebars_module_normalize_pointers(m, NULL); handlebars_module_generate_hash(m);
    return m;
}
static struct handlebars_cache * cache(void)
{
    switch (O.q->backend) {
        case 0: return handlebars_cache_simple_ctor(C);
        case 1: return handlebars_cache_mmap_ctor(C, 65536, 8);
        default: return handlebars_cache_lmdb_ctor(C, O.q->dir);
    }
}
static void walk(struct handlebars_value * v)
{
    txt("%d:", handlebars_value_get_type(v));
    switch (handlebars_value_get_type(v)) {
        case HANDLEBARS_VALUE_TYPE_MAP: HANDLEBARS_VALUE_FOREACH_KV(v, k, x) { txts(k); walk(x); } HANDLEBARS_VALUE_FOREACH_END(); break;
        case HANDLEBARS_VALUE_TYPE_ARRAY: HANDLEBARS_VALUE_FOREACH(v, x) { walk(x); } HANDLEBARS_VALUE_FOREACH_END(); break;
        case HANDLEBARS_VALUE_TYPE_INTEGER: txt("%ld,", handlebars_value_get_intval(v)); break;
        case HANDLEBARS_VALUE_TYPE_STRING: txt("%s,", handlebars_value_get_strval(v)); break;
        default: break;
    }
}
/* }}} */
#define OPS \
    X("map: create", , O.m = handlebars_map_ctor(C, 5); handlebars_map_addref(O.m)) \
    X("map: add to a full one", O.m = map(2, 2); O.s = hold(LIT("new")); num(V(0), 9), O.m = handlebars_map_add(O.m, O.s, V(0))) \
    X("map: add by bytes to an empty one", O.m = map(0, 0); num(V(0), 9), O.m = handlebars_map_str_add(O.m, "k", 1, V(0))) \
    X("map: add by bytes to one of 4", O.m = map(4, 4); num(V(0), 9), O.m = handlebars_map_str_add(O.m, "kk", 2, V(0))) \
    X("map: update a new key", O.m = map(8, 8); O.s = hold(LIT("new")); num(V(0), 9), O.m = handlebars_map_update(O.m, O.s, V(0))) \
    X("map: update by bytes, new key", O.m = map(8, 8); num(V(0), 9), O.m = handlebars_map_str_update(O.m, "kk", 2, V(0))) \
    X("map: update by bytes, existing key", O.m = map(4, 4); num(V(0), 9), O.m = handlebars_map_str_update(O.m, "k1", 2, V(0))) \
    X("map: update a shared one", O.m = map(4, 4); O.m2 = O.m; handlebars_map_addref(O.m2); num(V(0), 9), O.m = handlebars_map_str_update(O.m, "k1", 2, V(0))) \
    X("map: add to a shared one", O.m = map(4, 4); O.m2 = O.m; handlebars_map_addref(O.m2); num(V(0), 9), O.m = handlebars_map_str_add(O.m, "kk", 2, V(0))) \
    X("map: remove from a shared one", O.m = map(4, 4); O.m2 = O.m; handlebars_map_addref(O.m2), O.m = handlebars_map_str_remove(O.m, "k1", 2)) \
    X("map: remove", O.m = map(4, 4); O.s = hold(LIT("k2")), O.m = handlebars_map_remove(O.m, O.s)) \
    X("map: copy", O.m = map(4, 4), O.m2 = handlebars_map_copy_ctor(O.m, 9); handlebars_map_addref(O.m2)) \
    X("map: copy of a sparse one", O.m = map(4, 4); O.m = handlebars_map_str_remove(O.m, "k1", 2), O.m2 = handlebars_map_copy_ctor(O.m, 0); handlebars_map_addref(O.m2)) \
    X("map: rehash", O.m = map(4, 4); O.m = handlebars_map_str_remove(O.m, "k1", 2), O.m = handlebars_map_rehash(O.m, true)) \
    X("map: rehash a shared one", O.m = map(4, 4); O.m2 = O.m; handlebars_map_addref(O.m2), O.m = handlebars_map_rehash(O.m, true)) \
    X("map: sort", O.m = map(4, 4), O.m = handlebars_map_sort(O.m, kcmp)) \
    X("map: sort a shared sparse one", O.m = map(5, 4); O.m = handlebars_map_str_remove(O.m, "k1", 2); O.m2 = O.m; handlebars_map_addref(O.m2), O.m = handlebars_map_sort_r(O.m, kcmp_r, &minus)) \
    X("map: iterate a sparse one", O.m = map(4, 4); O.m = handlebars_map_str_remove(O.m, "k1", 2); handlebars_value_map(V(0), O.m), HANDLEBARS_VALUE_FOREACH_KV(V(0), k, x) { txts(k); } HANDLEBARS_VALUE_FOREACH_END()) \
    X("stack: create", , O.t = handlebars_stack_ctor(C, 3); handlebars_stack_addref(O.t)) \
    X("stack: push to a full one", O.t = stack(4, 4); num(V(0), 9), O.t = handlebars_stack_push(O.t, V(0))) \
    X("stack: push to an empty one", O.t = stack(0, 0); num(V(0), 9), O.t = handlebars_stack_push(O.t, V(0))) \
    X("stack: push to a shared one", O.t = stack(2, 4); O.t2 = O.t; handlebars_stack_addref(O.t2); num(V(0), 9), O.t = handlebars_stack_push(O.t, V(0))) \
    X("stack: set in a shared one", O.t = stack(2, 4); O.t2 = O.t; handlebars_stack_addref(O.t2); num(V(0), 9), O.t = handlebars_stack_set(O.t, 1, V(0))) \
    X("stack: set beyond the end", O.t = stack(2, 2); num(V(0), 9), O.t = handlebars_stack_set(O.t, 2, V(0))) \
    X("stack: copy", O.t = stack(3, 4), O.t2 = handlebars_stack_copy_ctor(O.t, 9); handlebars_stack_addref(O.t2)) \
    X("string: create", , O.s = hold(handlebars_string_ctor(C, "abc", 3))) \
    X("string: copy", O.s = hold(LIT("abc")), O.s2 = hold(handlebars_string_copy_ctor(C, O.s))) \
    X("string: extend", O.s = LIT("abc"), O.s = handlebars_string_extend(C, O.s, 900)) \
    X("string: append", O.s = LIT("abc"), O.s = handlebars_string_append(C, O.s, "0123456789012345678901234567890123456789", 40)) \
    X("string: append to a shared one", O.s = hold(hold(LIT("abc"))); O.s2 = O.s, O.s = handlebars_string_append(C, O.s, "0123456789012345678901234567890123456789", 40)) \
    X("string: append a string", O.s = LIT("abc"); O.s2 = hold(LIT("0123456789012345678901234567890123456789")), O.s = handlebars_string_append_str(C, O.s, O.s2)) \
    X("string: formatted", , O.s = handlebars_string_asprintf(C, "%d %s", 3, "x")) \
    X("string: append formatted", O.s = LIT("abc"), O.s = handlebars_string_asprintf_append(C, O.s, "%d %s", 3, "0123456789012345678901234567890123456789")) \
    X("string: escape", , O.s = handlebars_string_htmlspecialchars(C, "<&\"'`=>", 7)) \
    X("string: append escaped", O.s = LIT("abc"), O.s = handlebars_string_htmlspecialchars_append(C, O.s, "<&\"'`=>", 7)) \
    X("string: replace", O.s = LIT("abcabc"), O.s = handlebars_str_replace(C, O.s, "b", 1, "longer", 6)) \
    X("string: reduce a shared one", O.s = hold(hold(LIT("aabbaab"))); O.s2 = O.s, O.s = handlebars_str_reduce(O.s, "aa", 2, "x", 1)) \
    X("string: add slashes", O.s = LIT("a\nb\\c"), O.s2 = handlebars_string_addcslashes(C, O.s, "\n\\", 2)) \
    X("string: strip slashes of a shared one", O.s = hold(hold(LIT("a\\nb"))); O.s2 = O.s, O.s = handlebars_string_stripcslashes(O.s)) \
    X("string: trim a shared one", O.s = hold(hold(LIT("  ab "))); O.s2 = O.s, O.s = handlebars_string_rtrim(handlebars_string_ltrim(O.s, " ", 1), " ", 1)) \
    X("string: truncate a shared one", O.s = hold(hold(LIT("abcdef"))); O.s2 = O.s, O.s = handlebars_string_truncate(O.s, 1, 3)) \
    X("string: compact", O.s = handlebars_string_truncate(handlebars_string_extend(C, LIT("abcdef"), 500), 1, 3), O.s = handlebars_string_compact(O.s)) \
    X("string: indent", O.s = LIT("a\nb\n"); O.s2 = hold(LIT("  ")), O.s = handlebars_string_indent(C, O.s, O.s2)) \
    X("string: append indented", O.taken = LIT("q"); O.s2 = hold(hold(LIT("a\nb\n"))), O.s = handlebars_string_indent_append(C, O.taken, O.s2, O.s2)) \
    X("string: join", O.s2 = hold(LIT("mm")), str * l_[] = {O.s2, O.s2, NULL}; O.s = handlebars_string_implode(C, ", ", 2, l_)) \
    X("delimiters", O.s2 = hold(hold(LIT("{{=<% %>=}}a<%b%><%#c%>d<%/c%>"))), O.s = handlebars_preprocess_delimiters(C, O.s2, NULL, NULL)) \
    X("value: create", , struct handlebars_value * v_ = handlebars_value_ctor(C); num(v_, 4); handlebars_value_value(V(0), v_)) \
    X("value: read JSON", , json(V(0), JS)) \
    X("value: read JSON number", , json(V(0), "12 ")) \
    X("value: read JSON string", , json(V(0), "\"abc\"")) \
    X("value: read JSON that is wrong", , json(V(0), "{\"a\":}")) \
    X("value: read YAML", , handlebars_value_init_yaml_string(C, V(0), YS)) \
    X("value: read YAML that is wrong", , handlebars_value_init_yaml_string(C, V(0), "a: [1")) \
    X("value: convert", json(V(0), JS), handlebars_value_convert(V(0))) \
    X("value: find in JSON", json(V(0), JS), handlebars_value_map_str_find(V(0), "a", 1, V(1))) \
    X("value: find at an index in JSON", json(V(0), JS); handlebars_value_map_str_find(V(0), "a", 1, V(1)), handlebars_value_array_find(V(1), 1, V(2))) \
    X("value: find by string in JSON", json(V(0), JS); O.s = hold(LIT("o")), handlebars_value_map_find(V(0), O.s, V(1))) \
    X("value: iterate JSON", json(V(0), JS), O.text[0] = 0; walk(V(0))) \
    X("value: print", json(V(0), JS), char * d_ = handlebars_value_dump(V(0), C, 0); O.text[0] = 0; txt("%s", d_)) \
    X("value: text of an array", json(V(0), "[1,\"<two>\",[3,4.5,true]]"), O.s = hold(handlebars_value_expression(C, V(0), true))) \
    X("value: append text of an array", json(V(0), "[1,\"<two>\",[3,4.5,true]]"); O.taken = LIT("q"), O.s = handlebars_value_expression_append(C, V(0), O.taken, true)) \
    X("value: to string", num(V(0), 42), O.s = hold(handlebars_value_to_string(V(0), C))) \
    X("value: push", handlebars_value_array(V(0), O.t = stack(4, 4)); num(V(1), 9), handlebars_value_array_push(V(0), V(1))) \
    X("value: set in an array", handlebars_value_array(V(0), O.t = stack(4, 4)); num(V(1), 9), handlebars_value_array_set(V(0), 2, V(1))) \
    X("value: update a map", handlebars_value_map(V(0), O.m = map(4, 4)); O.s = hold(LIT("kk")); num(V(1), 9), handlebars_value_map_update(V(0), O.s, V(1))) \
    X("value: pointer", , O.p = handlebars_ptr_ctor(C, struct handlebars_context, C, true); handlebars_value_ptr(V(0), O.p); O.text[0] = 0; txt("%d", handlebars_value_get_ptr(V(0), struct handlebars_context) == C)) \
    X("value: closure", O.vm = handlebars_vm_ctor(C); num(V(0), 5), O.clo = handlebars_closure_ctor(O.vm, clofn, 1, V(0)); handlebars_closure_addref(O.clo)) \
    X("error message", jmp_buf b_; jmp_buf * p_ = C->e->jmp; if (!handlebars_setjmp_ex(C, &b_)) handlebars_throw(C, HANDLEBARS_ERROR, "some %s", "error"); C->e->jmp = p_, char * m_ = handlebars_error_message(C); char * j_ = handlebars_error_message_js(C); O.text[0] = 0; txt("%.10s %d", m_, j_ != NULL)) \
    X("raise an error", , handlebars_throw(C, HANDLEBARS_ERROR, "some %s", "error")) \
    X("renderer: create", , O.vm = handlebars_vm_ctor(C)) \
    X("parser: create", , handlebars_parser_ctor(C)) \
    X("partials from a directory: create", O.s = LIT("/nonexistent"); O.s2 = hold(LIT(".hbs")), handlebars_value_partial_loader_init(C, O.s, O.s2, V(0))) \
    X("partials from a directory: read one", O.s = hold(handlebars_string_ctor(C, O.q->dir, strlen(O.q->dir))); O.s2 = hold(LIT(".hbs")); handlebars_value_partial_loader_init(C, O.s, O.s2, V(0)), handlebars_value_map_str_find(V(0), "p", 1, V(1))) \
    X("partials from a directory: one that does not exist", O.s = hold(handlebars_string_ctor(C, O.q->dir, strlen(O.q->dir))); O.s2 = hold(LIT(".hbs")); handlebars_value_partial_loader_init(C, O.s, O.s2, V(0)), handlebars_value_map_str_find(V(0), "q", 1, V(1))) \
    X("partials from a directory: read again and list", O.s = hold(handlebars_string_ctor(C, O.q->dir, strlen(O.q->dir))); O.s2 = hold(LIT(".hbs")); handlebars_value_partial_loader_init(C, O.s, O.s2, V(0)); handlebars_value_map_str_find(V(0), "p", 1, V(1)), handlebars_value_map_str_find(V(0), "p2", 2, V(2)); O.text[0] = 0; walk(V(0))) \
    X("cache: create", , O.cache = cache()) \
    X("cache: store", O.cache = cache(); O.s2 = hold(LIT("the key")); O.mod = module(), handlebars_cache_add(O.cache, O.s2, O.mod)) \
    X("cache: store again", O.cache = cache(); O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, O.s2, module()); O.mod = module(), handlebars_cache_add(O.cache, O.s2, O.mod)) \
    X("cache: store over the limit", O.cache = cache(); O.cache->max_entries = 1; O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, hold(LIT("other")), module()); O.mod = module(), handlebars_cache_add(O.cache, O.s2, O.mod)) \
    X("cache: find", O.cache = cache(); O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, O.s2, module()), O.got = handlebars_cache_find(O.cache, O.s2)) \
    X("cache: collect", O.cache = cache(); O.cache->max_age = 0; O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, O.s2, module()), handlebars_cache_gc(O.cache)) \
    X("cache: reset", O.cache = cache(); O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, O.s2, module()), handlebars_cache_reset(O.cache)) \
    X("cache: statistics", O.cache = cache(); O.s2 = hold(LIT("the key")); handlebars_cache_add(O.cache, O.s2, module()), struct handlebars_cache_stat st_ = handlebars_cache_stat(O.cache); O.text[0] = 0; txt("%d", (int) st_.current_entries))
static const char * const names[] = {
#define X(n, s, ...) n,
OPS
#undef X
};
int oo_count(void) { return sizeof names / sizeof *names; }
const char * oo_name(int op) { return names[op]; }
/* the sanitizer's view of a frame left by longjmp is not of interest */
static __attribute__((noinline)) void op_setup(int op)
{
    int n = 0;
    (void) n;
#define X(name, s, ...) if (op == n++) { s; return; }
    OPS
#undef X
}
static __attribute__((noinline)) void op_act(int op)
{
    int n = 0;
    (void) n;
#define X(name, s, ...) if (op == n++) { __VA_ARGS__; return; }
    OPS
#undef X
}
static void setmem(hres * rs, const char * s) { rs->err = 0; rs->msg[0] = 0; set_out(rs, s, strlen(s)); }
static void shot(hres * rs)   /* what the objects look like, read without failing */
{
    char keep[4096]; strcpy(keep, O.text); O.text[0] = 0;
    struct handlebars_value w_; struct handlebars_value * w = handlebars_value_init(&w_);
    if (O.m) { handlebars_value_map(w, O.m); txt("m:"); walk(w); handlebars_value_null(w); }
    if (O.m2) { handlebars_value_map(w, O.m2); txt(" m2:"); walk(w); handlebars_value_null(w); }
    if (O.t) { handlebars_value_array(w, O.t); txt(" t:"); walk(w); handlebars_value_null(w); }
    if (O.t2) { handlebars_value_array(w, O.t2); txt(" t2:"); walk(w); handlebars_value_null(w); }
    if (O.s) { txt(" s:"); txts(O.s); }
    if (O.s2) { txt(" s2:"); txts(O.s2); }
    for (int i = 0; i < 3; i++) { txt(" v:"); walk(V(i)); }
    if (O.cache) { struct handlebars_module * g = handlebars_cache_find(O.cache, O.s2 ? O.s2 : LIT("x")); txt(" cache:%d", g != NULL); if (g) handlebars_cache_release(O.cache, O.s2, g); }
    if (O.clo) txt(" closure");
    setmem(rs, O.text);
    strcpy(O.text, keep);
}
static struct handlebars_value vmem[3];
static void op_run(const oreq * q, int mode, long at, long at2, ores * r)
{
    jmp_buf jmp;
    memset(&O, 0, sizeof O); O.q = q;
    for (int i = 0; i < 3; i++) O.v[i] = handlebars_value_init(&vmem[i]);
    struct handlebars_context * c = C = handlebars_context_ctor();
    volatile int stage = 0;
    if (handlebars_setjmp_ex(c, &jmp)) {
        if (stage == 0) { r->first.err = -3; snprintf(r->first.msg, sizeof r->first.msg, "preparation: %s", handlebars_error_msg(c)); goto done; }
        if (stage == 1) { r->calls = oom_disarm(); r->failed = oom_failed; set_err(c, &r->first, 0); stage = 2; goto look; }
        if (stage == 2) { r->after.err = -4; snprintf(r->after.msg, sizeof r->after.msg, "looking at the objects: %s", handlebars_error_msg(c)); goto done; }
        set_err(c, &r->again, 0); goto done;
    }
    op_setup(q->op);
    shot(&r->before);
    O.text[0] = 0;
    stage = 1;
    oom_arm(mode, at, at2);
    op_act(q->op);
    r->calls = oom_disarm(); r->failed = oom_failed;
    setmem(&r->first, O.text);
    stage = 2;
look:
    shot(&r->after);
    /* once more, on new objects in the same context */
    if (r->first.err) {
        stage = 3;
        O.text[0] = 0;
        if (O.cache) { handlebars_cache_dtor(O.cache); O.cache = NULL; }
        for (int i = 0; i < 3; i++) handlebars_value_null(O.v[i]);
        O.m = O.m2 = NULL; O.t = O.t2 = NULL; O.s = O.s2 = NULL; O.clo = NULL; O.got = NULL;
        op_setup(q->op);
        O.text[0] = 0;
        op_act(q->op);
        char t[4096]; strcpy(t, O.text);
        hres * ag = &r->again;
        setmem(ag, t);
    }
done:
    oom_disarm();
    if (O.got && O.cache) handlebars_cache_release(O.cache, O.s2, O.got);
    handlebars_context_dtor(c);
}
/* {{{ rendering, in steps */
static struct {
    struct handlebars_context * c; struct handlebars_parser * p; struct handlebars_compiler * k; struct handlebars_vm * vm; struct handlebars_module * m; struct handlebars_ast_node * ast; struct handlebars_program * g;
    str * tmpl; struct handlebars_value in, hp, pa, da;
} R;
static void add_map(struct handlebars_value * dst, const hreq * rq, int partials)
{
    struct handlebars_context * c = R.c;
    int n = partials ? rq->npartials : rq->nhelpers;
    struct handlebars_map * m = handlebars_map_ctor(c, n);
    handlebars_map_addref(m);
    for (int i = 0; i < n; i++) {
        HANDLEBARS_VALUE_DECL(t);
        const char * name = partials ? rq->partials[i].name : rq->helpers[i].name;
        int fn = partials ? rq->partials[i].fn : rq->helpers[i].fn;
        if (fn) handlebars_value_helper(t, (handlebars_helper_func) hb_fn(fn));
        else if (rq->partials[i].text) handlebars_value_str(t, handlebars_string_ctor(c, rq->partials[i].text, rq->partials[i].len));
        m = handlebars_map_str_update(m, name, strlen(name), t);
        HANDLEBARS_VALUE_UNDECL(t);
    }
    handlebars_value_map(dst, m);
    handlebars_map_delref(m);
}
static void mk_front(const hreq * rq)
{
    R.p = handlebars_parser_ctor(R.c);
    R.k = handlebars_compiler_ctor(R.c);
    handlebars_compiler_set_flags(R.k, rq->flags);
    if (rq->nknown) {
        const char ** l = talloc_zero_array(R.c, const char *, rq->nknown + 16);
        int n = 0;
        for (const char ** p = handlebars_builtins_names(); *p; p++) l[n++] = *p;
        for (int i = 0; i < rq->nknown; i++) l[n++] = rq->known[i];
        handlebars_compiler_set_known_helpers(R.k, l);
    }
    R.tmpl = handlebars_string_ctor(R.c, rq->tmpl, rq->tlen);
    if (rq->flags & handlebars_compiler_flag_compat) R.tmpl = handlebars_preprocess_delimiters(R.c, R.tmpl, NULL, NULL);
}
static void mk_back(const hreq * rq)
{
    if (rq->ctxmode == HM_NATIVE) hb_build(R.c, &R.in, rq->ctx);
    else if (rq->ctxmode == HM_YAML) handlebars_value_init_yaml_string(R.c, &R.in, rq->ctxtext);
    else { handlebars_value_init_json_stringl(R.c, &R.in, rq->ctxtext, rq->ctxlen); if (rq->ctxmode == HM_JSON_CONVERT) handlebars_value_convert(&R.in); }
    add_map(&R.hp, rq, 0);
    add_map(&R.pa, rq, 1);
    R.vm = handlebars_vm_ctor(R.c);
    handlebars_vm_set_flags(R.vm, rq->flags);
    handlebars_vm_set_helpers(R.vm, &R.hp);
    handlebars_vm_set_partials(R.vm, &R.pa);
    if (rq->cache) handlebars_vm_set_cache(R.vm, rq->cache);
    if (rq->data) { hb_build(R.c, &R.da, rq->data); handlebars_vm_set_data(R.vm, &R.da); }
}
static void fresh(void) { R.p = NULL; R.k = NULL; R.vm = NULL; R.m = NULL; R.ast = NULL; R.g = NULL; handlebars_value_init(&R.in); handlebars_value_init(&R.hp); handlebars_value_init(&R.pa); handlebars_value_init(&R.da); }
static void result(hres * rs, str * out) { if (out) { rs->err = 0; set_out(rs, hbs_str_val(out), hbs_str_len(out)); } else set_err(R.c, rs, 2); }
static void everything(const hreq * rq, hres * rs, int kind)
{
    fresh();
    mk_front(rq);
    if (kind == OK_PRINT) {
        set_out(rs, "", 0);
        struct handlebars_token ** l = handlebars_lex_ex(R.p, R.tmpl);
        for (; l && *l; l++) addh(rs, handlebars_token_print(R.c, *l, 0));
        R.p = handlebars_parser_ctor(R.c);
    }
    R.ast = handlebars_parse_ex(R.p, R.tmpl, rq->flags);
    if (kind == OK_PRINT) { addh(rs, handlebars_ast_print(R.c, R.ast)); addh(rs, handlebars_ast_to_string(R.c, R.ast)); }
    R.g = handlebars_compiler_compile_ex(R.k, R.ast);
    if (kind == OK_PRINT) addh(rs, handlebars_program_print(R.c, R.g, 0));
    R.m = handlebars_program_serialize(R.c, R.g);
    if (kind == OK_PRINT) { (void) !handlebars_module_print(R.c, R.m); R.m->ts = 0; handlebars_module_normalize_pointers(R.m, NULL); handlebars_module_generate_hash(R.m); adds(rs, (char *) R.m, handlebars_module_get_size(R.m)); rs->err = 0; return; }
    mk_back(rq);
    result(rs, handlebars_vm_execute(R.vm, R.m, &R.in));
}
static void run_render(const oreq * q, int mode, long at, long at2, ores * r)
{
    jmp_buf jmp; const hreq * rq = &q->rq; const int kind = q->kind;
    volatile int stage = 0;
    memset(&R, 0, sizeof R);
    if (kind == OK_RENDER || kind == OK_PRINT) oom_arm(mode, at, at2);
    struct handlebars_context * c = R.c = handlebars_context_ctor();
    if (!c) {
        r->calls = oom_disarm(); r->failed = oom_failed;
        r->first.err = HANDLEBARS_NOMEM; strcpy(r->first.msg, "no context");
        c = R.c = handlebars_context_ctor();
        stage = 1;
    }
    if (handlebars_setjmp_ex(c, &jmp)) {
        if (stage == 0) { r->calls = oom_disarm(); r->failed = oom_failed; set_err(c, &r->first, 2); stage = 1; }
        else { set_err(c, &r->again, 2); goto done; }
    } else if (stage == 0) {
        if (kind == OK_RENDER || kind == OK_PRINT) everything(rq, &r->first, kind);
        else {
            fresh();
            mk_front(rq);
            jmp_buf * keep = c->e->jmp;
#define CALL(k) if (kind == k) { c->e->jmp = NULL; oom_arm(mode, at, at2); }
#define DONE(k) if (kind == k) { r->calls = oom_disarm(); r->failed = oom_failed; c->e->jmp = keep; if (handlebars_error_num(c)) { set_err(c, &r->first, 0); goto second; } }
            CALL(OK_PARSE) R.ast = handlebars_parse_ex(R.p, R.tmpl, rq->flags); DONE(OK_PARSE)
            if (!R.ast) { set_err(c, &r->first, 0); goto second; }
            CALL(OK_COMPILE) R.g = handlebars_compiler_compile_ex(R.k, R.ast); DONE(OK_COMPILE)
            R.m = handlebars_program_serialize(c, R.g);
            mk_back(rq);
            hb_calls = 0;
            if (kind == OK_EXECJ) oom_arm(mode, at, at2);
            CALL(OK_EXEC) str * volatile out = handlebars_vm_execute(R.vm, R.m, &R.in); DONE(OK_EXEC)
            if (kind == OK_EXECJ) { r->calls = oom_disarm(); r->failed = oom_failed; }
            result(&r->first, out);
        }
        if (kind == OK_RENDER || kind == OK_PRINT) { r->calls = oom_disarm(); r->failed = oom_failed; }
        goto second;
    }
second:
    stage = 1;
    if (r->first.err) {
        if (handlebars_setjmp_ex(c, &jmp)) { set_err(c, &r->again, 2); goto done; }
        hb_calls = 0;
        if (R.vm && R.m && (kind == OK_EXEC || kind == OK_EXECJ)) result(&r->again, handlebars_vm_execute(R.vm, R.m, &R.in));   /* the same renderer */
        else everything(rq, &r->again, kind);
    }
done:
    oom_disarm();
    handlebars_context_dtor(c);
}
/* }}} */
void oo_run(const oreq * q, int mode, long at, long at2, ores * r)
{
    r->first.err = r->again.err = r->before.err = r->after.err = 0;
    r->first.outlen = r->again.outlen = r->before.outlen = r->after.outlen = 0;
    r->first.msg[0] = r->again.msg[0] = 0;
    r->calls = r->failed = 0;
    if (!r->first.out) { set_out(&r->first, "", 0); set_out(&r->again, "", 0); set_out(&r->before, "", 0); set_out(&r->after, "", 0); }
    hb_calls = 0;
    if (q->rq.cache) abort();
    long b = bytes();
    if (q->kind == OK_OP) op_run(q, mode, at, at2, r); else run_render(q, mode, at, at2, r);
    r->leak = bytes() - b;
    /* results live in buffers that only grow: not counted when they grew */
}
