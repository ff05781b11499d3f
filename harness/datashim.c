#define HANDLEBARS_VALUE_PRIVATE
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <talloc.h>
#include <json-c/json.h>
#include <yaml.h>
#include "handlebars.h"
#include "handlebars_memory.h"
#include "handlebars_private.h"
#include "handlebars_value_private.h"
#include "handlebars_json.h"
#include "handlebars_map.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_value.h"
#include "handlebars_yaml.h"
#include "datashim.h"
static void put(dres * r, const char * p, size_t n)
{
    if (r->len + n + 1 > r->cap) r->out = realloc(r->out, r->cap = (r->len + n) * 2 + 256);
    memcpy(r->out + r->len, p, n); r->len += n;
}
static void str(dres * r, const char * p, size_t n) { char b[32]; put(r, b, snprintf(b, sizeof b, "s%zu:", n)); put(r, p, n); }
#define BAD(...) do { if (!r->bad[0]) snprintf(r->bad, sizeof r->bad, __VA_ARGS__); } while (0)
static void dump(struct handlebars_context * c, struct handlebars_value * v, dres * r)
{
    char b[64];
    long n, i;
    switch (handlebars_value_get_type(v)) {
        case HANDLEBARS_VALUE_TYPE_NULL: put(r, "n", 1); break;
        case HANDLEBARS_VALUE_TYPE_TRUE: put(r, "T", 1); if (!handlebars_value_get_boolval(v)) BAD("true is false"); break;
        case HANDLEBARS_VALUE_TYPE_FALSE: put(r, "F", 1); if (handlebars_value_get_boolval(v)) BAD("false is true"); break;
        case HANDLEBARS_VALUE_TYPE_INTEGER: put(r, b, snprintf(b, sizeof b, "i%ld", handlebars_value_get_intval(v))); break;
        case HANDLEBARS_VALUE_TYPE_FLOAT: put(r, b, snprintf(b, sizeof b, "d%.17g", handlebars_value_get_floatval(v))); break;
        case HANDLEBARS_VALUE_TYPE_STRING: str(r, handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); break;
        case HANDLEBARS_VALUE_TYPE_ARRAY: {
            put(r, "[", 1);
            n = handlebars_value_count(v); i = 0;
            HANDLEBARS_VALUE_ITERATOR_DECL(it);
            size_t at = r->len;
            if (handlebars_value_iterator_init(it, v)) do { if (it->index != (size_t) i) BAD("index %zu instead of %ld", it->index, i); dump(c, it->cur, r); put(r, ",", 1); i++; } while (handlebars_value_iterator_next(it));
            if (i != n) BAD("count is %ld, iterating yields %ld", n, i);
            /* the same by index */
            size_t end = r->len;
            struct handlebars_value rv; handlebars_value_init(&rv);
            for (long j = 0; j < i; j++) { struct handlebars_value * x = handlebars_value_array_find(v, j, &rv); if (!x) { BAD("no element %ld", j); break; } dump(c, x, r); put(r, ",", 1); }
            if (r->len - end != end - at || memcmp(r->out + at, r->out + end, end - at)) BAD("elements by index differ from those iterated");
            r->len = end;
            if (handlebars_value_array_find(v, i, &rv)) BAD("there is an element %ld", i);
            if (handlebars_value_array_find(v, (size_t) 1 << 32, &rv) || handlebars_value_array_find(v, (size_t) -1, &rv)) BAD("there is an element far beyond");
            handlebars_value_dtor(&rv);
            if (handlebars_value_is_empty(v) != (n == 0)) BAD("is_empty");
            put(r, "]", 1);
            break;
        }
        case HANDLEBARS_VALUE_TYPE_MAP: {
            put(r, "{", 1);
            n = handlebars_value_count(v); i = 0;
            struct handlebars_value rv; handlebars_value_init(&rv);
            HANDLEBARS_VALUE_ITERATOR_DECL(it);
            if (handlebars_value_iterator_init(it, v)) do {
                str(r, hbs_str_val(it->key), hbs_str_len(it->key)); put(r, "=", 1);
                if (it->index != (size_t) i) BAD("index %zu instead of %ld", it->index, i);
                size_t at = r->len;
                dump(c, it->cur, r);
                size_t end = r->len;
                struct handlebars_value * x = handlebars_value_map_find(v, it->key, &rv);
                if (!x) BAD("key %s is not found", hbs_str_val(it->key));
                else { dump(c, x, r); if (r->len - end != end - at || memcmp(r->out + at, r->out + end, end - at)) BAD("found and iterated values differ"); r->len = end; }
                put(r, ",", 1); i++;
            } while (handlebars_value_iterator_next(it));
            if (i != n) BAD("count is %ld, iterating yields %ld", n, i);
            handlebars_value_dtor(&rv); handlebars_value_init(&rv);
            if (handlebars_value_map_str_find(v, HBS_STRL("no such key"), &rv)) BAD("a key that is not there was found");
            handlebars_value_dtor(&rv);
            if (handlebars_value_is_empty(v) != (n == 0)) BAD("is_empty");
            put(r, "}", 1);
            break;
        }
        default: put(r, "?", 1); BAD("type %d", handlebars_value_get_type(v));
    }
}
static int decode(struct handlebars_context * c, struct handlebars_value * v, int mode, const hv * h, const char * text, size_t len)
{
    if (mode == HM_NATIVE) hb_build(c, v, h);
    else if (mode == HM_YAML) { char * z = talloc_size(c, len + 1); memcpy(z, text, len); z[len] = 0; handlebars_value_init_yaml_string(c, v, z); }
    else {
        char * z = malloc(len ? len : 1); memcpy(z, text, len);       /* nothing follows the text */
        jmp_buf j, * old = c->e->jmp;
        if (setjmp(j)) { free(z); c->e->jmp = old; longjmp(*old, 1); }
        c->e->jmp = &j;
        handlebars_value_init_json_stringl(c, v, z, len);
        c->e->jmp = old;
        free(z);
        if (mode == HM_JSON_CONVERT) handlebars_value_convert(v);
    }
    return 0;
}
void dv_dump(int mode, const hv * h, const char * text, size_t len, dres * r)
{
    jmp_buf j;
    struct handlebars_context * c = handlebars_context_ctor();
    r->err = 0; r->msg[0] = 0; r->len = 0; r->bad[0] = 0;
    if (setjmp(j)) { r->err = handlebars_error_num(c); const char * m = handlebars_error_msg(c); snprintf(r->msg, sizeof r->msg, "%s", m ? m : ""); c->e->jmp = NULL; handlebars_context_dtor(c); return; }
    c->e->jmp = &j;
    struct handlebars_value v; handlebars_value_init(&v);
    /* a value that was something else before */
    handlebars_value_str(&v, handlebars_string_ctor(c, HBS_STRL("before")));
    decode(c, &v, mode, h, text, len);
    dump(c, &v, r);
    if (r->len && r->out[0] == '?') BAD("no value");
    handlebars_value_dtor(&v);
    c->e->jmp = NULL;
    handlebars_context_dtor(c);
}
int dv_depth(int mode, const char * text, size_t len, dres * r)
{
    jmp_buf j; int depth = 0;
    struct handlebars_context * c = handlebars_context_ctor();
    r->err = 0; r->msg[0] = 0; r->bad[0] = 0;
    if (setjmp(j)) { r->err = handlebars_error_num(c); const char * m = handlebars_error_msg(c); snprintf(r->msg, sizeof r->msg, "%s", m ? m : ""); c->e->jmp = NULL; handlebars_context_dtor(c); return -1; }
    c->e->jmp = &j;
    struct handlebars_value v[2]; handlebars_value_init(v); handlebars_value_init(v + 1);
    decode(c, v, mode, NULL, text, len);
    int a = 0;
    for (;; depth++, a = !a) {
        enum handlebars_value_type t = handlebars_value_get_type(v + a);
        struct handlebars_value * x = t == HANDLEBARS_VALUE_TYPE_ARRAY ? handlebars_value_array_find(v + a, 0, v + !a) : t == HANDLEBARS_VALUE_TYPE_MAP ? handlebars_value_map_str_find(v + a, HBS_STRL("a"), v + !a) : NULL;
        if (!x) { if (t == HANDLEBARS_VALUE_TYPE_ARRAY || t == HANDLEBARS_VALUE_TYPE_MAP) depth++; break; }
    }
    handlebars_value_dtor(v); handlebars_value_dtor(v + 1);
    c->e->jmp = NULL;
    handlebars_context_dtor(c);
    return depth;
}
int dv_json(const char * text, size_t len)
{
    struct json_tokener * t = json_tokener_new();
    struct json_object * o = json_tokener_parse_ex(t, text, len);
    int ok = json_tokener_get_error(t) == json_tokener_success;
    size_t end = json_tokener_get_parse_end(t);
    if (json_tokener_get_error(t) == json_tokener_continue && len) {
        /* a number or word at the end of the text: complete if a blank follows */
        json_object_put(o); json_tokener_reset(t);
        char * z = malloc(len + 1); memcpy(z, text, len); z[len] = ' ';
        o = json_tokener_parse_ex(t, z, len + 1);
        ok = json_tokener_get_error(t) == json_tokener_success;
        end = json_tokener_get_parse_end(t); if (end > len) end = len;
        if (!ok) { z[len] = 0; json_object_put(o); json_tokener_reset(t); o = json_tokener_parse_ex(t, z, len + 1); if ((ok = json_tokener_get_error(t) == json_tokener_success)) end = len; }
        free(z);
    }
    json_object_put(o);
    json_tokener_free(t);
    for (; ok && end < len; end++) if (!strchr(" \t\n\r", text[end]) || !text[end]) ok = 0;
    return ok;
}
/* plain scalars by the core schema as far as it is supported */
static int isint(const char * s, size_t n) { size_t i = *s == '-' || *s == '+'; if (i == n) return 0; for (; i < n; i++) if (!isdigit((unsigned char) s[i])) return 0; return 1; }
static int isflt(const char * s, size_t n)
{
    size_t i = *s == '-' || *s == '+', d = 0;
    while (i < n && isdigit((unsigned char) s[i])) i++, d++;
    if (i < n && s[i] == '.') { i++; while (i < n && isdigit((unsigned char) s[i])) i++, d++; }
    if (!d) return 0;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '-' || s[i] == '+')) i++; d = 0; while (i < n && isdigit((unsigned char) s[i])) i++, d++; if (!d) return 0; }
    return i == n;
}
static int node(yaml_document_t * d, yaml_node_t * x, dres * r, int depth)
{
    char b[64];
    if (depth > 3000) return -1;
    if (x->type == YAML_SCALAR_NODE) {
        const char * s = (const char *) x->data.scalar.value; size_t n = x->data.scalar.length;
        int plain = x->data.scalar.style == YAML_PLAIN_SCALAR_STYLE;
        const char * tag = (const char *) x->tag;
        if (tag && strcmp(tag, YAML_STR_TAG) && strcmp(tag, "!")) return -2;     /* other tags: not specified here */
        /* libyaml gives every untagged scalar the tag of strings */
#define IS(w) (n == strlen(w) && !memcmp(s, w, n))
        if (plain && (IS("null") || IS("~") || IS(""))) put(r, "n", 1);
        else if (plain && IS("true")) put(r, "T", 1);
        else if (plain && IS("false")) put(r, "F", 1);
        else if (plain && (IS("Null") || IS("NULL") || IS("True") || IS("TRUE") || IS("False") || IS("FALSE") || (n > 2 && (s[0] == '-' || s[0] == '+') && s[1] == '0' && strchr("xobXOB", s[2])) || (n > 1 && s[0] == '0' && strchr("xobXOB", s[1])))) return -2;
        else if (plain && isint(s, n)) { errno = 0; long l = strtol(s, NULL, 10); if (errno) return -2; put(r, b, snprintf(b, sizeof b, "i%ld", l)); }
        else if (plain && isflt(s, n)) put(r, b, snprintf(b, sizeof b, "d%.17g", strtod(s, NULL)));
        else str(r, s, n);
    } else if (x->type == YAML_SEQUENCE_NODE) {
        put(r, "[", 1);
        for (yaml_node_item_t * i = x->data.sequence.items.start; i < x->data.sequence.items.top; i++) { int e = node(d, yaml_document_get_node(d, *i), r, depth + 1); if (e) return e; put(r, ",", 1); }
        put(r, "]", 1);
    } else if (x->type == YAML_MAPPING_NODE) {
        yaml_node_pair_t * s = x->data.mapping.pairs.start, * t = x->data.mapping.pairs.top;
        put(r, "{", 1);
        for (yaml_node_pair_t * p = s; p < t; p++) if (yaml_document_get_node(d, p->key)->type != YAML_SCALAR_NODE) return -1;
        for (yaml_node_pair_t * p = s; p < t; p++) {
            yaml_node_t * k = yaml_document_get_node(d, p->key), * v = yaml_document_get_node(d, p->value);
            for (yaml_node_pair_t * q = s; q < t; q++) if (q != p) { yaml_node_t * o = yaml_document_get_node(d, q->key); if (o->data.scalar.length == k->data.scalar.length && !memcmp(o->data.scalar.value, k->data.scalar.value, k->data.scalar.length)) return -2; }
            str(r, (const char *) k->data.scalar.value, k->data.scalar.length); put(r, "=", 1);
            int e = node(d, v, r, depth + 1); if (e) return e;
            put(r, ",", 1);
        }
        put(r, "}", 1);
    } else return -2;
    return 0;
}
int dv_yaml(const char * text, size_t len, dres * r)
{
    yaml_parser_t p; yaml_document_t d;
    r->len = 0;
    yaml_parser_initialize(&p);
    yaml_parser_set_input_string(&p, (const unsigned char *) text, len);
    int ok = yaml_parser_load(&p, &d), res = 0;
    if (ok) {
        yaml_node_t * root = yaml_document_get_root_node(&d);
        if (root) { int e = node(&d, root, r, 0); res = e == 0 ? 1 : e; }
        yaml_document_delete(&d);
    }
    yaml_parser_delete(&p);
    return res;
}
