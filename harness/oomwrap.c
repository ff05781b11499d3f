#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <sys/mman.h>
#include <talloc.h>
#include <json-c/json.h>
#include <yaml.h>
#include "oomwrap.h"
static int armed, mode, held; static long seen, at, at2; long oom_failed;
void oom_arm(int m, long a, long b) { mode = m; at = a; at2 = b; seen = 0; oom_failed = 0; armed = 1; held = 0; }
void hb_hold(int on) { held = on; }
long oom_disarm(void) { armed = 0; return seen; }
static int hit(void)
{
    if (!armed || held) return 0;
    seen++;
    if (!at || !(mode == OOM_FROM ? seen >= at : seen == at || (mode == OOM_TWO && seen == at2))) return 0;
    oom_failed++;
    errno = ENOMEM;
    return 1;
}
#define W(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { if (hit()) return NULL; return __real_##name args; }
W(void *, _talloc_array, (const void * c, size_t s, unsigned n, const char * t), (c, s, n, t))
W(void *, _talloc_zero, (const void * c, size_t s, const char * t), (c, s, t))
W(void *, talloc_named_const, (const void * c, size_t s, const char * t), (c, s, t))
W(char *, talloc_strdup, (const void * t, const char * p), (t, p))
W(char *, talloc_strdup_append, (char * s, const char * a), (s, a))
W(char *, talloc_strdup_append_buffer, (char * s, const char * a), (s, a))
W(char *, talloc_strndup, (const void * t, const char * p, size_t n), (t, p, n))
W(char *, talloc_strndup_append_buffer, (char * s, const char * a, size_t n), (s, a, n))
W(char *, talloc_vasprintf, (const void * t, const char * f, va_list ap), (t, f, ap))
W(char *, talloc_vasprintf_append, (char * t, const char * f, va_list ap), (t, f, ap))
W(char *, talloc_vasprintf_append_buffer, (char * t, const char * f, va_list ap), (t, f, ap))
W(void *, malloc, (size_t n), (n))
W(void *, calloc, (size_t n, size_t s), (n, s))
void * __real__talloc_realloc_array(const void * c, void * p, size_t s, unsigned n, const char * t);
void * __wrap__talloc_realloc_array(const void * c, void * p, size_t s, unsigned n, const char * t) { if (n && s && hit()) return NULL; return __real__talloc_realloc_array(c, p, s, n, t); }
void * __real_realloc(void * p, size_t n);
void * __wrap_realloc(void * p, size_t n) { if (n && hit()) return NULL; return __real_realloc(p, n); }
#define V(name, real, type) char * __wrap_##name(type t, const char * f, ...) { va_list ap; char * r; if (hit()) return NULL; va_start(ap, f); r = real(t, f, ap); va_end(ap); return r; }
V(talloc_asprintf, __real_talloc_vasprintf, const void *)
V(talloc_asprintf_append, __real_talloc_vasprintf_append, char *)
V(talloc_asprintf_append_buffer, __real_talloc_vasprintf_append_buffer, char *)
void * __real_mmap(void * a, size_t n, int p, int f, int d, off_t o);
void * __wrap_mmap(void * a, size_t n, int p, int f, int d, off_t o) { if (hit()) return MAP_FAILED; return __real_mmap(a, n, p, f, d, o); }
/* libraries that allocate on their own: their entry points fail as they do without memory */
W(struct json_tokener *, json_tokener_new, (void), ())
struct json_object * __real_json_tokener_parse_ex(struct json_tokener * t, const char * s, int n);
struct json_object * __wrap_json_tokener_parse_ex(struct json_tokener * t, const char * s, int n) { if (hit()) { t->err = json_tokener_error_memory; return NULL; } return __real_json_tokener_parse_ex(t, s, n); }
enum json_tokener_error __real_json_tokener_get_error(struct json_tokener * t);
enum json_tokener_error __wrap_json_tokener_get_error(struct json_tokener * t) { return t->err; }
int __real_yaml_parser_initialize(yaml_parser_t * p);
int __wrap_yaml_parser_initialize(yaml_parser_t * p) { if (hit()) { memset(p, 0, sizeof *p); p->error = YAML_MEMORY_ERROR; return 0; } return __real_yaml_parser_initialize(p); }
int __real_yaml_parser_load(yaml_parser_t * p, yaml_document_t * d);
int __wrap_yaml_parser_load(yaml_parser_t * p, yaml_document_t * d) { if (hit()) { memset(d, 0, sizeof *d); p->error = YAML_MEMORY_ERROR; return 0; } return __real_yaml_parser_load(p, d); }
