/* Plain C interface to the library's containers. Every call is guarded: errors come back as a number. */
#ifndef OBJSHIM_H
#define OBJSHIM_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
struct handlebars_context; struct handlebars_map; struct handlebars_stack; struct handlebars_value; struct handlebars_string;
extern struct handlebars_context * os_ctx;
extern char os_msg[512];
void os_reset(void);                       /* new context */
long os_live(const char * kind);           /* objects of this kind alive: "map", "stack", "string", "value", "user" */
void os_end(void);
/* canonical image of a talloc block: pointers into itself, the context and registered pointers by number */
void os_known_clear(void);
void os_known(const void * p, uint64_t id);
uint64_t os_image(const void * block, uint64_t h);

/* maps. Keys and values are numbered. */
void mo_setup(const char ** keys, int nkeys);
enum { MO_ADD, MO_UPDATE, MO_REMOVE, MO_STR_ADD, MO_STR_UPDATE, MO_STR_REMOVE, MO_UPDATE_OWN_VALUE /* b: key whose value it gets */, MO_UPDATE_OWN_KEY, MO_ADD_OWN_VALUE, MO_REMOVE_OWN_KEY,
       MO_REHASH, MO_COMPACT, MO_SORT, MO_SORT_R };
typedef struct { int n; int key[64], val[64]; size_t idx[64]; int err; } mo_seq;
struct handlebars_map * mo_new(int cap);
int mo_op(struct handlebars_map ** m, int op, int a, int b);             /* 0 done, else error */
/* iterate *m; at position at apply op; records what was yielded. at -1: op applied at every entry to that entry's key if its value is b2 (or any if b2 < 0) */
int mo_iter(struct handlebars_map ** m, int at, int op, int a, int b, int only, mo_seq * out);
void mo_iter_value(struct handlebars_map * m, mo_seq * out);             /* through the value iterator */
/* through the value iterator on a value, the value being updated inside */
int mo_iter_value_update(struct handlebars_map ** m, int at, int k, int v, mo_seq * out);
void mo_nested(struct handlebars_map * m, int outerkind, int innerkind, mo_seq * outer, mo_seq * inner, int * ninner);
int mo_find(struct handlebars_map * m, int k, int str);                  /* value number, or -1, or -2 for a value that is not one of ours */
size_t mo_count(struct handlebars_map * m);
int mo_load(struct handlebars_map * m); int mo_sparse(struct handlebars_map * m); size_t mo_slots(struct handlebars_map * m);
int mo_at(struct handlebars_map * m, size_t i, int * key, int * val);    /* 0 ok, else error; key -1 for a hole */
struct handlebars_map * mo_copy(struct handlebars_map * m, int cap);
void mo_ref(struct handlebars_map * m); void mo_unref(struct handlebars_map * m);
uint32_t mo_hash(const char * s, size_t n);
uint64_t mo_print(struct handlebars_map * m, uint64_t h);

/* stacks. Values: 2 a string, 3 a map, 4 a safe string, others integers */
enum { SO_PUSH, SO_POP, SO_SET, SO_TRUNCATE, SO_PROTECT, SO_SAVE, SO_RESTORE, SO_PUSH_OWN, SO_SET_OWN, SO_VALUE_PUSH, SO_VALUE_SET, SO_VALUE_PUSH_OWN };
typedef struct { size_t count, protect; } so_buf;
void so_setup(void);
struct handlebars_stack * so_new(int cap, int fixed, void * mem);
size_t so_size(int cap);
int so_op(struct handlebars_stack ** s, int op, size_t a, int b, so_buf * buf, long * result);  /* 0 done, else error; result: what pop gave (-1 nothing), the old protection */
size_t so_count(struct handlebars_stack * s);
int so_get(struct handlebars_stack * s, size_t i);   /* -1 nothing */
int so_top(struct handlebars_stack * s);
void so_iter(struct handlebars_stack * s, mo_seq * out);
void so_iter_push(struct handlebars_stack ** s, int at, int v, mo_seq * out);   /* through a value that is pushed to inside the loop */
int so_find(struct handlebars_stack * s, size_t i);  /* through a value */
struct handlebars_stack * so_copy(struct handlebars_stack * s, int cap);
void so_ref(struct handlebars_stack * s); void so_unref(struct handlebars_stack * s);
void so_dtor(struct handlebars_stack * s);
uint64_t so_print(struct handlebars_stack * s, uint64_t h);
#ifdef __cplusplus
}
#endif
#endif
