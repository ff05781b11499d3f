/* The directory partial loader. */
#ifndef PLDSHIM_H
#define PLDSHIM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int err; char msg[512]; char out[65536 * 4]; size_t len; int found; } plres;
void pl_open(const char * dir, const char * ext);
void pl_find(const char * name, size_t len, int copy, plres * rs);       /* copy: through a copy of the loader's value */
/* every entry: key, value separated by \1 and \2; while at entry number at: look up name */
void pl_iter(int at, const char * name, size_t len, plres * rs);
long pl_count(void);
int pl_type(void);
void pl_render(const char * tmpl, size_t len, int again, plres * rs);    /* again: with a new renderer */
long pl_blocks(void);                                                    /* talloc blocks of the context */
void pl_close(void);
#ifdef __cplusplus
}
#endif
#endif
