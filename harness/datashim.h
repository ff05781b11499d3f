/* Decodes a text and writes down what a caller can see of the value, by every way of looking. */
#ifndef DATASHIM_H
#define DATASHIM_H
#include <stddef.h>
#include "hbshim.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int err; char msg[512]; char * out; size_t len, cap; char bad[256]; } dres;
/* mode: HM_NATIVE: v; otherwise the text */
void dv_dump(int mode, const hv * v, const char * text, size_t len, dres * r);
/* what json-c and libyaml say about a text: 1 a document, 0 not; for YAML, its value in the same form (root == 0: none; -1: cyclic or a key that is no scalar) */
int dv_json(const char * text, size_t len);
int dv_yaml(const char * text, size_t len, dres * r);
/* containers nested this deep, followed inwards by array index or key */
int dv_depth(int mode, const char * text, size_t len, dres * r);
#ifdef __cplusplus
}
#endif
#endif
