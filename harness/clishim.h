/* What the library itself gives for what the command line tool was asked. */
#ifndef CLISHIM_H
#define CLISHIM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { CM_EXECUTE, CM_LEX, CM_PARSE, CM_COMPILE, CM_MODULE };
enum { CD_NONE, CD_JSON, CD_YAML };
typedef struct { int mode; const char * tmpl; size_t tlen; unsigned long flags; int kind; const char * data; size_t dlen; int convert; const char * dir, * ext; int newline; } clreq;
typedef struct { int ok; char msg[1024]; char * out; size_t len; } clres;
void cl_run(const clreq * q, clres * r);
#ifdef __cplusplus
}
#endif
#endif
