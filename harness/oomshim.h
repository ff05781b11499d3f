/* Operations run with chosen allocations failing, on objects that outlive them. */
#ifndef OOMSHIM_H
#define OOMSHIM_H
#include "hbshim.h"
#include "oomwrap.h"
#ifdef __cplusplus
extern "C" {
#endif
enum { OK_RENDER,   /* everything from creating the context, one handler around it */
       OK_PARSE, OK_COMPILE, OK_EXEC,   /* the call alone, errors by return value */
       OK_EXECJ,    /* the call alone under a handler */
       OK_PRINT,    /* lexing and every printer */
       OK_OP };     /* an operation on containers, strings, values, caches, decoders */
typedef struct { int kind; hreq rq; int op; int backend; const char * dir; } oreq;
typedef struct { hres first; hres again; hres before, after; /* OK_OP: what the objects look like */ long calls, failed; long leak; } ores;
int oo_count(void); const char * oo_name(int op);
void oo_run(const oreq * q, int mode, long at, long at2, ores * r);
#ifdef __cplusplus
}
#endif
#endif
