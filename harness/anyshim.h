/* Any text through every stage; what it wrote comes back in one string. */
#ifndef ANYSHIM_H
#define ANYSHIM_H
#include "hbshim.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { hres r[8]; int ran; } ares; /* 0 tokens, 1 delimiters, 2 tree, 3 source, 4 program, 5 module, 6 rendering, 7 rendering again */
/* as: 0 the text is the template, 1 a partial it calls, 2 its section's text by a lambda */
void an_run(const hreq * rq, int as, ares * a);
long an_blocks(void); /* pieces of memory in use */
#ifdef __cplusplus
}
#endif
#endif
