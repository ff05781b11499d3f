/* Many calls on one context and one renderer. */
#ifndef SEQSHIM_H
#define SEQSHIM_H
#include "hbshim.h"
#ifdef __cplusplus
extern "C" {
#endif
enum { SQ_RET,      /* no handler: errors by return value */
       SQ_JMP };    /* the caller has a handler */
enum { SC_NONE, SC_SIMPLE, SC_MMAP };
/* the renderer gets base's flags, helpers, partials, known helpers and data; the memory they need is the session's own */
void sq_open(const hreq * base, int cache);
/* template, context and flags of rq; without a template: the last module again. What is wrong with what is left behind: in bad */
void sq_step(const hreq * rq, int how, hres * rs, char * bad, size_t nbad);
void sq_close(void);
#ifdef __cplusplus
}
#endif
#endif
