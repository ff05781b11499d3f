#ifndef THRSHIM_H
#define THRSHIM_H
#include "hbshim.h"
#ifdef __cplusplus
extern "C" {
#endif
void th_reuse(const hreq * rq, unsigned long other, char * msg, size_t n);
int th_place(void * at, struct handlebars_context * c);
void th_points(void (* f)(void));
#ifdef __cplusplus
}
#endif
#endif
