/* Failing allocations, chosen by number. Linked with --wrap for every allocating function the library calls. */
#ifndef OOMWRAP_H
#define OOMWRAP_H
#ifdef __cplusplus
extern "C" {
#endif
enum { OOM_ONE, OOM_FROM, OOM_TWO };
void oom_arm(int mode, long at, long at2);   /* at: number of the first one to fail, from 1; 0: none */
long oom_disarm(void);                       /* allocations seen since */
extern long oom_failed;                      /* of which failed */
#ifdef __cplusplus
}
#endif
#endif
