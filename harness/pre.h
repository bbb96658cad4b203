// Included before everything in every harness compilation.
#ifndef MC_PRE_H
#define MC_PRE_H
#ifndef __ASSEMBLER__
#include <sys/types.h>
#endif
void mcrt_pause(void);
#endif
