/* Fewer array handles than the 32768 of the shipped configuration: every simulated process would
   otherwise touch 35 MB while it starts. The handle offset shrinks with it because the sparse
   array table uses index 2*GA_OFFSET-1 as "none". */
#include "config.h"
#include "gaconfig.h"
#undef MAX_ARRAYS
#define MAX_ARRAYS 600
#include "globalp.h"
#undef GA_OFFSET
#define GA_OFFSET 250
