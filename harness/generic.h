/* The branch of the atomics for CPUs other than x86 (compiler intrinsics), on its own. */
#include "zpl.h"
#undef ZPL_CPU_X86
#include "source/threading/fence.c"
#include "source/threading/atomic.c"
