/* link: alloc.o rpmalloc.o log.o str.o flags: -march=x86-64 */
#include <x86intrin.h>
/* after the header, which restores them */
#undef __SSE2__
#undef __AVX2__
#undef __AVX__
#include "frame.c"
#include "frame_main.h"
