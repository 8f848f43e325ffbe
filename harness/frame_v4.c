/* link: alloc.o rpmalloc.o log.o str.o flags: -march=x86-64-v4 */
#define NEED "avx512f"
#include "frame.c"
#include "frame_main.h"
