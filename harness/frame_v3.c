/* link: alloc.o rpmalloc.o log.o str.o flags: -march=x86-64-v3 */
#define NEED "avx2"
#include "frame.c"
#include "frame_main.h"
