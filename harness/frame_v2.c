/* link: alloc.o rpmalloc.o log.o str.o flags: -march=x86-64 */
#include "frame.c"
#include "frame_main.h"
