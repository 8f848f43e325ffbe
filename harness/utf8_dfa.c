/* link: none flags: -march=x86-64 */
#include <stdbool.h>
#include <x86intrin.h>
/* after the header, which restores them */
#undef __SSE2__
#undef __AVX2__
#undef __AVX__
#include "utf8_main.h"
