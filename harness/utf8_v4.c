/* link: none flags: -march=x86-64-v4 -mavx512vbmi */
#define NEED "avx512vbmi"
#include "utf8_main.h"
