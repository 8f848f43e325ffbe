/* link: none flags: -march=x86-64-v2 */
#include "utf8_main.h"
