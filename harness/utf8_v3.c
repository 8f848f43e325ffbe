/* link: none flags: -march=x86-64-v3 */
#include "utf8_main.h"
