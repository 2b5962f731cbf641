/* zpl's implementation in a translation unit of its own, so that it can be compiled with scheduling points
   (-fsanitize=thread -finstrument-functions) while the harness and the scheduler are not. */
#define ZPL_IMPLEMENTATION
#include "zpl.h"
