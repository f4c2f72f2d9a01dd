/* C11: mode_parse() against the contracts of its helpers */
#define CALLER
#include "c12_parse.c"
