#define LOOKUP
#include "c14_parse.c"
