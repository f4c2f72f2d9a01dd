#define CALLERS
#include "c17_list.c"
