#define ONLY 1
#include "c14.c"
