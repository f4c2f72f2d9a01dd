#define VALID
#include "c30_nick.c"
