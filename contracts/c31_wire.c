#define WIRE
#include "c31_buffer.c"
