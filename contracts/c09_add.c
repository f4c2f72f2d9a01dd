#define ADD
#include "c09_channel.c"
