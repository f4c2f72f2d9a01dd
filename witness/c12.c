/* C12 replay: as C11, mostly ops and voices */
#define ONLY_OV
#include "c11.c"
