#define W 2
#include "nick.h"
