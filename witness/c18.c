#define W 18
#include "nick.h"
