#define W 30
#include "nick.h"
