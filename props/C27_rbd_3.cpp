#define PART 3
#include "C27_rbd.h"
