#define PART 6
#include "C27_rbd.h"
