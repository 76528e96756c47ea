#define PART 4
#include "C27_rbd.h"
