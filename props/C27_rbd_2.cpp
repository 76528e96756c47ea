#define PART 2
#include "C27_rbd.h"
