#define PART 1
#include "C27_rbd.h"
