#define PART 5
#include "C27_rbd.h"
