#define PART 1
#include "C22_reconfigure.h"
