#define PART 2
#include "C22_reconfigure.h"
