#define PART 1
#include "C23_mpc.h"
