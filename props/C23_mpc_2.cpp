#define PART 2
#include "C23_mpc.h"
