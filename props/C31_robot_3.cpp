#define PART 3
#include "C31_robot.h"
