#define PART 1
#include "C31_robot.h"
