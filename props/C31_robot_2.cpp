#define PART 2
#include "C31_robot.h"
