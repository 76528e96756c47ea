#define PART 4
#include "C31_robot.h"
