#define PART 1
#include "C16_riccati.h"
