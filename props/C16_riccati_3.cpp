#define PART 3
#include "C16_riccati.h"
