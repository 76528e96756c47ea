#define PART 2
#include "C16_riccati.h"
