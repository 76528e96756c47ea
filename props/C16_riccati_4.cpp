#define PART 4
#include "C16_riccati.h"
