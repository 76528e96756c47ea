#define PART 5
#include "C16_riccati.h"
