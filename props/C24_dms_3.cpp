#define PART 3
#include "C24_dms.h"
