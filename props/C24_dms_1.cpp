#define PART 1
#include "C24_dms.h"
