#define PART 2
#include "C24_dms.h"
