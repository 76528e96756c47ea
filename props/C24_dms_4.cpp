#define PART 4
#include "C24_dms.h"
