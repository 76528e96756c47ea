#define PART 3
#include "C19_nloc_lq.h"
