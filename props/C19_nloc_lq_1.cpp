#define PART 1
#include "C19_nloc_lq.h"
