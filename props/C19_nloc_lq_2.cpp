#define PART 2
#include "C19_nloc_lq.h"
