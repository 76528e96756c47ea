#define PART 2
#include "C20_nloc.h"
