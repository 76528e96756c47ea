#define PART 1
#include "C20_nloc.h"
