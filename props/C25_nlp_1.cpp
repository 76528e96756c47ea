#define PART 1
#include "C25_nlp.h"
