#define PART 2
#include "C25_nlp.h"
