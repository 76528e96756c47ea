// engine self test used by setup_cmd
#include "gen.h"
FACET(engine, 1)
{
    double x = s.real(-3, 3);
    PBT_REQUIRE(x >= -3 && x <= 3, "range", x);
    s.nontrivial();
}
