#include "rcprf.hpp"
RC_INST(1)
RC_INST(11)
