#include "rcprf.hpp"
RC_INST(64)
RC_INST(100)
