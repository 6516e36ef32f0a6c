#include "rcprf.hpp"
RC_INST(16)
RC_INST(20)
