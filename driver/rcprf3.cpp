#include "rcprf.hpp"
RC_INST(32)
RC_INST(33)
