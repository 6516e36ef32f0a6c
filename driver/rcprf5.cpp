#include "rcprf.hpp"
RC_INST(272)
