// Classes to offer wrapped objects of other sizes to: one bit of the size differs from 16.
#include "rcprf.hpp"
#define MORE(X) X(17) X(18) X(24) X(48) X(80) X(144)
#define X(N)                                                                                      \
    static WrapReg<RcObj<N>, ct::RCPrf<N>>            wr_rc_##N("rcprf" #N);                      \
    static WrapReg<CrObj<N>, ct::ConstrainedRCPrf<N>> wr_cr_##N("crcprf" #N);
MORE(X)
#undef X
