// Classes to offer wrapped objects of other sizes to: one bit of the size differs from 16.
#include "rcprf.hpp"
#define MORE(X) X(528) X(1040) X(2064) X(4112) X(8208) X(16400) X(32784)
#define X(N)                                                                                      \
    static WrapReg<RcObj<N>, ct::RCPrf<N>>            wr_rc_##N("rcprf" #N);                      \
    static WrapReg<CrObj<N>, ct::ConstrainedRCPrf<N>> wr_cr_##N("crcprf" #N);
MORE(X)
#undef X
