// Classes to offer wrapped objects of other sizes to: one bit of the size differs from 16.
#include "wrapops.hpp"
#define MORE(X) X(17) X(18) X(24) X(48) X(80) X(144) X(272) X(528) X(1040) X(2064) X(4112) X(8208) X(16400) X(32784)
#define X(N) static WrapReg<PrfObj<N>, ct::Prf<N>> wr_prf_##N("prf" #N);
X(20) MORE(X)
#undef X
