#include "rcprf.hpp"
#define RC_SIZES(X) X(1) X(11) X(16) X(20) X(32) X(33) X(64) X(100) X(272)
#define X(N) extern template void rc_op<N>(const std::string&, Args&, Res&);
RC_SIZES(X)
#undef X
static Reg rc_reg("rc", [](Args& a, Res& r) {
    std::string op = a.s();
    if (op == "maxleaf") {
        r.str("out", std::to_string(ct::RCPrfParams::max_leaf_index(static_cast<uint8_t>(a.u()))));
        return;
    }
    switch (a.u()) {
#define X(N)                                                                                      \
    case N:                                                                                       \
        return rc_op<N>(op, a, r);
        RC_SIZES(X)
#undef X
    default:
        bad("rc size");
    }
});
