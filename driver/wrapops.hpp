#pragma once
#include "objs.hpp"

// "wrap" and "unwrap" dispatch on a type name to functions registered by the
// translation unit that knows the type
using WrapFn   = std::function<std::vector<uint8_t>(const ct::Wrapper&, const std::string&)>;
using UnwrapFn = std::function<void(const ct::Wrapper&, std::vector<uint8_t>&, const std::string&)>;
struct WrapOps
{
    WrapFn   w;
    UnwrapFn u;
};
std::map<std::string, WrapOps>& wrap_ops();

template<class O, class C>
struct WrapReg
{
    explicit WrapReg(const std::string& type)
    {
        wrap_ops()[type] = WrapOps{
            [](const ct::Wrapper& w, const std::string& s) { return w.wrap(slot<O>(s).o); },
            [](const ct::Wrapper& w, std::vector<uint8_t>& b, const std::string& d) {
                put(d, new O(w.template unwrap<C>(b)));
            }};
    }
};
