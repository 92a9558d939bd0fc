#pragma once
#include "normal_dist.hpp"
namespace trng {
template <class T = double> class lognormal_dist {
    normal_dist<T> n_;
  public:
    lognormal_dist(T mu, T sigma) : n_(mu, sigma) {}
    template <class R> T operator()(R &r) { return std::exp(n_(r)); }
    void reset() {}
};
} // namespace trng
