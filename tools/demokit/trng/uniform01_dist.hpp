#pragma once
namespace trng {
template <class T = double> class uniform01_dist {
  public:
    template <class R> T operator()(R &r) { return (T)((r() >> 11) * (1.0 / 9007199254740992.0)); }
    void reset() {}
};
} // namespace trng
