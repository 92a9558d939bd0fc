// Stand-in for TRNG's mrg5 (TRNG is not installed here): a counter-based sequence with exact leapfrog splitting.
// The randomness source is a seam of the simulator: the k-th number of a seed is a pure function of (seed, k).
#pragma once
#include <cstdint>
#include <stdexcept>
#include <vector>
namespace trng {
class mrg5 {
    uint64_t seed_ = 0, base_ = 0, stride_ = 1, n_ = 0;
    static uint64_t sm(uint64_t x) {
        x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
    }
  public:
    typedef uint64_t result_type;
    mrg5() = default;
    explicit mrg5(unsigned long s) { seed(s); }
    void seed(unsigned long s) { seed_ = s; base_ = 0; stride_ = 1; n_ = 0; }
    void seed() { seed(0); }
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    void split(unsigned int s, unsigned int i) {
        if (s < 1 || i >= s) throw std::invalid_argument("invalid argument for trng::mrg5::split");
        base_ = base_ + stride_ * (n_ + i); n_ = 0; stride_ *= s;
    }
    void jump(unsigned long long k) { n_ += k; }
    void jump2(unsigned k) { n_ += 1ull << k; }
    void discard(unsigned long long k) { n_ += k; }
    uint64_t position() const { return base_ + stride_ * n_; }
    result_type operator()() { uint64_t k = position(); n_++; return sm(sm(seed_ + 0x51ull) ^ sm(k * 0xd1342543de82ef95ull + 7)); }
};
} // namespace trng
