// Rank-side helpers: the case (key=value text supplied by the host), observations, entry dispatch.
#pragma once
#include "../abi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>
extern "C" const SimApi *A;
extern "C" int g_rank;
struct Case {
    std::map<std::string, std::string> kv;
    Case() {
        const char *p = (const char *)A->caseptr; if (!p) return;
        while (*p) { const char *e = strchr(p, '\n'); if (!e) e = p + strlen(p); const char *q = (const char *)memchr(p, '=', e - p); if (q) kv[std::string(p, q)] = std::string(q + 1, e); p = *e ? e + 1 : e; }
    }
    bool has(const char *k) const { return kv.count(k) > 0; }
    std::string s(const char *k, const char *d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long i(const char *k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atol(i->second.c_str()); }
    double d(const char *k, double v = 0) const { auto i = kv.find(k); return i == kv.end() ? v : atof(i->second.c_str()); }
};
template <class T> inline void emitv(const char *tag, const std::vector<T> &v) { T z{}; A->emit(tag, v.empty() ? &z : v.data(), v.size() * sizeof(T)); }
inline void emits(const char *tag, const std::string &s) { A->emit(tag, s.data(), s.size()); }
// counter-based randomness shared with the host: content is a function of (seed, tag, index)
inline uint64_t hmix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2));
    uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
inline uint64_t hat(uint64_t seed, uint64_t tag, uint64_t i) { return hmix(hmix(seed, tag), i); }
inline double hu(uint64_t seed, uint64_t tag, uint64_t i) { return (hat(seed, tag, i) >> 11) * (1.0 / 9007199254740992.0); }

struct Entry { const char *name; void (*fn)(const Case &); };
std::vector<Entry> &entries();
struct Reg { Reg(const char *n, void (*f)(const Case &)) { entries().push_back({n, f}); } };
#define ENTRY(n) static void entry_##n(const Case &C); static Reg reg_##n(#n, entry_##n); static void entry_##n(const Case &C)
