// Test-case generation, execution, minimisation, replay and evidence around the simulator core.
#pragma once
#include "core.hpp"
#include <cmath>
#include <cstdarg>
#include <functional>

struct TestCase { // everything a run depends on besides the code: printable, shrinkable
    std::string prop; uint64_t seed = 1;
    std::map<std::string, std::string> kv;
    std::vector<std::string> items; // particles, links, operations: any subset is still a valid case
    bool has(const std::string &k) const { return kv.count(k) > 0; }
    std::string s(const std::string &k, const std::string &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long i(const std::string &k, long d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
    double d(const std::string &k, double v = 0) const { auto it = kv.find(k); return it == kv.end() ? v : atof(it->second.c_str()); }
    void set(const std::string &k, const std::string &v) { kv[k] = v; }
    void set(const std::string &k, const char *v) { kv[k] = v; }
    void seti(const std::string &k, long v) { kv[k] = std::to_string(v); }
    void setd(const std::string &k, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; }
};
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
typedef std::vector<std::pair<uint32_t, uint32_t>> Trace;

struct Stats {
    std::map<std::string, double> probe;  // reach: "this condition was hit"
    std::map<std::string, double> fault;  // injected faults, as fired
    std::map<std::string, double> count;  // jobs, steps, messages ...
    std::set<uint64_t> orders;            // distinct interleavings (hash of the order of externally visible events)
    double vtime = 0;
    void add(const Stats &o);
};
struct Ctx { // one execution of one test case
    bool replaying = false; std::vector<Trace> forced; std::vector<char> haveForced;
    std::vector<Trace> traces; std::vector<char> traced; int jobs = 0; uint64_t hash = 1469598103934665603ull;
    std::string cls, msg; // violation; cls empty: none
    std::string harness;  // harness trouble, never a violation
    Stats st; uint64_t sig = 0; // signature of what was exercised (distinct cases)
    bool nontrivial = false;
    JobResult run(JobSpec s);
    bool bad() const { return !cls.empty() || !harness.empty(); }
    void fail(const std::string &c, const std::string &m) { if (!bad()) { cls = c; msg = m; } }
    bool needOk(const JobResult &r); // anything but a clean finish is a violation of the property under test
    void probe(const std::string &k, double v = 1) { st.probe[k] += v; }
};
struct Prop {
    std::string id, lib; int maxRanks; // rank library it needs
    int quick, thorough;             // number of cases
    std::function<void(Rng &, TestCase &, int k, bool thorough)> gen;
    std::function<void(const TestCase &, Ctx &)> check;
    std::string rule;                // what a case is, when it counts as non-trivial
    std::vector<std::string> assumptions;
    std::vector<std::pair<std::string, std::string>> simpler; // key -> simpler value to try while minimising
    std::string level = "exploration";
};
std::vector<Prop> &props();
struct PropReg { PropReg(Prop p) { props().push_back(std::move(p)); } };

// the standard scheduling and fault knobs
void genSched(Rng &r, TestCase &t, int maxRanks, int maxThreads);
JobSpec jobFrom(const TestCase &t, const std::string &entry);
