// Deterministic simulator: fibers, seeded scheduler, MPI / OpenMP / file-system semantics, fault injection.
#pragma once
#include <cmath>
#include "../abi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = sm(seed); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r;
    }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return a * std::exp(u() * std::log(b / a)); }
    bool p(double q) { return u() < q; }
    int in(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    double n01();
};
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull + (a << 6) + (a >> 2)); return Rng::sm(x); }
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p; size_t i = 0;
    for (; i + 8 <= n; i += 8) { uint64_t w; memcpy(&w, c + i, 8); h = (h ^ w) * 0x9ddfea08eb382d69ull; h ^= h >> 29; }
    for (; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h ^ n;
}
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

// ---------------------------------------------------------------- simulated file system
struct Inode { int id = 0; bool dir = false; std::string data; };
struct FsOp {
    enum K { MKDIR, CREATE, TRUNC, WRITE, RENAME, UNLINK, CLOSE, SYNC } k;
    int rank = -1; int ino = 0; uint64_t off = 0; std::string a, b; // a: path or data
    uint64_t step = 0;
};
struct FsImage { // what a crash leaves behind: plain path -> content, directories separately
    std::map<std::string, std::string> files;
    std::set<std::string> dirs;
    uint64_t hash() const;
};
std::string normPath(const std::string &p);
// state after the first n operations of the log (plus the first `torn` bytes of operation n when it is a write)
FsImage replayFs(const FsImage &start, const std::vector<FsOp> &log, size_t n, size_t torn = 0);

// ---------------------------------------------------------------- a job: one launch of the parallel program
struct FaultPlan {
    double shortWrite = 0;    // probability that a write transfers only a prefix
    double eintr = 0;         // write interrupted before transferring anything (the caller must retry)
    double ioErr = 0;         // EIO on a write
    double openErr = 0;       // EMFILE / EACCES on open for writing
    long diskBytes = -1;      // disk capacity in bytes (ENOSPC beyond), -1 = unlimited
    double delay = 0;         // probability that a message is delayed
    int maxDelay = 40;        // by up to this many scheduler steps
    double rendezvous = 0;    // probability that a standard send waits for its receive
    int killRank = -1;        // this rank dies ...
    long killAt = -1;         // ... at its n-th externally visible event
    double clockJump = 0;     // probability per step of a clock jump
    std::string onlyPath;     // restrict write faults to paths containing this
};
struct JobSpec {
    std::string entry;              // rank-side driver
    int nranks = 1, nthreads = 1;
    int sched = 0;                  // scheduling policy 0..4
    int preempt = 0;                // 0: no preemption inside parallel regions, else mean spacing in accesses
    bool races = false;             // happens-before race detection
    int poison = -1;                // heap junk byte
    uint64_t seed = 1;              // decision stream
    uint64_t entropySeed = 7;       // std::random_device etc.
    std::string blob;               // case data visible to the ranks
    FsImage fs;
    bool fsLog = false;
    FaultPlan faults;
    uint64_t maxSteps = 1200000;
    int64_t fuel = 800000000ll;    // instrumented function entries allowed to one rank in one go
    int cpuSeconds = 40;
    std::vector<std::pair<uint32_t, uint32_t>> forced; // replay: sparse decisions
    bool replay = false;
    bool keepConsole = false;
};
struct Record { int rank; std::string tag; std::string data; uint64_t step; };
enum JobStatus { J_OK = 0, J_EXIT, J_ABORT, J_DEADLOCK, J_MPIERR, J_RACE, J_HANG, J_SIGNAL, J_KILLED, J_FAIL, J_HARNESS };
const char *statusName(int s);
struct JobResult {
    int status = J_OK;
    std::string message;
    std::string cls;                // for J_FAIL: class given by the rank
    int code = 0, rank = -1;
    std::vector<Record> rec;
    FsImage fs;
    std::vector<FsOp> fslog;
    std::vector<std::pair<uint32_t, uint32_t>> trace; // non-default decisions
    uint64_t decisions = 0, hash = 0, orderHash = 0, steps = 0, vtime = 0;
    std::map<std::string, double> counters;
    std::map<std::string, double> notes;
    bool ok() const { return status == J_OK; }
    std::vector<const Record *> get(const std::string &tag, int rank = -1) const {
        std::vector<const Record *> v; for (auto &r : rec) if (r.tag == tag && (rank < 0 || r.rank == rank)) v.push_back(&r); return v;
    }
};
void simStart(); // call first: forks the process all simulated runs descend from
bool simLoad(const std::string &lib, int nranks, std::string &err);
int simLoaded();
JobResult runJob(const JobSpec &spec); // forks; the child runs the whole parallel program under the scheduler
extern bool g_verbose;
