#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.hpp"
#include <poll.h>
#include <sys/socket.h>
#undef SO_TYPE // clashes with the shim ABI constant
#include <ucontext.h>
#include <algorithm>
#include <cmath>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

bool g_verbose = false;
double Rng::n01() { double a = u(), b = u(); if (a < 1e-300) a = 1e-300; return sqrt(-2 * log(a)) * cos(6.283185307179586 * b); }
const char *statusName(int s) {
    static const char *n[] = {"ok", "exit", "abort", "deadlock", "mpi-error", "data-race", "hang", "signal", "killed", "fail", "harness"};
    return n[s];
}

// ================================================================= file system
std::string normPath(const std::string &p) {
    std::vector<std::string> parts; std::string cur;
    for (size_t i = 0; i <= p.size(); i++) {
        if (i == p.size() || p[i] == '/') {
            if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
            else if (!cur.empty() && cur != ".") parts.push_back(cur);
            cur.clear();
        } else cur += p[i];
    }
    std::string o; for (auto &s : parts) o += (o.empty() ? "" : "/") + s; return o;
}
uint64_t FsImage::hash() const { uint64_t h = 1; for (auto &f : files) h = mix(mix(h, hashStr(f.first)), hashStr(f.second)); for (auto &d : dirs) h = mix(h, hashStr(d)); return h; }
struct Fs {
    std::map<std::string, std::shared_ptr<Inode>> names; // "" is the root directory
    int nextIno = 1;
    void load(const FsImage &im) {
        names.clear(); mk("", true);
        for (auto &d : im.dirs) mk(d, true);
        for (auto &f : im.files) mk(f.first, false)->data = f.second;
    }
    std::shared_ptr<Inode> mk(const std::string &p, bool dir) { auto n = std::make_shared<Inode>(); n->id = nextIno++; n->dir = dir; names[p] = n; return n; }
    static std::string parent(const std::string &p) { auto i = p.rfind('/'); return i == std::string::npos ? "" : p.substr(0, i); }
    bool isDir(const std::string &p) { auto it = names.find(p); return it != names.end() && it->second->dir; }
    FsImage image() const { FsImage im; for (auto &n : names) if (n.second->dir) { if (!n.first.empty()) im.dirs.insert(n.first); } else im.files[n.first] = n.second->data; return im; }
};
FsImage replayFs(const FsImage &start, const std::vector<FsOp> &log, size_t n, size_t torn) {
    Fs fs; fs.load(start); std::map<int, std::shared_ptr<Inode>> ino;
    std::map<std::string, std::shared_ptr<Inode>> byName;
    for (size_t i = 0; i < log.size() && i < n + (torn ? 1 : 0); i++) {
        const FsOp &o = log[i];
        switch (o.k) {
        case FsOp::MKDIR: fs.mk(o.a, true); break;
        case FsOp::CREATE: { auto it = fs.names.find(o.a); ino[o.ino] = it != fs.names.end() ? it->second : fs.mk(o.a, false); } break;
        case FsOp::TRUNC: if (ino.count(o.ino)) ino[o.ino]->data.resize(o.off); break;
        case FsOp::WRITE: if (ino.count(o.ino)) { auto &d = ino[o.ino]->data; size_t len = (i == n) ? std::min(torn, o.a.size()) : o.a.size(); if (d.size() < o.off + len) d.resize(o.off + len); d.replace(o.off, len, o.a, 0, len); } break;
        case FsOp::RENAME: { auto it = fs.names.find(o.a); if (it != fs.names.end()) { auto p = it->second; fs.names.erase(it); fs.names[o.b] = p; } } break;
        case FsOp::UNLINK: fs.names.erase(o.a); break;
        default: break;
        }
    }
    return fs.image();
}

// ================================================================= rank libraries
struct RankLib {
    void *handle = nullptr;
    void (*entry)(const char *) = nullptr;
    void *(*attach)(const SimApi *, int, SimHot **, void **, int **) = nullptr;
    SimHot *hot = nullptr; void *(*ehfn)() = nullptr; int *err = nullptr;
};
static std::vector<RankLib> g_libs;
static bool loadLibs(const std::string &lib, int nranks, std::string &err) {
    for (int i = 0; i < nranks; i++) {
        RankLib L;
        // the shim first (it also brings libm, whose IFUNC symbols some VTK libraries use without depending on it)
        void *m = dlmopen(LM_ID_NEWLM, (lib.substr(0, lib.rfind('/')) + "/lib/libmpi.so.40").c_str(), RTLD_NOW | RTLD_LOCAL); Lmid_t ns = LM_ID_NEWLM;
        if (!m || dlinfo(m, RTLD_DI_LMID, &ns)) { err = dlerror(); return false; }
        L.handle = dlmopen(ns, lib.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!L.handle) { err = dlerror(); return false; }
        *(void **)&L.entry = dlsym(L.handle, "sim_rank_entry");
        *(void **)&L.attach = dlsym(L.handle, "sim_attach");
        if (!L.entry || !L.attach) { err = "rank library lacks entry points"; return false; }
        g_libs.push_back(L);
    }
    return true;
}

// ================================================================= scheduler state (one job per process)
static const int MAXT = 16;
struct Team;
struct VC { uint32_t c[MAXT]; };
struct Fiber {
    int id = 0, rank = 0, tid = 0;
    void *sp = nullptr; char *stk = nullptr; size_t stksz = 0;
    int state = 0; // 0 runnable, 1 blocked, 2 done
    std::function<bool()> pred; const char *why = "";
    Team *team = nullptr; int wsIdx = 0, singleIdx = 0;
    void (*fn)(void *) = nullptr; void *data = nullptr;
    char eh[16]; int err = 0;
    int prio = 0; int64_t budget = 0; uint64_t events = 0;
};
struct WSInst { long next, end, incr, chunk; };
struct Team {
    int rank, n; std::vector<Fiber *> m; int arrived = 0; uint64_t gen = 0; int finished = 0;
    std::vector<WSInst> ws; int singles = 0;
    VC vc[MAXT], bar;
};
struct Cell { uintptr_t key; uint32_t gen; struct E { uint32_t clk; uint8_t tid, mask, wr, n; const void *pc; } e[4]; };
struct RaceMap {
    std::vector<Cell> t; uint32_t gen = 1; size_t used = 0;
    RaceMap() : t(1 << 16) { for (auto &c : t) c.gen = 0; }
    void clear() { gen++; used = 0; }
    Cell &get(uintptr_t k) {
        if (used * 2 > t.size()) grow();
        size_t i = (k * 0x9e3779b97f4a7c15ull >> 20) & (t.size() - 1);
        while (t[i].gen == gen && t[i].key != k) i = (i + 1) & (t.size() - 1);
        if (t[i].gen != gen) { t[i].gen = gen; t[i].key = k; memset(t[i].e, 0, sizeof t[i].e); used++; }
        return t[i];
    }
    Cell *find(uintptr_t k) {
        size_t i = (k * 0x9e3779b97f4a7c15ull >> 20) & (t.size() - 1);
        while (t[i].gen == gen && t[i].key != k) i = (i + 1) & (t.size() - 1);
        return t[i].gen == gen ? &t[i] : nullptr;
    }
    void grow() { std::vector<Cell> o(t.size() * 2); for (auto &c : o) c.gen = 0; std::swap(o, t); used = 0; for (auto &c : o) if (c.gen == gen) { get(c.key) = c; } }
};
struct Msg { int src, dst, comm, tag; std::string data; const void *lazy = nullptr; size_t n = 0; uint64_t release = 0, seq = 0; int sreq = -1; bool taken = false; };
struct Req { int kind; /*0 send 1 recv*/ int rank; bool done = false; int comm, peer, tag; void *buf; size_t cap; SimStatus st; bool freed = false; uint64_t seq; };
struct Contribution { SimColl c; std::string s; std::vector<int> sc, sd, rc, rd; bool in = false; };
struct CollInst { int kind = 0, root = 0, arrived = 0, left = 0; std::vector<Contribution> p; std::vector<int> newids; bool decided = false; std::vector<int> perm; int opid = 0; size_t esz = 0; };
struct Comm { int id; std::vector<int> ranks; std::map<int, int> idx; std::vector<uint64_t> seq; std::map<uint64_t, CollInst> inst; };
struct OpenFile { std::shared_ptr<Inode> ino; std::string path; uint64_t pos = 0; int flags = 0, rank = 0; bool open = true; };

static struct Sim {
    const JobSpec *spec = nullptr; JobResult res; SimApi api{};
    std::vector<std::unique_ptr<Fiber>> fibers; Fiber *cur = nullptr; void *schedSp = nullptr;
    uint64_t step = 0, now = 0, nextSeq = 1; bool done = false;
    Rng rng{1}, ent{1}; std::map<uint32_t, uint32_t> forced; uint32_t nDec = 0;
    std::map<int, Comm> comms; int nextComm = 3;
    std::deque<Msg> net; std::vector<Req> reqs; std::vector<int> active; /* posted, unmatched receives in posting order */ int liveMsgs = 0;
    std::vector<std::map<void *, std::pair<int, VC>>> crit; // per rank
    std::vector<std::map<const void *, VC>> sync;
    std::vector<RaceMap> race; std::vector<int> ompThreads; std::vector<int> teamDepth;
    std::vector<char> dead, entered, finalized; std::vector<uint64_t> skew;
    Fs fs; std::vector<OpenFile> fds; long diskUsed = 0;
    std::vector<int> prio; std::set<uint64_t> changeAt; int lowPrio = 0, starve = -1; std::vector<int> rankOrder;
    int pipefd = -1;
} S;

// ================================================================= decisions
enum DK { D_SCHED = 1, D_DELAY, D_RDV, D_PERM, D_BUDGET, D_FAULT, D_WAIT, D_USER };
static void fold(uint64_t v) { S.res.hash = (S.res.hash ^ v) * 0x9ddfea08eb382d69ull; S.res.hash ^= S.res.hash >> 31; }
static void foldOrder(uint64_t v) { S.res.orderHash = (S.res.orderHash ^ v) * 0x9ddfea08eb382d69ull; S.res.orderHash ^= S.res.orderHash >> 31; }
// `draw` computes the policy's choice; it is used only when not replaying
template <class F> static uint32_t decide(uint32_t n, F draw) {
    uint32_t i = S.nDec++, v = 0;
    if (S.spec->replay) { auto it = S.forced.find(i); if (it != S.forced.end()) v = it->second % n; }
    else v = draw();
    if (v) S.res.trace.push_back({i, v});
    fold(v * 31 + n); return v;
}
static bool chance(double p, const char *counter) {
    if (p <= 0) return false;
    bool b = decide(2, [&] { return S.rng.p(p) ? 1u : 0u; }) == 1; if (b && counter) S.res.counters[counter]++; return b;
}

// ================================================================= fibers
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");
static std::vector<std::pair<char *, size_t>> g_stackPool;
static char *getStack(size_t sz) {
    for (size_t i = 0; i < g_stackPool.size(); i++) if (g_stackPool[i].second == sz) { char *p = g_stackPool[i].first; g_stackPool.erase(g_stackPool.begin() + i); return p; }
    char *p = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(p, 4096, PROT_NONE); return p;
}
static void fiberMain();
static Fiber *newFiber(int rank, int tid, size_t stk, void (*fn)(void *), void *data) {
    Fiber *f = nullptr;
    for (auto &p : S.fibers) if (p->state == 3) { f = p.get(); break; }
    if (!f) { S.fibers.emplace_back(new Fiber); f = S.fibers.back().get(); f->id = (int)S.fibers.size() - 1; }
    int id = f->id; *f = Fiber(); f->id = id;
    f->rank = rank; f->tid = tid; f->fn = fn; f->data = data; f->stksz = stk; f->stk = getStack(stk);
    memset(f->eh, 0, sizeof f->eh);
    uint64_t *sp = (uint64_t *)(f->stk + stk - 64); *--sp = 0; *--sp = (uint64_t)&fiberMain;
    for (int i = 0; i < 6; i++) *--sp = 0;
    --sp; uint32_t mx; asm volatile("stmxcsr %0" : "=m"(mx)); uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw)); ((uint32_t *)sp)[0] = mx; ((uint32_t *)sp)[1] = cw;
    f->sp = sp; f->prio = S.spec->replay ? 0 : (int)(S.rng.next() >> 40); return f;
}
static void freeFiber(Fiber *f) { g_stackPool.push_back({f->stk, f->stksz}); f->stk = nullptr; f->state = 3; }
static SimHot &hot(int rank) { return *g_libs[rank].hot; }
static void toSched() { sim_switch(&S.cur->sp, S.schedSp); }
static void fiberMain() { Fiber *f = S.cur; f->fn(f->data); f->state = 2; toSched(); abort(); }
[[noreturn]] static void finishJob(int status, const std::string &msg, int code = 0) {
    if (!S.done) { S.done = true; S.res.status = status; S.res.message = msg; S.res.code = code; S.res.rank = S.cur ? S.cur->rank : -1; }
    for (;;) toSched();
}
static void event(int kind, uint64_t arg = 0) {
    fold(((uint64_t)S.cur->id << 8 | kind) ^ arg * 0x2545F4914F6CDD1Dull); foldOrder((uint64_t)S.cur->rank << 16 | S.cur->tid << 8 | kind);
    S.cur->events++; S.now += 100;
}
static void checkKill() {
    const FaultPlan &F = S.spec->faults;
    if (F.killRank == S.cur->rank && F.killAt >= 0 && (long)S.fibers[F.killRank]->events >= F.killAt && !S.dead[F.killRank]) {
        S.dead[F.killRank] = 1; S.res.counters["fault.rank_kill"]++; S.res.notes["killed"] = 1; for (;;) toSched();
    }
}
static void yieldPoint() { checkKill(); toSched(); }
static void block(const char *why, std::function<bool()> pred) {
    checkKill();
    S.cur->why = why; S.cur->pred = std::move(pred); S.cur->state = 1; toSched();
}
static std::string describeBlocked() {
    std::string s; for (auto &f : S.fibers) if (f->state == 1 && !S.dead[f->rank]) { char b[160]; snprintf(b, sizeof b, "%srank %d/t%d in %s", s.empty() ? "" : "; ", f->rank, f->tid, f->why); s += b; } return s;
}
static int policyPick(const std::vector<Fiber *> &run, Fiber *last) {
    // run[0] is `last` when it is still runnable
    int n = (int)run.size();
    switch (S.spec->sched) {
    case 0: return (int)S.rng.below(n);
    case 1: { // priorities with change points
        if (S.changeAt.count(S.step) && last) last->prio = --S.lowPrio;
        int b = 0; for (int i = 1; i < n; i++) if (run[i]->prio > run[b]->prio) b = i; return b;
    }
    case 2: return S.rng.below(16) == 0 ? (int)S.rng.below(n) : 0;
    case 3: { // one rank is slow: it runs only when nothing else can (and rarely otherwise)
        if (S.rng.below(4096) == 0) S.starve = (int)S.rng.below(S.spec->nranks);
        std::vector<int> ok; for (int i = 0; i < n; i++) if (run[i]->rank != S.starve) ok.push_back(i);
        if (ok.empty() || S.rng.below(400) == 0) return (int)S.rng.below(n);
        return ok[S.rng.below(ok.size())];
    }
    default: return n > 1 ? 1 + (S.rng.below(3) == 0 ? (int)S.rng.below(n - 1) : 0) : 0;
    }
}
static void restoreCtx(Fiber *f) {
    RankLib &L = g_libs[f->rank]; memcpy(L.ehfn(), f->eh, 16); *L.err = f->err;
    SimHot &h = hot(f->rank); h.in_par = (f->team && f->team->n > 1) ? 1 : 0;
}
static void saveCtx(Fiber *f) { RankLib &L = g_libs[f->rank]; memcpy(f->eh, L.ehfn(), 16); f->err = *L.err; }
static void schedLoop() {
    Fiber *last = nullptr; std::vector<Fiber *> run;
    while (!S.done) {
        run.clear(); bool allDone = true;
        for (auto &p : S.fibers) {
            Fiber *f = p.get(); if (f->state >= 2) continue;
            if (S.dead[f->rank]) continue;
            allDone = false;
            if (f->state == 1 && f->pred()) { f->state = 0; f->pred = nullptr; }
            if (f->state == 0) run.push_back(f);
        }
        if (allDone) break;
        if (run.empty()) { // let time pass until the next delayed message is delivered
            uint64_t nx = ~0ull; for (auto &m : S.net) if (!m.taken && m.release > S.step) nx = std::min(nx, m.release);
            if (nx != ~0ull) { S.now += (nx - S.step) * 1000; S.step = nx; continue; }
            S.done = true; S.res.message = describeBlocked();
            bool anyDead = false; for (char d : S.dead) if (d) anyDead = true;
            S.res.status = anyDead ? J_KILLED : J_DEADLOCK; break;
        }
        S.step++; S.now += 1000;
        if (S.step > S.spec->maxSteps) { S.done = true; S.res.status = J_HANG; S.res.message = "step budget exhausted: " + describeBlocked(); break; }
        // order: last first, then by id
        if (last) for (size_t i = 0; i < run.size(); i++) if (run[i] == last) { run.erase(run.begin() + i); run.insert(run.begin(), last); break; }
        uint32_t k = run.size() == 1 ? 0 : decide((uint32_t)run.size(), [&] { return (uint32_t)policyPick(run, last); });
        Fiber *f = run[k]; if (f != last) S.res.counters["switches"]++;
        if (S.spec->faults.clockJump > 0 && S.rng.p(S.spec->faults.clockJump)) { S.skew[f->rank] += 3600000000000ull; S.res.counters["fault.clock_jump"]++; }
        last = f; S.cur = f; restoreCtx(f); sim_switch(&S.schedSp, f->sp); saveCtx(f); hot(f->rank).in_par = 0;
    }
    S.cur = nullptr;
}

// ================================================================= MPI
static Comm &CM(int id) { auto it = S.comms.find(id); if (it == S.comms.end()) finishJob(J_MPIERR, "invalid communicator"); return it->second; }
static int myIdx(Comm &c) { auto it = c.idx.find(S.cur->rank); if (it == c.idx.end()) finishJob(J_MPIERR, "rank is not in the communicator"); return it->second; }
static void mpiGuard(const char *fn) {
    if (S.cur->team && S.cur->team->n > 1 && S.cur->tid != 0) { S.res.counters["mpi_off_master"]++; }
    (void)fn;
}
static int a_comm_rank(int c) { return myIdx(CM(c)); }
static int a_comm_size(int c) { return (int)CM(c).ranks.size(); }
static int a_comm_world_rank(int c, int r) { return CM(c).ranks.at(r); }
static int makeComm(const std::vector<int> &r) { Comm c; c.id = S.nextComm++; c.ranks = r; for (size_t i = 0; i < r.size(); i++) c.idx[r[i]] = (int)i; c.seq.assign(r.size(), 0); S.comms[c.id] = c; return c.id; }
static void a_mpi_error(const char *w) { finishJob(strncmp(w, "HARNESS", 7) ? J_MPIERR : J_HARNESS, w); }
static void a_mpi_abort(int code) { finishJob(J_ABORT, "MPI_Abort", code); }
static void a_mpi_mark(int w) { event(1, w); if (w) S.finalized[S.cur->rank] = 1; }

template <class T> static void redT(int op, T *a, const T *b, size_t n) { // a = a op b
    for (size_t i = 0; i < n; i++) switch (op) {
        case SP_SUM: a[i] = a[i] + b[i]; break; case SP_MAX: a[i] = a[i] > b[i] ? a[i] : b[i]; break; case SP_MIN: a[i] = a[i] < b[i] ? a[i] : b[i]; break;
        case SP_PROD: a[i] = a[i] * b[i]; break; case SP_LAND: a[i] = a[i] && b[i]; break; case SP_LOR: a[i] = a[i] || b[i]; break; case SP_LXOR: a[i] = !a[i] != !b[i]; break;
        default: finishJob(J_MPIERR, "reduction operator not defined for this type");
    }
}
template <class T> static void redI(int op, T *a, const T *b, size_t n) {
    if (op == SP_BAND) for (size_t i = 0; i < n; i++) a[i] = a[i] & b[i];
    else if (op == SP_BOR) for (size_t i = 0; i < n; i++) a[i] = a[i] | b[i];
    else if (op == SP_BXOR) for (size_t i = 0; i < n; i++) a[i] = a[i] ^ b[i];
    else redT(op, a, b, n);
}
static void reduceInto(std::string &acc, const std::string &x, SimObj *type, SimObj *op, int count) {
    char *a = &acc[0]; const char *b = x.data(); size_t n = (size_t)count * type->nbase;
    if (op->id == SP_USER) { // inout = in op inout: acc is the left operand, so feed it as `in`
        std::string io = x; int len = count; void *dt = type; ((SimUserFn)op->userfn)(a, &io[0], &len, &dt); acc = io; return;
    }
    if (op->id == SP_REPLACE) { acc = x; return; }
    if (op->id == SP_NULL) finishJob(J_MPIERR, "null reduction operator");
    switch (type->base) {
    case ST_BYTE: case ST_UCHAR: case ST_UINT8: redI(op->id, (uint8_t *)a, (const uint8_t *)b, n); break;
    case ST_CHAR: case ST_SCHAR: case ST_INT8: redI(op->id, (int8_t *)a, (const int8_t *)b, n); break;
    case ST_CBOOL: case ST_CXXBOOL: redI(op->id, (uint8_t *)a, (const uint8_t *)b, n); break;
    case ST_SHORT: case ST_INT16: redI(op->id, (int16_t *)a, (const int16_t *)b, n); break;
    case ST_USHORT: case ST_UINT16: redI(op->id, (uint16_t *)a, (const uint16_t *)b, n); break;
    case ST_INT: case ST_INT32: redI(op->id, (int32_t *)a, (const int32_t *)b, n); break;
    case ST_UINT: case ST_UINT32: redI(op->id, (uint32_t *)a, (const uint32_t *)b, n); break;
    case ST_LONG: case ST_LLONG: case ST_INT64: case ST_AINT: redI(op->id, (int64_t *)a, (const int64_t *)b, n); break;
    case ST_ULONG: case ST_ULLONG: case ST_UINT64: redI(op->id, (uint64_t *)a, (const uint64_t *)b, n); break;
    case ST_FLOAT: redT(op->id, (float *)a, (const float *)b, n); break;
    case ST_DOUBLE: redT(op->id, (double *)a, (const double *)b, n); break;
    case ST_LDOUBLE: redT(op->id, (long double *)a, (const long double *)b, n); break;
    case ST_CPLX_D: if (op->id != SP_SUM) finishJob(J_MPIERR, "complex reduction"); redT(SP_SUM, (double *)a, (const double *)b, 2 * n); break;
    case ST_CPLX_F: if (op->id != SP_SUM) finishJob(J_MPIERR, "complex reduction"); redT(SP_SUM, (float *)a, (const float *)b, 2 * n); break;
    case ST_2INT: case ST_DOUBLE_INT: {
        size_t es = type->base == ST_2INT ? 8 : 16;
        for (size_t i = 0; i < n; i++) {
            char *p = a + i * es; const char *q = b + i * es; double x, y; int xi, yi;
            if (es == 8) { x = *(int *)p; y = *(int *)q; xi = *(int *)(p + 4); yi = *(int *)(q + 4); } else { x = *(double *)p; y = *(double *)q; xi = *(int *)(p + 8); yi = *(int *)(q + 8); }
            bool take = op->id == SP_MAXLOC ? (y > x || (y == x && yi < xi)) : (y < x || (y == x && yi < xi)); if (take) memcpy(p, q, es);
        }
    } break;
    default: finishJob(J_MPIERR, "reduction on unsupported datatype");
    }
}
static const char *collName(int k) {
    static const char *n[] = {"?", "MPI_Barrier", "MPI_Bcast", "MPI_Reduce", "MPI_Allreduce", "MPI_Gather", "MPI_Gatherv", "MPI_Allgather", "MPI_Allgatherv", "MPI_Scatter", "MPI_Scatterv", "MPI_Alltoall", "MPI_Alltoallv", "MPI_Scan", "MPI_Exscan", "MPI_Reduce_scatter", "MPI_Comm_split", "MPI_Comm_dup", "MPI_Comm_create", "MPI_Finalize"};
    return n[k];
}
static size_t ext(SimObj *t) { if (!t || t->magic != SIMOBJ_MAGIC || t->kind != SO_TYPE || t->id == ST_NULL) finishJob(J_MPIERR, "invalid datatype in collective"); return (size_t)t->extent; }
static void cp(void *d, const void *s, size_t n) { if (n) memcpy(d, s, n); }
static std::string reduceAll(CollInst &I, SimObj *type, SimObj *op, int count, int upto) {
    // order of combination: a seeded choice shared by every rank of this collective (floating-point association)
    std::vector<int> ord; if (op->commute) { for (int r : I.perm) if (r <= upto) ord.push_back(r); } else for (int r = 0; r <= upto; r++) ord.push_back(r);
    std::string acc = I.p[ord[0]].s; for (size_t i = 1; i < ord.size(); i++) reduceInto(acc, I.p[ord[i]].s, type, op, count); return acc;
}
static int a_coll(int comm, SimColl *c) {
    mpiGuard("coll"); yieldPoint();
    Comm &C = CM(comm); int me = myIdx(C), n = (int)C.ranks.size(); uint64_t k = C.seq[me]++;
    CollInst &I = C.inst[k]; if (I.p.empty()) I.p.resize(n);
    Contribution &P = I.p[me]; P.c = *c; P.in = true;
    bool rooted = c->kind == SC_BCAST || c->kind == SC_REDUCE || c->kind == SC_GATHER || c->kind == SC_GATHERV || c->kind == SC_SCATTER || c->kind == SC_SCATTERV;
    if (rooted && (c->root < 0 || c->root >= n)) finishJob(J_MPIERR, std::string("bad root in ") + collName(c->kind));
    size_t es = 0; int opid = c->op ? c->op->id : 0;
    if (c->kind == SC_BCAST || opid) { es = ext(c->stype) * (size_t)std::max(0, c->scount); if (c->kind == SC_REDSCAT) es = 0; }
    if (c->scount < 0 || c->rcount < 0) finishJob(J_MPIERR, std::string("negative count in ") + collName(c->kind));
    if (I.arrived == 0) {
        I.kind = c->kind; I.root = c->root; I.opid = opid; I.esz = es; for (int i = 0; i < n; i++) I.perm.push_back(i);
        if (opid && n > 2) { uint32_t v = decide(24, [&] { return (uint32_t)S.rng.below(24); }); Rng r(v); if (v) for (int i = n - 1; i > 0; i--) std::swap(I.perm[i], I.perm[r.below(i + 1)]); }
    } else if (I.kind != c->kind) {
        char b[300]; snprintf(b, sizeof b, "collective mismatch: rank %d calls %s while another rank called %s", S.cur->rank, collName(c->kind), collName(I.kind)); finishJob(J_MPIERR, b);
    } else if ((rooted && I.root != c->root) || I.opid != opid || I.esz != es) {
        char b[300]; snprintf(b, sizeof b, "collective mismatch: rank %d calls %s with different root/operator/size", S.cur->rank, collName(c->kind)); finishJob(J_MPIERR, b);
    }
    I.arrived++;
    // copy this rank's contribution
    bool inpl = c->sbuf == SIM_IN_PLACE;
    auto vec = [&](const int *a) { return a ? std::vector<int>(a, a + n) : std::vector<int>(); };
    P.sc = vec(c->scounts); P.sd = vec(c->sdispls); P.rc = vec(c->rcounts); P.rd = vec(c->rdispls);
    bool amRoot = rooted && me == c->root;
    auto grab = [&](const void *b, size_t by) { P.s.assign((const char *)(by ? b : ""), by); };
    switch (c->kind) {
    case SC_BCAST: if (amRoot) grab(c->sbuf, es); break;
    case SC_REDUCE: case SC_ALLREDUCE: case SC_SCAN: case SC_EXSCAN: grab(inpl ? c->rbuf : c->sbuf, es); break;
    case SC_REDSCAT: { long t = 0; for (int i = 0; i < n; i++) t += P.rc[i]; grab(inpl ? c->rbuf : c->sbuf, t * ext(c->stype)); } break;
    case SC_GATHER: if (!(amRoot && inpl)) grab(c->sbuf, c->scount * ext(c->stype)); else grab((char *)c->rbuf + (size_t)me * c->rcount * ext(c->rtype), c->rcount * ext(c->rtype)); break;
    case SC_GATHERV: if (!(amRoot && inpl)) grab(c->sbuf, c->scount * ext(c->stype)); else grab((char *)c->rbuf + (size_t)P.rd[me] * ext(c->rtype), P.rc[me] * ext(c->rtype)); break;
    case SC_ALLGATHER: if (!inpl) grab(c->sbuf, c->scount * ext(c->stype)); else grab((char *)c->rbuf + (size_t)me * c->rcount * ext(c->rtype), c->rcount * ext(c->rtype)); break;
    case SC_ALLGATHERV: if (!inpl) grab(c->sbuf, c->scount * ext(c->stype)); else grab((char *)c->rbuf + (size_t)P.rd[me] * ext(c->rtype), P.rc[me] * ext(c->rtype)); break;
    case SC_SCATTER: if (amRoot) grab(c->sbuf, (size_t)n * c->scount * ext(c->stype)); break;
    case SC_SCATTERV: if (amRoot) { size_t e = 0; for (int i = 0; i < n; i++) { if (P.sc[i] < 0) finishJob(J_MPIERR, "negative count in MPI_Scatterv"); if (P.sc[i]) e = std::max(e, (size_t)(P.sd[i] + P.sc[i])); } grab(c->sbuf, e * ext(c->stype)); } break;
    case SC_ALLTOALL: if (inpl) grab(c->rbuf, (size_t)n * c->rcount * ext(c->rtype)); else grab(c->sbuf, (size_t)n * c->scount * ext(c->stype)); break;
    case SC_ALLTOALLV: { if (inpl) finishJob(J_HARNESS, "HARNESS in-place alltoallv"); size_t e = 0; for (int i = 0; i < n; i++) { if (P.sc[i] < 0 || P.rc[i] < 0) finishJob(J_MPIERR, "negative count in MPI_Alltoallv"); if (P.sc[i]) e = std::max(e, (size_t)(P.sd[i] + P.sc[i])); } grab(c->sbuf, e * ext(c->stype)); } break;
    default: break;
    }
    event(2 + c->kind, hashBytes(P.s.data(), P.s.size(), k)); S.res.counters["collectives"]++;
    // block until this rank may leave
    uint64_t key = k; int root = c->root; Comm *Cp = &C;
    bool waitAll = true, waitRoot = false;
    if (c->kind == SC_BCAST || c->kind == SC_SCATTER || c->kind == SC_SCATTERV) { waitAll = false; waitRoot = me != root; }
    if (c->kind == SC_REDUCE || c->kind == SC_GATHER || c->kind == SC_GATHERV) waitAll = me == root;
    // an implementation may also synchronise: seeded choice per call
    if (!waitAll && n > 1 && decide(2, [&] { return (uint32_t)S.rng.below(2); })) waitAll = true;
    if (waitAll) { if (I.arrived < n) block(collName(c->kind), [Cp, key, n] { return Cp->inst[key].arrived == n; }); }
    else if (waitRoot) { if (!I.p[root].in) block(collName(c->kind), [Cp, key, root] { return Cp->inst[key].p[root].in; }); }
    // deliver
    auto chk = [&](bool ok, const char *w) { if (!ok) { char b[300]; snprintf(b, sizeof b, "%s: %s at rank %d", collName(c->kind), w, S.cur->rank); finishJob(J_MPIERR, b); } };
    CollInst &J = C.inst[key]; Contribution &M = J.p[me];
    switch (c->kind) {
    case SC_BCAST: if (me != root) cp(c->rbuf, J.p[root].s.data(), es); break;
    case SC_REDUCE: if (me == root) { if (es) { std::string r = reduceAll(J, c->stype, c->op, c->scount, n - 1); cp(c->rbuf, r.data(), es); } } break;
    case SC_ALLREDUCE: if (es) { std::string r = reduceAll(J, c->stype, c->op, c->scount, n - 1); cp(c->rbuf, r.data(), es); } break;
    case SC_SCAN: case SC_EXSCAN: { int up = c->kind == SC_SCAN ? me : me - 1; if (up >= 0 && es) { std::string r = reduceAll(J, c->stype, c->op, c->scount, up); cp(c->rbuf, r.data(), es); } } break;
    case SC_REDSCAT: {
        long tot = 0, off = 0; for (int i = 0; i < n; i++) { if (i < me) off += M.rc[i]; tot += M.rc[i]; }
        for (auto &q : J.p) chk(q.s.size() == M.s.size(), "size mismatch");
        if (tot) { std::string r = reduceAll(J, c->stype, c->op, (int)tot, n - 1); cp(c->rbuf, r.data() + off * ext(c->stype), M.rc[me] * ext(c->stype)); }
    } break;
    case SC_GATHER: if (me == root) { size_t b = c->rcount * ext(c->rtype); for (int i = 0; i < n; i++) { chk(J.p[i].s.size() == b, "send/receive size mismatch"); cp((char *)c->rbuf + i * b, J.p[i].s.data(), b); } } break;
    case SC_GATHERV: if (me == root) { size_t e = ext(c->rtype); for (int i = 0; i < n; i++) { chk(J.p[i].s.size() == M.rc[i] * e, "send/receive size mismatch"); cp((char *)c->rbuf + (size_t)M.rd[i] * e, J.p[i].s.data(), M.rc[i] * e); } } break;
    case SC_ALLGATHER: { size_t b = c->rcount * ext(c->rtype); for (int i = 0; i < n; i++) { chk(J.p[i].s.size() == b, "send/receive size mismatch"); cp((char *)c->rbuf + i * b, J.p[i].s.data(), b); } } break;
    case SC_ALLGATHERV: { size_t e = ext(c->rtype); for (int i = 0; i < n; i++) { chk(J.p[i].s.size() == M.rc[i] * e, "send/receive size mismatch"); cp((char *)c->rbuf + (size_t)M.rd[i] * e, J.p[i].s.data(), M.rc[i] * e); } } break;
    case SC_SCATTER: { Contribution &R = J.p[root]; size_t b = R.c.scount * ext(R.c.stype); if (c->rbuf == SIM_IN_PLACE) break; chk(c->rcount * ext(c->rtype) == b, "send/receive size mismatch"); cp(c->rbuf, R.s.data() + me * b, b); } break;
    case SC_SCATTERV: { Contribution &R = J.p[root]; size_t e = ext(R.c.stype); if (c->rbuf == SIM_IN_PLACE) break; chk(c->rcount * ext(c->rtype) == R.sc[me] * e, "send/receive size mismatch"); cp(c->rbuf, R.s.data() + (size_t)R.sd[me] * e, R.sc[me] * e); } break;
    case SC_ALLTOALL: { size_t b = c->rcount * ext(c->rtype); for (int i = 0; i < n; i++) { chk(J.p[i].s.size() == b * n, "send/receive size mismatch"); cp((char *)c->rbuf + i * b, J.p[i].s.data() + me * b, b); } } break;
    case SC_ALLTOALLV: {
        size_t e = ext(c->rtype);
        for (int i = 0; i < n; i++) { Contribution &R = J.p[i]; size_t se = ext(R.c.stype); chk(R.sc[me] * se == M.rc[i] * e, "send/receive size mismatch"); cp((char *)c->rbuf + (size_t)M.rd[i] * e, R.s.data() + (size_t)R.sd[me] * se, R.sc[me] * se); }
    } break;
    case SC_SPLIT: case SC_DUP: {
        if (!J.decided) {
            J.decided = true; J.newids.assign(n, -1);
            std::map<int, std::vector<std::pair<int, int>>> g; for (int i = 0; i < n; i++) { int col = c->kind == SC_DUP ? 0 : J.p[i].c.color; if (col != -32766) g[col].push_back({c->kind == SC_DUP ? i : J.p[i].c.key, i}); }
            for (auto &e : g) { std::stable_sort(e.second.begin(), e.second.end()); std::vector<int> r; for (auto &x : e.second) r.push_back(C.ranks[x.second]); int id = makeComm(r); for (auto &x : e.second) S.comms[comm].inst[key].newids[x.second] = id; }
        }
        c->newid = S.comms[comm].inst[key].newids[me];
    } break;
    default: break;
    }
    CollInst &K = S.comms[comm].inst[key]; if (++K.left == n) S.comms[comm].inst.erase(key);
    return 0;
}

// ---- point to point
static bool matches(const Msg &m, int comm, int dst, int src, int tag) { return !m.taken && m.comm == comm && m.dst == dst && (src == SIM_ANY_SOURCE || m.src == src) && (tag == SIM_ANY_TAG || m.tag == tag); }
static void tryMatch() {
    // receives in posting order; each takes the earliest eligible message; among sources an ANY_SOURCE choice is seeded
    if (S.net.empty() || S.active.empty()) return;
    static std::vector<size_t> cand; static std::vector<char> seen; size_t keep = 0; bool stale = false;
    for (size_t r = 0; r < S.active.size(); r++) {
        Req &q = S.reqs[S.active[r]]; if (q.done || q.freed) { stale = true; continue; }
        cand.clear(); seen.assign(S.spec->nranks, 0);
        for (size_t i = 0; i < S.net.size(); i++) {
            Msg &m = S.net[i]; if (!matches(m, q.comm, q.rank, q.peer, q.tag) || seen[m.src]) continue;
            seen[m.src] = 1; // non-overtaking: only the first matching message of each source counts
            if (m.release <= S.step) cand.push_back(i);
        }
        if (cand.empty()) continue;
        // an earlier posted receive of the same rank that also matches has had its chance above (posting order)
        size_t pick = cand.size() == 1 ? 0 : decide((uint32_t)cand.size(), [&] { return (uint32_t)S.rng.below(cand.size()); });
        Msg &m = S.net[cand[pick]];
        if (m.lazy) { m.data.assign((const char *)m.lazy, m.n); m.lazy = nullptr; }
        if (m.data.size() > q.cap) { char b[200]; snprintf(b, sizeof b, "message truncated: %zu bytes into a %zu byte receive", m.data.size(), q.cap); finishJob(J_MPIERR, b); }
        cp(q.buf, m.data.data(), m.data.size()); q.done = true; q.st = {m.src, m.tag, 0, 0, m.data.size()};
        Comm &C = S.comms[q.comm]; q.st.source = C.idx[m.src];
        if (m.sreq >= 0) S.reqs[m.sreq].done = true;
        m.taken = true; stale = true; S.liveMsgs--; fold(hashBytes(m.data.data(), m.data.size(), m.seq));
    }
    if (stale) { for (int id : S.active) if (!S.reqs[id].done && !S.reqs[id].freed) S.active[keep++] = id; S.active.resize(keep); }
    while (!S.net.empty() && S.net.front().taken) S.net.pop_front();
}
static int postSend(int comm, const void *buf, size_t n, int dst, int tag, int sync, bool blocking) {
    Comm &C = CM(comm); if (dst < 0 || dst >= (int)C.ranks.size()) finishJob(J_MPIERR, "send to invalid rank"); myIdx(C);
    Msg m; m.src = S.cur->rank; m.dst = C.ranks[dst]; m.comm = comm; m.tag = tag; m.n = n; m.seq = S.nextSeq++; m.release = S.step;
    const FaultPlan &F = S.spec->faults;
    if (F.delay > 0) { uint32_t d = decide(F.maxDelay + 1, [&] { return S.rng.p(F.delay) ? 1 + (uint32_t)S.rng.below(F.maxDelay) : 0u; }); if (d) { m.release += d; S.res.counters["fault.msg_delay"]++; S.now += d; } }
    for (auto &o : S.net) if (!o.taken && o.src == m.src && o.dst == m.dst && o.comm == comm && o.release > m.release) m.release = o.release;
    bool rdv = sync == 1 || (sync == 0 && chance(F.rendezvous, "fault.rendezvous_send"));
    Req q; q.kind = 0; q.rank = S.cur->rank; q.comm = comm; q.peer = dst; q.tag = tag; q.buf = nullptr; q.cap = n; q.done = !rdv; q.seq = m.seq; q.st = {dst, tag, 0, 0, n};
    int id = (int)S.reqs.size(); S.reqs.push_back(q);
    if (rdv) { m.sreq = id; m.lazy = buf; } else m.data.assign((const char *)(n ? buf : ""), n); // buffered now, or read when matched
    event(30, m.seq * 1000003ull ^ n); S.net.push_back(m); S.liveMsgs++; S.res.counters["messages"]++; (void)blocking; return id;
}
static int a_send(int comm, const void *buf, size_t n, int dst, int tag, int sync) {
    mpiGuard("send"); yieldPoint(); int id = postSend(comm, buf, n, dst, tag, sync, true); tryMatch();
    if (!S.reqs[id].done) block("MPI_Send", [id] { tryMatch(); return S.reqs[id].done; }); S.reqs[id].freed = true; return 0;
}
static int a_isend(int comm, const void *buf, size_t n, int dst, int tag, int sync) { yieldPoint(); return postSend(comm, buf, n, dst, tag, sync, false); }
static int a_irecv(int comm, void *buf, size_t n, int src, int tag) {
    yieldPoint(); Comm &C = CM(comm); if (src != SIM_ANY_SOURCE && (src < 0 || src >= (int)C.ranks.size())) finishJob(J_MPIERR, "receive from invalid rank"); myIdx(C);
    Req q; q.kind = 1; q.rank = S.cur->rank; q.comm = comm; q.peer = src == SIM_ANY_SOURCE ? src : C.ranks[src]; q.tag = tag; q.buf = buf; q.cap = n; q.seq = S.nextSeq++; q.st = {};
    int id = (int)S.reqs.size(); S.reqs.push_back(q); S.active.push_back(id); event(31, q.seq); return id;
}
static int a_test(int id, int blk, SimStatus *st) {
    yieldPoint(); if (id < 0 || id >= (int)S.reqs.size() || S.reqs[id].freed) finishJob(J_MPIERR, "wait on an invalid request");
    tryMatch();
    if (!S.reqs[id].done) {
        if (!blk) { event(32, 0); return 0; }
        block(S.reqs[id].kind ? "MPI_Recv/Wait(recv)" : "MPI_Wait(send)", [id] { tryMatch(); return S.reqs[id].done; });
    }
    *st = S.reqs[id].st; S.reqs[id].freed = true; event(33, st->count * 64 + st->source); return 1;
}
static int a_waitany(int n, const int *ids, SimStatus *st) {
    yieldPoint(); std::vector<int> v(ids, ids + n); auto any = [v] { tryMatch(); for (int i : v) if (S.reqs[i].done) return true; return false; };
    if (!any()) block("MPI_Waitany", any);
    std::vector<int> ok; for (int i = 0; i < n; i++) if (S.reqs[v[i]].done) ok.push_back(i);
    int k = ok[ok.size() == 1 ? 0 : decide((uint32_t)ok.size(), [&] { return (uint32_t)S.rng.below(ok.size()); })]; *st = S.reqs[v[k]].st; S.reqs[v[k]].freed = true; event(34, k); return k;
}
static void a_reqfree(int id) { if (id >= 0 && id < (int)S.reqs.size()) S.reqs[id].freed = S.reqs[id].kind == 1; }
static int a_probe(int comm, int src, int tag, int blk, SimStatus *st) {
    yieldPoint(); Comm &C = CM(comm); int me = S.cur->rank, from = src == SIM_ANY_SOURCE ? src : C.ranks[src];
    auto look = [=](SimStatus *o) { for (auto &m : S.net) if (matches(m, comm, me, from, tag) && m.release <= S.step) { if (o) *o = {S.comms[comm].idx[m.src], m.tag, 0, 0, m.n}; return true; } return false; };
    if (!look(st)) { if (!blk) { event(35, 0); return 0; } block("MPI_Probe", [=] { return look(nullptr); }); look(st); }
    event(35, 1); return 1;
}

// ================================================================= OpenMP
static void vcJoin(VC &a, const VC &b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static void newBudget(Fiber *f) {
    int m = S.spec->preempt; if (!m) { f->budget = (int64_t)1 << 60; return; }
    uint32_t v = decide(1u << 16, [&] { uint64_t k = 1 + (uint64_t)(-log(1 - S.rng.u()) * m); return (uint32_t)std::min<uint64_t>(k, 65535); });
    f->budget = v ? v : (int64_t)1 << 60;
}
static int a_omp_threads(void) { return S.cur ? (S.cur->team && S.cur->team->n > 1 ? S.ompThreads[S.cur->rank] : S.ompThreads[S.cur->rank]) : 1; }
static int a_tid(void) { return S.cur ? S.cur->tid : 0; }
static int a_team_size(void) { return S.cur && S.cur->team ? S.cur->team->n : 1; }
static int a_level(void) { return S.cur ? S.teamDepth[S.cur->rank] : 0; }
static void a_set_threads(int n) { if (n >= 1 && n <= MAXT) S.ompThreads[S.cur->rank] = n; }
static void teamBarrier(Team *t, const char *why) {
    uint64_t g = t->gen; vcJoin(t->bar, t->vc[S.cur->tid]);
    if (++t->arrived == t->n) {
        for (int i = 0; i < t->n; i++) { t->vc[i] = t->bar; t->vc[i].c[i]++; }
        t->arrived = 0; t->gen++; S.race[t->rank].clear();
    } else block(why, [t, g] { return t->gen != g; });
}
static void a_par(void (*fn)(void *), void *data, unsigned want) {
    Fiber *f = S.cur; int rank = f->rank;
    int n = want ? (int)want : S.ompThreads[rank]; n = std::min(n, MAXT);
    Team *old = f->team; int oldTid = f->tid, oldWs = f->wsIdx, oldS = f->singleIdx;
    if (S.teamDepth[rank] > 0) n = 1; // nested parallelism is off by default
    Team t; t.rank = rank; t.n = n; memset(t.vc, 0, sizeof t.vc); memset(&t.bar, 0, sizeof t.bar); for (int i = 0; i < n; i++) t.vc[i].c[i] = 1;
    bool nested = S.teamDepth[rank] > 0; S.teamDepth[rank]++;
    if (n == 1) { // a team of one: no instrumentation unless we are inside an active team
        f->team = nested ? old : &t; Team *save = f->team; int st = f->tid;
        if (nested) { // keep the outer team's race tracking, but report a one-thread team to the code
            Team one = t; one.n = 1; f->team = &one; f->tid = 0; f->wsIdx = f->singleIdx = 0; SimHot &h = hot(rank); int ip = h.in_par; h.in_par = 0; fn(data); h.in_par = ip; f->tid = st;
        } else { f->tid = 0; f->wsIdx = f->singleIdx = 0; fn(data); }
        (void)save; f->team = old; f->tid = oldTid; f->wsIdx = oldWs; f->singleIdx = oldS; S.teamDepth[rank]--; return;
    }
    S.res.counters["parallel_regions"]++;
    S.race[rank].clear(); S.crit[rank].clear(); S.sync[rank].clear();
    t.m.push_back(f);
    for (int i = 1; i < n; i++) { Fiber *g = newFiber(rank, i, 4u << 20, fn, data); g->team = &t; t.m.push_back(g); newBudget(g); g->events = 0; }
    f->team = &t; f->tid = 0; f->wsIdx = f->singleIdx = 0; newBudget(f); event(40, n);
    hot(rank).in_par = 1;
    yieldPoint();
    fn(data);
    { std::vector<Fiber *> mm = t.m; block("end of parallel region", [mm] { for (size_t i = 1; i < mm.size(); i++) if (mm[i]->state != 2) return false; return true; }); }
    for (int i = 1; i < n; i++) freeFiber(t.m[i]);
    f->team = old; f->tid = oldTid; f->wsIdx = oldWs; f->singleIdx = oldS; S.teamDepth[rank]--; hot(rank).in_par = 0;
}
static void a_barrier(void) { Team *t = S.cur->team; if (!t || t->n == 1) return; event(41); yieldPoint(); teamBarrier(t, "omp barrier"); }
static void a_crit_enter(void *k) {
    int r = S.cur->rank; if (!S.cur->team || S.cur->team->n == 1) return; event(42); yieldPoint();
    auto &e = S.crit[r][k]; while (e.first) block("omp critical", [r, k] { return S.crit[r][k].first == 0; });
    auto &g = S.crit[r][k]; g.first = 1; vcJoin(S.cur->team->vc[S.cur->tid], g.second);
}
static void a_crit_leave(void *k) {
    int r = S.cur->rank; if (!S.cur->team || S.cur->team->n == 1) return; auto &g = S.crit[r][k]; VC &v = S.cur->team->vc[S.cur->tid]; g.second = v; v.c[S.cur->tid]++; g.first = 0; event(43); yieldPoint();
}
static int wsTake(Team *t, int idx, long *lo, long *hi) {
    WSInst &w = t->ws[idx]; bool up = w.incr > 0; if (up ? w.next >= w.end : w.next <= w.end) return 0;
    long step = w.chunk * w.incr; *lo = w.next; long e = w.next + step; if (up ? e > w.end : e < w.end) e = w.end; *hi = e; w.next = e; return 1;
}
static int a_ws_start(long s, long e, long i, long chunk, int, long *lo, long *hi, void **, size_t) {
    static Team solo[64]; Fiber *f = S.cur; Team *t = f->team; if (!t) { t = &solo[f->rank]; t->n = 1; t->rank = f->rank; f->team = t; }
    if (chunk < 1) chunk = 1; if (i == 0) i = 1;
    event(44); if (t->n > 1) yieldPoint();
    int idx = f->wsIdx++; while ((int)t->ws.size() <= idx) t->ws.push_back({0, 0, 1, 0}); WSInst &w = t->ws[idx]; if (w.chunk == 0) w = {s, e, i, chunk};
    if (!lo) return 0; return wsTake(t, idx, lo, hi);
}
static int a_ws_next(long *lo, long *hi) { Fiber *f = S.cur; if (f->team->n > 1) { event(45); yieldPoint(); } return wsTake(f->team, f->wsIdx - 1, lo, hi); }
static void a_ws_end(int nowait) { Team *t = S.cur->team; if (t && t->n > 1 && !nowait) a_barrier(); }
static int a_single(void) { Fiber *f = S.cur; Team *t = f->team; if (!t || t->n == 1) return 1; event(46); yieldPoint(); int k = f->singleIdx++; if (t->singles <= k) { t->singles = k + 1; return 1; } return 0; }
static char g_ord; static void a_ord_s(void) { a_crit_enter(&g_ord); } static void a_ord_e(void) { a_crit_leave(&g_ord); }
static void a_wait_word(const volatile unsigned char *p, unsigned char busy) {
    (void)busy; bool par = S.cur->team && S.cur->team->n > 1;
    if (!par) finishJob(J_DEADLOCK, "self-deadlock on a lock"); block("lock", [p] { return *p == 0; });
}
static void acqrel(const void *p, bool acq, bool rel) {
    Team *t = S.cur->team; if (!t || t->n == 1) return; VC &v = t->vc[S.cur->tid]; VC &s = S.sync[S.cur->rank][p];
    if (acq) vcJoin(v, s); if (rel) { vcJoin(s, v); v.c[S.cur->tid]++; }
}
static void a_acq(const void *p) { acqrel(p, true, false); }
static void a_rel(const void *p) { acqrel(p, false, true); }
static std::string symPc(const void *pc) {
    Dl_info d; char b[400]; if (dladdr(pc, &d) && d.dli_sname) snprintf(b, sizeof b, "%s+0x%lx", d.dli_sname, (long)((const char *)pc - (const char *)d.dli_saddr));
    else if (dladdr(pc, &d) && d.dli_fname) snprintf(b, sizeof b, "%s+0x%lx", strrchr(d.dli_fname, '/') ? strrchr(d.dli_fname, '/') + 1 : d.dli_fname, (long)((const char *)pc - (const char *)d.dli_fbase)); else snprintf(b, sizeof b, "?");
    return b;
}
static void a_access(const void *addr, size_t size, int wr, void *pc) {
    Fiber *f = S.cur; Team *t = f->team; if (!t || t->n == 1) return;
    S.res.counters["accesses"]++;
    if (S.spec->races) {
        int tid = f->tid; uint32_t clk = t->vc[tid].c[tid]; RaceMap &R = S.race[f->rank]; uintptr_t a = (uintptr_t)addr, end = a + size;
        // a thread's own stack is private unless its address escapes; stacks of other fibers are checked like any memory
        while (a < end) {
            uintptr_t w = a >> 3; unsigned off = a & 7; unsigned len = (unsigned)std::min<uintptr_t>(8 - off, end - a); uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
            Cell &c = R.get(w); int slot = -1, freeSlot = -1;
            for (int i = 0; i < 4; i++) {
                auto &e = c.e[i]; if (!e.n) { if (freeSlot < 0) freeSlot = i; continue; }
                if (e.tid == tid) { if (e.mask == mask && e.wr == wr) slot = i; continue; }
                if ((e.mask & mask) && (wr || e.wr) && e.clk > t->vc[tid].c[e.tid]) {
                    char b[1200]; snprintf(b, sizeof b, "data race on rank %d: thread %d %s %zu bytes in %s vs thread %d %s in %s", f->rank, tid, wr ? "writes" : "reads", size, symPc(pc).c_str(), e.tid, e.wr ? "wrote" : "read", symPc(e.pc).c_str()); finishJob(J_RACE, b);
                }
            }
            if (slot < 0) slot = freeSlot; if (slot < 0) { // evict: prefer an entry of this thread, else round robin
                for (int i = 0; i < 4; i++) if (c.e[i].tid == tid) slot = i; if (slot < 0) slot = (int)(clk + w) & 3;
            }
            c.e[slot] = {clk, (uint8_t)tid, mask, (uint8_t)wr, 1, pc}; a += len;
        }
    }
    if (--f->budget <= 0) { newBudget(f); S.res.counters["preemptions"]++; event(47); yieldPoint(); }
}
static void a_atomic(const void *addr, size_t size, void *pc) {
    Fiber *f = S.cur; Team *t = f->team; if (!t || t->n == 1) return; acqrel(addr, true, true);
    if (--f->budget <= 0) { newBudget(f); S.res.counters["preemptions"]++; event(47); yieldPoint(); }
}
static void a_fresh(const void *p, size_t n) {
    if (!S.cur || !S.spec->races) return; RaceMap &R = S.race[S.cur->rank]; if (n > 65536) { if (n > (1u << 20)) { R.clear(); return; } }
    for (uintptr_t w = (uintptr_t)p >> 3; w <= ((uintptr_t)p + n) >> 3; w++) { Cell *c = R.find(w); if (c) memset(c->e, 0, sizeof c->e); }
}
static void a_budget(void) { if (S.cur) finishJob(J_HANG, "no progress: a rank used up its instruction budget without communicating"); }

// ================================================================= files
static OpenFile *FD(int fd) { int i = fd - SIM_FD_BASE; if (i < 0 || i >= (int)S.fds.size() || !S.fds[i].open) return nullptr; return &S.fds[i]; }
static void logFs(FsOp o) { o.rank = S.cur->rank; o.step = S.step; if (S.spec->fsLog) S.res.fslog.push_back(std::move(o)); }
static bool affects(const std::string &p) { const auto &o = S.spec->faults.onlyPath; return o.empty() || p.find(o) != std::string::npos; }
static void ioFailed() { if (!S.res.notes.count("io_failed")) S.res.notes["io_failed"] = (double)S.step; } // when the first fault hit a file
static int a_open(const char *path, int fl, int) {
    yieldPoint(); std::string p = normPath(path); bool w = (fl & O_ACCMODE) != O_RDONLY; event(50, hashStr(p)); S.res.counters["fs.open"]++;
    auto it = S.fs.names.find(p); bool exists = it != S.fs.names.end();
    if (exists && it->second->dir) return w ? -EISDIR : -EISDIR;
    if (w && affects(p) && chance(S.spec->faults.openErr, "fault.open_error")) { ioFailed(); return -ENOSPC; }
    if (!exists) {
        if (!(fl & O_CREAT)) return -ENOENT; if (!S.fs.isDir(Fs::parent(p))) return -ENOENT;
    } else if ((fl & O_CREAT) && (fl & O_EXCL)) return -EEXIST;
    auto ino = exists ? it->second : S.fs.mk(p, false);
    if (w) { FsOp o; o.k = FsOp::CREATE; o.a = p; o.ino = ino->id; logFs(o); }
    if (w && (fl & O_TRUNC) && exists && !ino->data.empty()) { S.diskUsed -= (long)ino->data.size(); ino->data.clear(); FsOp o; o.k = FsOp::TRUNC; o.ino = ino->id; o.off = 0; o.b = p; logFs(o); }
    OpenFile f; f.ino = ino; f.path = p; f.flags = fl; f.rank = S.cur->rank; S.fds.push_back(f); return SIM_FD_BASE + (int)S.fds.size() - 1;
}
static int a_close(int fd) { OpenFile *f = FD(fd); if (!f) return -1; f->open = false; event(51); FsOp o; o.k = FsOp::CLOSE; o.ino = f->ino->id; o.b = f->path; logFs(o); return 0; }
static ssize_t a_read(int fd, void *b, size_t n) {
    OpenFile *f = FD(fd); if (!f) return -EBADF; auto &d = f->ino->data; if (f->pos >= d.size()) return 0; size_t k = std::min(n, d.size() - f->pos); memcpy(b, d.data() + f->pos, k); f->pos += k; event(52, k); return (ssize_t)k;
}
static ssize_t a_write(int fd, const void *b, size_t n) {
    yieldPoint(); OpenFile *f = FD(fd); if (!f) return -EBADF; S.res.counters["fs.write"]++;
    const FaultPlan &F = S.spec->faults; bool aff = affects(f->path);
    if (aff && chance(F.eintr, "fault.eintr")) return -EINTR;
    if (aff && chance(F.ioErr, "fault.io_error")) { ioFailed(); return -EIO; }
    if (n > 1 && aff && F.shortWrite > 0) { uint32_t k = decide(9, [&] { return S.rng.p(F.shortWrite) ? 1 + (uint32_t)S.rng.below(8) : 0u; }); if (k) { n = std::max<size_t>(1, n * k / 9); S.res.counters["fault.short_write"]++; } }
    if (f->flags & O_APPEND) f->pos = f->ino->data.size();
    size_t grow = f->pos + n > f->ino->data.size() ? f->pos + n - f->ino->data.size() : 0;
    if (F.diskBytes >= 0 && aff && S.diskUsed + (long)grow > F.diskBytes) {
        long room = F.diskBytes - S.diskUsed; S.res.counters["fault.disk_full"]++; ioFailed();
        if (room <= 0 || (long)n <= (long)grow - room) return -ENOSPC; n -= grow - room; grow = room;
    }
    S.diskUsed += (long)grow; auto &d = f->ino->data; if (d.size() < f->pos + n) d.resize(f->pos + n); memcpy(&d[f->pos], b, n);
    FsOp o; o.k = FsOp::WRITE; o.ino = f->ino->id; o.off = f->pos; if (S.spec->fsLog) o.a.assign((const char *)b, n); o.b = f->path; logFs(o);
    f->pos += n; event(53, hashBytes(b, n)); return (ssize_t)n;
}
static off_t a_seek(int fd, off_t o, int wh) { OpenFile *f = FD(fd); if (!f) return -EBADF; int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->ino->data.size(); if (b + o < 0) return -EINVAL; f->pos = (uint64_t)(b + o); return (off_t)f->pos; }
static void fillStat(const Inode &i, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = i.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644); st->st_size = (off_t)i.data.size(); st->st_ino = (ino_t)i.id; st->st_nlink = 1; st->st_blksize = 4096; }
static int a_stat(const char *p, struct stat *st) { auto it = S.fs.names.find(normPath(p)); if (it == S.fs.names.end()) return -ENOENT; fillStat(*it->second, st); return 0; }
static int a_fstat(int fd, struct stat *st) { OpenFile *f = FD(fd); if (!f) return -EBADF; fillStat(*f->ino, st); return 0; }
static int a_mkdir(const char *path) {
    yieldPoint(); std::string p = normPath(path); event(54, hashStr(p)); if (S.fs.names.count(p)) return -EEXIST; if (!S.fs.isDir(Fs::parent(p))) return -ENOENT; S.fs.mk(p, true); FsOp o; o.k = FsOp::MKDIR; o.a = p; logFs(o); return 0;
}
static int a_rename(const char *a, const char *b) {
    yieldPoint(); std::string p = normPath(a), q = normPath(b); event(55, hashStr(p) ^ hashStr(q)); auto it = S.fs.names.find(p); if (it == S.fs.names.end() || !S.fs.isDir(Fs::parent(q))) return -ENOENT; if (S.fs.isDir(q)) return -EISDIR;
    auto n = it->second; auto old = S.fs.names.find(q); if (old != S.fs.names.end()) S.diskUsed -= (long)old->second->data.size(); S.fs.names.erase(p); S.fs.names[q] = n; FsOp o; o.k = FsOp::RENAME; o.a = p; o.b = q; logFs(o); return 0;
}
static int a_unlink(const char *a, int dir) {
    yieldPoint(); std::string p = normPath(a); event(56, hashStr(p)); auto it = S.fs.names.find(p); if (it == S.fs.names.end()) return -ENOENT; if (it->second->dir != (dir != 0)) return dir ? -ENOTDIR : -EISDIR;
    S.diskUsed -= (long)it->second->data.size(); S.fs.names.erase(it); FsOp o; o.k = FsOp::UNLINK; o.a = p; logFs(o); return 0;
}
static int a_sync(int fd) { OpenFile *f = FD(fd); if (!f) return -EBADF; FsOp o; o.k = FsOp::SYNC; o.ino = f->ino->id; o.b = f->path; logFs(o); return 0; }
static int a_trunc(int fd, off_t n) { OpenFile *f = FD(fd); if (!f) return -EBADF; f->ino->data.resize(n); FsOp o; o.k = FsOp::TRUNC; o.ino = f->ino->id; o.off = n; o.b = f->path; logFs(o); return 0; }
static void a_console(int, const void *b, size_t n) { static bool on = getenv("SIM_CONSOLE"); if (on) { static int fd = open("/tmp/sim_console.txt", O_WRONLY | O_CREAT | O_APPEND, 0644); (void)!write(fd, b, n); } }

// ================================================================= misc api
static uint64_t a_now(void) { return S.now + (S.cur ? S.skew[S.cur->rank] : 0); }
static void a_adv(uint64_t n) { S.now += n; }
static void a_exit(int code, const char *how) { char b[600]; snprintf(b, sizeof b, "rank %d called %s (code %d)", S.cur ? S.cur->rank : -1, how, code); finishJob(J_EXIT, b, code); }
static uint64_t a_entropy(void) { uint64_t v = S.ent.next() >> 16; return v; }
static void a_yield(int w) { event(60 + w); yieldPoint(); }
static void a_emit(const char *tag, const void *p, size_t n) {
    S.res.rec.push_back({S.cur->rank, tag, std::string((const char *)p, n), S.step}); fold(hashBytes(p, n, hashStr(tag)));
}
static void a_fail(const char *cls, const char *msg) { S.res.cls = cls; finishJob(J_FAIL, msg); }
static void a_note(const char *k, double v) { S.res.notes[k] = v; }
static long a_pick(long n) { return n <= 1 ? 0 : (long)decide((uint32_t)n, [&] { return (uint32_t)S.rng.below((uint64_t)n); }); }
static int a_alloc_fail(size_t) { return 0; }

// ================================================================= running one job in a child
static const char *g_entry;
static void rankMain(void *p) { int r = (int)(intptr_t)p; g_libs[r].entry(g_entry); }
template <class T> static void putv(std::string &o, const T &v) { o.append((const char *)&v, sizeof v); }
static void puts_(std::string &o, const std::string &s) { putv(o, (uint64_t)s.size()); o += s; }
struct Rd { const char *p, *e; bool bad = false; template <class T> T v() { T x{}; if (e - p < (long)sizeof x) { bad = true; return x; } memcpy(&x, p, sizeof x); p += sizeof x; return x; } std::string s() { uint64_t n = v<uint64_t>(); if (bad || (uint64_t)(e - p) < n) { bad = true; return ""; } std::string r(p, n); p += n; return r; } };
static std::string pack(const JobResult &r, bool log) {
    std::string o; putv(o, r.status); puts_(o, r.message); puts_(o, r.cls); putv(o, r.code); putv(o, r.rank); putv(o, r.decisions); putv(o, r.hash); putv(o, r.orderHash); putv(o, r.steps); putv(o, r.vtime);
    putv(o, (uint64_t)r.rec.size()); for (auto &x : r.rec) { putv(o, x.rank); puts_(o, x.tag); puts_(o, x.data); putv(o, x.step); }
    putv(o, (uint64_t)r.fs.files.size()); for (auto &f : r.fs.files) { puts_(o, f.first); puts_(o, f.second); } putv(o, (uint64_t)r.fs.dirs.size()); for (auto &d : r.fs.dirs) puts_(o, d);
    putv(o, (uint64_t)(log ? r.fslog.size() : 0)); if (log) for (auto &f : r.fslog) { putv(o, (int)f.k); putv(o, f.rank); putv(o, f.ino); putv(o, f.off); puts_(o, f.a); puts_(o, f.b); putv(o, f.step); }
    putv(o, (uint64_t)r.trace.size()); o.append((const char *)r.trace.data(), r.trace.size() * 8);
    putv(o, (uint64_t)r.counters.size()); for (auto &c : r.counters) { puts_(o, c.first); putv(o, c.second); } putv(o, (uint64_t)r.notes.size()); for (auto &c : r.notes) { puts_(o, c.first); putv(o, c.second); }
    return o;
}
static bool unpack(const std::string &in, JobResult &r) {
    Rd d{in.data(), in.data() + in.size()}; r.status = d.v<int>(); r.message = d.s(); r.cls = d.s(); r.code = d.v<int>(); r.rank = d.v<int>(); r.decisions = d.v<uint64_t>(); r.hash = d.v<uint64_t>(); r.orderHash = d.v<uint64_t>(); r.steps = d.v<uint64_t>(); r.vtime = d.v<uint64_t>();
    uint64_t n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { Record x; x.rank = d.v<int>(); x.tag = d.s(); x.data = d.s(); x.step = d.v<uint64_t>(); r.rec.push_back(x); }
    n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { auto a = d.s(); r.fs.files[a] = d.s(); } n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) r.fs.dirs.insert(d.s());
    n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { FsOp f; f.k = (FsOp::K)d.v<int>(); f.rank = d.v<int>(); f.ino = d.v<int>(); f.off = d.v<uint64_t>(); f.a = d.s(); f.b = d.s(); f.step = d.v<uint64_t>(); r.fslog.push_back(f); }
    n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { uint32_t a = d.v<uint32_t>(), b = d.v<uint32_t>(); r.trace.push_back({a, b}); }
    n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { auto a = d.s(); r.counters[a] = d.v<double>(); } n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { auto a = d.s(); r.notes[a] = d.v<double>(); }
    return !d.bad;
}
static char g_altstack[65536];
static void onSignal(int sig, siginfo_t *si, void *uc) { // a crash of the code under test: report and leave
    JobResult &R = S.res; R.status = J_SIGNAL; R.code = sig; R.rank = S.cur ? S.cur->rank : -1;
    char b[200]; snprintf(b, sizeof b, "%s on rank %d", sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGXCPU || sig == SIGALRM || sig == SIGVTALRM ? "CPU budget exhausted" : "fatal signal", R.rank);
    if (getenv("SIM_BT")) { FILE *bt = fopen("/tmp/sim_bt.txt", "a"); // debugging aid
        ucontext_t *u = (ucontext_t *)uc; uintptr_t pc = u->uc_mcontext.gregs[REG_RIP], *bp = (uintptr_t *)u->uc_mcontext.gregs[REG_RSP]; Dl_info di; int shown = 0;
        auto show = [&](uintptr_t a) { if (dladdr((void *)a, &di) && di.dli_fname && di.dli_sname) { fprintf(bt, "  %s+%lx (%s)\n", di.dli_sname, a - (uintptr_t)di.dli_saddr, strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname); shown++; } };
        fprintf(bt, "%s addr %p\n", b, si->si_addr); show(pc); for (int i = 0; i < 400 && shown < 25; i++) show(bp[i]); fclose(bt);
    }
    // only async-signal-safe work here: the parent needs just the verdict
    struct { int magic, status, code, rank; char msg[200]; } m = {0x51671a1, (sig == SIGXCPU || sig == SIGVTALRM || sig == SIGALRM) ? J_HANG : J_SIGNAL, sig, R.rank, {}}; memcpy(m.msg, b, 200);
    uint64_t len = sizeof m; (void)!write(S.pipefd, "R", 1); (void)!write(S.pipefd, &len, 8); (void)!write(S.pipefd, &m, sizeof m); _exit(0);
}
static void childRun(const JobSpec &spec) {
    S.spec = &spec; int n = spec.nranks; S.rng = Rng(mix(spec.seed, 11)); S.ent = Rng(mix(spec.entropySeed, 13));
    for (auto &p : spec.forced) S.forced[p.first] = p.second;
    S.crit.resize(n); S.sync.resize(n); if (spec.races) S.race.resize(n); else S.race = std::vector<RaceMap>(n);
    S.ompThreads.assign(n, spec.nthreads); S.teamDepth.assign(n, 0); S.dead.assign(n, 0); S.finalized.assign(n, 0); S.skew.assign(n, 0); S.fs.load(spec.fs);
    for (auto &f : spec.fs.files) S.diskUsed += (long)f.second.size();
    std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i);
    S.nextComm = 1; makeComm(all); // world = 1
    for (int i = 0; i < n; i++) { if (i == 0) S.nextComm = 2; }
    // MPI_COMM_SELF is id 2 for everybody: give it per-rank semantics through a one-rank view
    SimApi &a = S.api; a.nranks = n;
    a.omp_threads = a_omp_threads; a.comm_rank = [](int c) { return c == 2 ? 0 : a_comm_rank(c); }; a.comm_size = [](int c) { return c == 2 ? 1 : a_comm_size(c); };
    a.comm_world_rank = [](int c, int r) { return c == 2 ? S.cur->rank : a_comm_world_rank(c, r); };
    // private self communicators start at 100000 + rank
    for (int i = 0; i < n; i++) { Comm c; c.id = 100000 + i; c.ranks = {i}; c.idx[i] = 0; c.seq.assign(1, 0); S.comms[c.id] = c; } S.nextComm = 3;
#define SELF(c) ((c) == 2 ? 100000 + S.cur->rank : (c))
    a.coll = [](int c, SimColl *k) { return a_coll(SELF(c), k); };
    a.send = [](int c, const void *b, size_t z, int d, int t, int s) { return a_send(SELF(c), b, z, d, t, s); };
    a.isend = [](int c, const void *b, size_t z, int d, int t, int s) { return a_isend(SELF(c), b, z, d, t, s); };
    a.irecv = [](int c, void *b, size_t z, int s, int t) { return a_irecv(SELF(c), b, z, s, t); };
    a.probe = [](int c, int s, int t, int bl, SimStatus *st) { return a_probe(SELF(c), s, t, bl, st); };
    a.test = a_test; a.waitany = a_waitany; a.reqfree = a_reqfree; a.mpi_error = a_mpi_error; a.mpi_abort = a_mpi_abort; a.mpi_mark = a_mpi_mark;
    a.now_ns = a_now; a.advance_ns = a_adv; a.par = a_par; a.tid = a_tid; a.team_size = a_team_size; a.level = a_level; a.barrier = a_barrier; a.crit_enter = a_crit_enter; a.crit_leave = a_crit_leave;
    a.ws_start = a_ws_start; a.ws_next = a_ws_next; a.ws_end = a_ws_end; a.single_start = a_single; a.ordered_start = a_ord_s; a.ordered_end = a_ord_e; a.set_threads = a_set_threads; a.wait_word = a_wait_word;
    a.access = a_access; a.atomic = a_atomic; a.acq = a_acq; a.rel = a_rel; a.fresh = a_fresh; a.budget = a_budget;
    a.f_open = a_open; a.f_close = a_close; a.f_read = a_read; a.f_write = a_write; a.f_seek = a_seek; a.f_stat = a_stat; a.f_fstat = a_fstat; a.f_mkdir = a_mkdir; a.f_rename = a_rename; a.f_unlink = a_unlink; a.f_sync = a_sync; a.f_trunc = a_trunc; a.console = a_console;
    a.proc_exit = a_exit; a.entropy = a_entropy; a.yield = a_yield; a.caseptr = spec.blob.data(); a.emit = a_emit; a.fail = a_fail; a.note = a_note; a.pick = a_pick; a.alloc_fail = a_alloc_fail;
    if (spec.sched == 1) { for (int i = 0; i < 6; i++) S.changeAt.insert(1 + S.rng.below(i < 3 ? 300 : 20000)); }
    S.starve = (int)S.rng.below(n); g_entry = spec.entry.c_str();
    for (int i = 0; i < n; i++) {
        RankLib &L = g_libs[i]; void *eh = nullptr; L.attach(&S.api, i, &L.hot, &eh, &L.err); *(void **)&L.ehfn = eh; L.hot->poison = spec.poison; L.hot->fuel = spec.fuel; L.hot->in_par = 0;
        newFiber(i, 0, 16u << 20, rankMain, (void *)(intptr_t)i);
    }
    schedLoop();
    for (int i = 0; i < n; i++) g_libs[i].hot->poison = -1;
    S.res.fs = S.fs.image(); S.res.decisions = S.nDec; S.res.steps = S.step; S.res.vtime = S.now;
    if (S.res.status == J_OK) { bool anyDead = false; for (char d : S.dead) if (d) anyDead = true; if (anyDead) S.res.status = J_KILLED; }
    S.res.notes["unreceived"] = S.liveMsgs;
}
static std::string packSpec(const JobSpec &s) {
    std::string o; puts_(o, s.entry); putv(o, s.nranks); putv(o, s.nthreads); putv(o, s.sched); putv(o, s.preempt); putv(o, s.races); putv(o, s.poison); putv(o, s.seed); putv(o, s.entropySeed); puts_(o, s.blob);
    putv(o, (uint64_t)s.fs.files.size()); for (auto &f : s.fs.files) { puts_(o, f.first); puts_(o, f.second); } putv(o, (uint64_t)s.fs.dirs.size()); for (auto &d : s.fs.dirs) puts_(o, d);
    const FaultPlan &f = s.faults; putv(o, s.fsLog); putv(o, f.shortWrite); putv(o, f.eintr); putv(o, f.ioErr); putv(o, f.openErr); putv(o, f.diskBytes); putv(o, f.delay); putv(o, f.maxDelay); putv(o, f.rendezvous); putv(o, f.killRank); putv(o, f.killAt); putv(o, f.clockJump); puts_(o, f.onlyPath);
    putv(o, s.maxSteps); putv(o, s.fuel); putv(o, s.cpuSeconds); putv(o, s.replay); putv(o, (bool)(s.keepConsole || g_verbose || getenv("SIM_CONSOLE"))); putv(o, (uint64_t)s.forced.size()); for (auto &x : s.forced) { putv(o, x.first); putv(o, x.second); } return o;
}
static bool unpackSpec(const std::string &in, JobSpec &s) {
    Rd d{in.data(), in.data() + in.size()}; auto get = [&](auto &x) { x = d.v<std::decay_t<decltype(x)>>(); }; s.entry = d.s(); get(s.nranks); get(s.nthreads); get(s.sched); get(s.preempt); get(s.races); get(s.poison); get(s.seed); get(s.entropySeed); s.blob = d.s();
    uint64_t n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { auto a = d.s(); s.fs.files[a] = d.s(); } n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) s.fs.dirs.insert(d.s());
    FaultPlan &f = s.faults; get(s.fsLog); get(f.shortWrite); get(f.eintr); get(f.ioErr); get(f.openErr); get(f.diskBytes); get(f.delay); get(f.maxDelay); get(f.rendezvous); get(f.killRank); get(f.killAt); get(f.clockJump); f.onlyPath = d.s();
    get(s.maxSteps); get(s.fuel); get(s.cpuSeconds); get(s.replay); get(s.keepConsole); n = d.v<uint64_t>(); for (uint64_t i = 0; i < n && !d.bad; i++) { uint32_t a = d.v<uint32_t>(), b = d.v<uint32_t>(); s.forced.push_back({a, b}); } return !d.bad;
}
// Every job runs in a fork of a process that has done nothing but load the libraries ("zygote"), so that the addresses a
// run sees do not depend on what the calling process did before. root zygote -> one zygote per calling process -> jobs.
static bool rdAll(int fd, void *b, size_t n) { char *p = (char *)b; while (n) { ssize_t k = read(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
static bool wrAll(int fd, const void *b, size_t n) { const char *p = (const char *)b; while (n) { ssize_t k = write(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
static int g_rootFd = -1, g_zfd = -1; static pid_t g_zowner = 0; static int g_count = 0; static std::string g_loadErr;
int simLoaded() { return g_count; }
static void jobChild(int fd) { // spec in, result out
    uint64_t n = 0; if (!rdAll(fd, &n, 8)) _exit(0); std::string in(n, 0); if (!rdAll(fd, &in[0], n)) _exit(0); JobSpec spec; if (!unpackSpec(in, spec)) _exit(3); S.pipefd = fd;
    if (!spec.keepConsole) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); close(n); }
    stack_t ss = {}; ss.ss_sp = g_altstack; ss.ss_size = sizeof g_altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    struct rlimit rl = {(rlim_t)spec.cpuSeconds, (rlim_t)spec.cpuSeconds + 5}; setrlimit(RLIMIT_CPU, &rl); struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    childRun(spec); std::string o = pack(S.res, spec.fsLog); uint64_t len = o.size(); wrAll(fd, "R", 1); wrAll(fd, &len, 8); wrAll(fd, o.data(), o.size()); _exit(0);
}
static void zygoteLoop(int fd) { // allocates nothing between jobs
    for (;;) {
        struct pollfd p = {fd, POLLIN, 0}; if (poll(&p, 1, -1) < 0 && errno == EINTR) continue; char c; if (recv(fd, &c, 1, MSG_PEEK) <= 0) _exit(0);
        pid_t pid = fork(); if (pid == 0) jobChild(fd); int st = -1; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        char t[5] = {'E'}; memcpy(t + 1, &st, 4); if (!wrAll(fd, t, 5)) _exit(0);
    }
}
static void rootLoop(int fd) {
    static char lib[4096]; uint32_t hd[2]; if (!rdAll(fd, hd, 8) || hd[1] >= sizeof lib || !rdAll(fd, lib, hd[1])) _exit(0); std::string err; bool ok = loadLibs(lib, (int)hd[0], err); err.resize(200); char r = ok; wrAll(fd, &r, 1); wrAll(fd, err.data(), 200); if (!ok) _exit(0);
    signal(SIGCHLD, SIG_IGN);
    for (;;) { // one descriptor per message: the job channel of a new zygote
        char c, cb[CMSG_SPACE(sizeof(int))]; struct iovec io = {&c, 1}; struct msghdr m = {}; m.msg_iov = &io; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb; ssize_t k = recvmsg(fd, &m, 0); if (k < 0 && errno == EINTR) continue; if (k <= 0) _exit(0);
        struct cmsghdr *h = CMSG_FIRSTHDR(&m); if (!h) continue; int nfd; memcpy(&nfd, CMSG_DATA(h), sizeof nfd);
        if (fork() == 0) { signal(SIGCHLD, SIG_DFL); dup2(nfd, 200); close(nfd); close(fd); zygoteLoop(200); } close(nfd);
    }
}
void simStart() { int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) return; if (fork() == 0) { dup2(sv[1], 199); close(sv[0]); close(sv[1]); rootLoop(199); _exit(0); } close(sv[1]); g_rootFd = sv[0]; }
bool simLoad(const std::string &lib, int nranks, std::string &err) {
    uint32_t hd[2] = {(uint32_t)nranks, (uint32_t)lib.size() + 1}; char ok = 0, b[200] = {}; if (g_rootFd < 0 || !wrAll(g_rootFd, hd, 8) || !wrAll(g_rootFd, lib.c_str(), lib.size() + 1) || !rdAll(g_rootFd, &ok, 1) || !rdAll(g_rootFd, b, 200)) { err = "the process that loads the rank libraries died"; return false; }
    if (!ok) { err = std::string(b, strnlen(b, 200)); return false; } g_count = nranks; return true;
}
static bool zygote() {
    if (g_zfd >= 0 && g_zowner == getpid()) return true; if (g_zfd >= 0) { close(g_zfd); g_zfd = -1; }
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) return false; int sz = 1 << 20; for (int x : sv) { setsockopt(x, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); setsockopt(x, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
    char c = 'Z', cb[CMSG_SPACE(sizeof(int))] = {}; struct iovec io = {&c, 1}; struct msghdr m = {}; m.msg_iov = &io; m.msg_iovlen = 1; m.msg_control = cb; m.msg_controllen = sizeof cb; struct cmsghdr *h = CMSG_FIRSTHDR(&m); h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int)); memcpy(CMSG_DATA(h), &sv[1], sizeof(int));
    bool ok = sendmsg(g_rootFd, &m, 0) == 1; close(sv[1]); if (!ok) { close(sv[0]); return false; } g_zfd = sv[0]; g_zowner = getpid(); return true;
}
JobResult runJob(const JobSpec &spec) {
    JobResult r; auto trouble = [&](const char *m) { r.status = J_HARNESS; r.message = m; if (g_zfd >= 0) close(g_zfd); g_zfd = -1; return r; };
    if (spec.nranks > simLoaded()) { r.status = J_HARNESS; r.message = "not enough ranks loaded"; return r; } if (!zygote()) return trouble("no zygote");
    std::string o = packSpec(spec); uint64_t n = o.size(); if (!wrAll(g_zfd, &n, 8) || !wrAll(g_zfd, o.data(), n)) return trouble("zygote gone");
    char k = 0; std::string in; bool got = false; if (!rdAll(g_zfd, &k, 1)) return trouble("zygote gone");
    if (k == 'R') { uint64_t len = 0; if (!rdAll(g_zfd, &len, 8) || len > (1ull << 33)) return trouble("bad job result"); in.resize(len); if (!rdAll(g_zfd, &in[0], len) || !rdAll(g_zfd, &k, 1)) return trouble("zygote gone"); got = true; }
    int st = 0; if (k != 'E' || !rdAll(g_zfd, &st, 4)) return trouble("bad job trailer");
    if (!got) { r.status = J_SIGNAL; r.code = WIFSIGNALED(st) ? WTERMSIG(st) : -1; r.message = r.code == SIGKILL || r.code == SIGXCPU ? "CPU budget exhausted" : "simulated process died"; if (r.code == SIGXCPU || r.code == SIGKILL) r.status = J_HANG; return r; }
    struct M { int magic, status, code, rank; char msg[200]; };
    if (in.size() == sizeof(M)) { M m; memcpy(&m, in.data(), sizeof m); if (m.magic == 0x51671a1) { r.status = m.status; r.code = m.code; r.rank = m.rank; r.message = m.msg; return r; } }
    if (!unpack(in, r)) { r.status = J_HARNESS; r.message = "bad job result"; }
    return r;
}
