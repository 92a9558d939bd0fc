// Drivers around the real SylinderSystem.
#include "common.hpp"
#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"
#include "spdlog/sinks/base_sink.h"

static void put3(std::vector<double> &o, const double *v, int n = 3) { o.insert(o.end(), v, v + n); }
static void emitSystem(SylinderSystem &sys, const char *tag) {
    const auto &c = sys.getContainer(); int n = c.getNumberOfParticleLocal(); std::vector<double> o;
    for (int i = 0; i < n; i++) {
        const auto &s = c[i];
        double h[11] = {(double)s.gid, (double)s.globalIndex, (double)s.rank, (double)s.group, (double)s.isImmovable, s.radius, s.radiusCollision, s.length, s.lengthCollision, s.colBuf, s.sepmin};
        put3(o, h, 11); put3(o, s.pos); put3(o, s.orientation, 4);
        put3(o, s.vel); put3(o, s.omega); put3(o, s.velCol); put3(o, s.omegaCol); put3(o, s.velBi); put3(o, s.omegaBi); put3(o, s.velNonB); put3(o, s.omegaNonB);
        put3(o, s.velBrown); put3(o, s.omegaBrown); put3(o, s.force); put3(o, s.torque); put3(o, s.forceCol); put3(o, s.torqueCol); put3(o, s.forceBi); put3(o, s.torqueBi); put3(o, s.forceNonB); put3(o, s.torqueNonB);
    }
    emitv(tag, o);
}
static void emitBlocks(const ConstraintBlockPool &pool, const char *tag) {
    std::vector<double> o;
    for (auto &q : pool) for (auto &b : q) {
        double h[10] = {b.delta0, b.gamma, b.gammaLB, (double)b.gidI, (double)b.gidJ, (double)b.globalIndexI, (double)b.globalIndexJ, (double)b.oneSide, (double)b.bilateral, b.kappa};
        put3(o, h, 10); put3(o, b.normI); put3(o, b.normJ); put3(o, b.posI); put3(o, b.posJ); put3(o, b.labI); put3(o, b.labJ); put3(o, b.stress, 9);
    }
    emitv(tag, o);
}
static void emitLinks(SylinderSystem &sys) {
    std::vector<int> o; for (auto &p : sys.getLinkMap()) { o.push_back(p.first); o.push_back(p.second); } emitv("links", o);
    o.clear(); for (auto &p : sys.getLinkReverseMap()) { o.push_back(p.first); o.push_back(p.second); } emitv("rlinks", o);
}

// log capture: the program reports its statistics through the log
struct CapSink : spdlog::sinks::base_sink<std::mutex> {
    std::vector<std::string> lines;
    void sink_it_(const spdlog::details::log_msg &m) override { lines.emplace_back(m.payload.data(), m.payload.size()); }
    void flush_() override {}
};
static std::shared_ptr<CapSink> g_cap;
static void emitLog(const char *tag) { std::string o; for (auto &l : g_cap->lines) o += l + "\n"; emits(tag, o); g_cap->lines.clear(); }
static void external(SylinderSystem &sys, const Case &C) { // forces and velocities prescribed by particle and step, wherever it lives
    if (C.i("skip") >> sys.getStepCount() % 8 & 1) return; // nothing is prescribed in this step
    const uint64_t seed = C.i("fseed", 1); const double fm = C.d("fmag"), vm = C.d("vmag"); const auto &c = sys.getContainer(); const int n = c.getNumberOfParticleLocal(); const uint64_t st = (uint64_t)sys.getStepCount() * 1000003;
    auto fill = [&](double mag, uint64_t tag) { std::vector<double> v(6 * n); for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) v[6 * i + k] = mag * (2 * hu(seed, tag + k, st + c[i].gid) - 1) * (k < 3 ? 1 : c[i].length + c[i].radius); return v; };
    if (fm != 0) sys.setForceNonBrown(fill(fm, 100)); if (vm != 0) sys.setVelocityNonBrown(fill(vm, 200));
}
static void addThings(SylinderSystem &sys, const Case &C, int when) { // every rank contributes its own number of new particles, then links between them
    const uint64_t seed = C.i("fseed", 1) + 77 * when; const auto &cfg = sys.runConfig; std::vector<Sylinder> nw; std::vector<double> spec;
    int cap = C.i("addMax", 3), cnt = C.i("addTo", -1) >= 0 ? (g_rank == C.i("addTo") ? cap : 0) : (int)(hat(seed, 1, g_rank) % (cap + 1));
    for (int i = 0; i < cnt; i++) {
        double pos[3], q[4], rad = C.d("addR", 0.1), len = hu(seed, 2, g_rank * 1000 + i) < 0.4 ? 0 : C.d("addL", 0.6) * (0.5 + hu(seed, 3, g_rank * 1000 + i)); double nq = 0;
        for (int k = 0; k < 3; k++) pos[k] = cfg.simBoxLow[k] + (cfg.simBoxHigh[k] - cfg.simBoxLow[k]) * hu(seed, 10 + k, g_rank * 1000 + i);
        for (int k = 0; k < 4; k++) { q[k] = 2 * hu(seed, 20 + k, g_rank * 1000 + i) - 1; nq += q[k] * q[k]; } nq = sqrt(nq); if (nq < 1e-3) { q[0] = 1; q[1] = q[2] = q[3] = 0; nq = 1; } for (int k = 0; k < 4; k++) q[k] /= nq;
        Sylinder s(-1, rad, rad, len, len, pos, q); s.clear(); s.group = 1000 + g_rank * 10 + i; s.isImmovable = hu(seed, 30, g_rank * 1000 + i) < 0.2; nw.push_back(s);
        put3(spec, pos); put3(spec, q, 4); spec.push_back(rad); spec.push_back(len); spec.push_back(s.isImmovable); spec.push_back(s.group);
    }
    auto mx = sys.getMaxGid(); A->note("maxgid", mx.second);
    std::vector<int> got = sys.addNewSylinder(nw); emitv("addspec", spec); emitv("addgid", got);
    if (C.i("addLinks")) { std::vector<Link> l; for (size_t i = 0; i + 1 < got.size(); i++) { Link k; k.prev = got[i]; k.next = got[i + 1]; l.push_back(k); } const auto &cc = sys.getContainer(); if (C.i("addLinks") > 1 && !got.empty() && cc.getNumberOfParticleLocal() > (int)got.size()) { Link k; k.prev = cc[0].gid; k.next = got[0]; l.push_back(k); }
        if (C.i("addLinks") > 2 && !got.empty()) { // stars: many links ending at, or starting from, one particle that every process knows
            const int hub = mx.second, n0 = l.size(); auto has = [&](int a, int b) { for (auto &k : l) if (k.prev == a && k.next == b) return true; return a == b; };
            for (size_t i = 0; i < got.size(); i++) { const bool in = C.i("addLinks") == 3 || hu(seed, 40, g_rank * 1000 + i) < 0.5; const int a = in ? got[i] : hub, b = in ? hub : got[i]; if (!has(a, b)) { Link k; k.prev = a; k.next = b; l.push_back(k); } if (i + 2 < got.size() && !has(got[i], got[i + 2])) { Link k; k.prev = got[i]; k.next = got[i + 2]; l.push_back(k); } }
            for (int i = (int)l.size() - 1; i > n0; i--) std::swap(l[i], l[n0 + hat(seed, 41, i) % (i - n0 + 1)]); }
        sys.addNewLink(l); std::vector<int> o; for (auto &k : l) { o.push_back(k.prev); o.push_back(k.next); } emitv("addlink", o); }
}
static void addBlocks(SylinderSystem &sys, const Case &C) { // constraints a caller puts in next to the built-in ones: tethers to a point, pulls and stops between any two particles
    const uint64_t seed = C.i("fseed", 1) + 13 * sys.getStepCount(); const auto &c = sys.getContainer(); const int n = c.getNumberOfParticleLocal(); int P; MPI_Comm_size(MPI_COMM_WORLD, &P); std::vector<int> cnt(P), dis(P + 1, 0), gid; for (int i = 0; i < n; i++) gid.push_back(c[i].gid); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD); for (int p = 0; p < P; p++) dis[p + 1] = dis[p] + cnt[p]; std::vector<int> all(dis[P]); MPI_Allgatherv(gid.data(), n, MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, MPI_COMM_WORLD);
    auto &pool = sys.getConstraintPoolNonConst(); ConstraintBlockPool mine(1); const double dt = sys.runConfig.dt;
    for (int i = 0; i < n; i++) { const auto &s = c[i]; const int g = s.gid; for (int k = 0; k < 2; k++) { const uint64_t K = (uint64_t)g * 2 + k; if (hu(seed, 300, K) >= C.d("userP")) continue; const int j = (int)(hat(seed, 301, K) % all.size()), kind = (int)(hat(seed, 302, K) % 4); const bool one = kind < 2 || all[j] == g, bil = kind & 1; double nI[3], nJ[3], pI[3], pJ[3], x[3], y[3], q = 0; for (int d = 0; d < 3; d++) { nI[d] = 2 * hu(seed, 310 + d, K) - 1; q += nI[d] * nI[d]; } if (q < 1e-3) continue; for (int d = 0; d < 3; d++) { nI[d] /= sqrt(q); nJ[d] = -nI[d]; pI[d] = (s.length + s.radius) * (hu(seed, 320 + d, K) - 0.5); pJ[d] = (s.length + s.radius) * (hu(seed, 330 + d, K) - 0.5); x[d] = s.pos[d] + pI[d]; y[d] = x[d] + 0.1 * nI[d]; }
        const double v = C.d("userV"), kap = bil ? C.d("userK") * (0.5 + hu(seed, 340, K)) : 0; ConstraintBlock b(dt * v * (2 * hu(seed, 341, K) - 1), (hu(seed, 342, K) < 0.5 ? 0 : hu(seed, 343, K)), g, one ? g : all[j], s.globalIndex, one ? s.globalIndex : j, nI, one ? nI : nJ, pI, one ? pI : pJ, x, y, one, bil, kap, 0.0); mine[0].push_back(b); pool[hat(seed, 344, K) % pool.size()].push_back(b); } }
    emitBlocks(mine, "user");
}
static void stats(SylinderSystem &sys, const char *tag) {
    g_cap->lines.clear(); sys.calcVolFrac(); sys.calcOrderParameter(); sys.calcConStress(); emitLog(tag);
    double v[12]; sys.calcBoundingBox(v, v + 3, v + 6, v + 9); A->emit("bbox", v, sizeof v);
}
static void loop(SylinderSystem &sys, const Case &C) {
    const int n = C.i("steps", 3), addAt = C.i("addAt", -1); const bool lean = C.i("lean");
    for (int i = 0; i < n; i++) {
        sys.prepareStep(); if (!lean) emitSystem(sys, "prep"); external(sys, C); if (C.d("userP") > 0) addBlocks(sys, C);
        int a[5] = {sys.getStepCount(), sys.getSnapID(), sys.getIfWriteResultCurrentStep(), 0, 0};
        sys.runStep(); a[3] = sys.getStepCount(); a[4] = sys.getSnapID(); A->emit("step", a, sizeof a);
        emitSystem(sys, "post"); if (!lean) { emitBlocks(sys.getConstraintPoolNonConst(), "con"); emitLog("log"); }
        if (C.i("stats")) stats(sys, "stats");
        if (i == addAt) { addThings(sys, C, 0); emitSystem(sys, "added"); if (C.i("addTwice")) { addThings(sys, C, 1); emitSystem(sys, "added"); } emitLinks(sys); }
    }
}
static void setup(SylinderSystem &sys, const Case &C) {
    int argc = 0; char **argv = nullptr; Logger::setup_mpi_spdlog(); g_cap = std::make_shared<CapSink>(); spdlog::default_logger()->sinks().push_back(g_cap);
    if (C.i("restart")) sys.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", argc, argv, C.i("euler", 1));
    else sys.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", argc, argv);
    int a[2] = {sys.getStepCount(), sys.getSnapID()}; A->emit("start", a, sizeof a);
    emitSystem(sys, "init"); emitLinks(sys);
}
ENTRY(steps) {
    MPI_Init(nullptr, nullptr);
    { int argc = 0; char **argv = nullptr; PS::Initialize(argc, argv); SylinderSystem sys; setup(sys, C); loop(sys, C); }
    PS::Finalize(); MPI_Finalize();
}
// the program itself, observed through its files only
#define main simtoolbox_main
#include "Sylinder/SylinderSystem_main.cpp"
#undef main
ENTRY(program) {
    char name[] = "SylinderSystem_main"; char *argv[] = {name, nullptr}; int rc = simtoolbox_main(1, argv); A->emit("rc", &rc, sizeof rc);
}
