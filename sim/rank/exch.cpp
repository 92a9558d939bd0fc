// Drivers for the exchange layer: directory, all-to-all, point distribution, sorting, random streams, maps and vectors.
#include "common.hpp"
#include "MPI/CommMPI.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include "Trilinos/ZDD.hpp"
#include "Util/PointDistribution.hpp"
#include "Util/SortUtil.hpp"
#include "Util/TRngPool.hpp"
#include <omp.h>

static int nranks() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
static void start() { MPI_Init(nullptr, nullptr); Logger::setup_mpi_spdlog(); }
template <int N> struct Pay { // N bytes whose content is a function of two numbers
    unsigned char b[N];
    static Pay of(uint64_t seed, uint64_t k) { Pay p; for (int i = 0; i < N; i++) p.b[i] = (unsigned char)(hat(seed, 900 + i / 8, k) >> 8 * (i % 8)); return p; }
};
template <class T> static void zdd(const Case &C) {
    const uint64_t seed = C.i("fseed", 1); const int U = C.i("ids", 50), P = nranks(); const double hole = C.d("holes", 0.1); std::string skew = C.s("skew"); { std::vector<std::unique_ptr<ZDD<T>>> z; z.emplace_back(new ZDD<T>(C.i("est", 10)));
    for (int k = 0; k < C.i("rounds", 1); k++) {
        if (k && C.i("fresh")) { z.clear(); z.emplace_back(new ZDD<T>(C.i("est", 10))); } ZDD<T> &d = *z.back(); d.gidOnLocal.clear(); d.dataOnLocal.clear();
        for (int u = 0; u < U; u++) { uint64_t key = (uint64_t)k * 100003 + u; if (hu(seed, 1, key) < hole) continue; int o = skew == "one" ? (int)(seed % P) : (int)(hat(seed, 2, key) % P); if (o != g_rank) continue; d.gidOnLocal.push_back((ZOLTAN_ID_TYPE)(u * C.i("stride", 1))); d.dataOnLocal.push_back(T::of(seed, key)); }
        d.buildIndex(); const int q = (int)(hat(seed, 3, k * 1000 + g_rank) % (C.i("asks", 20) + 1)); d.gidToFind.clear(); d.dataToFind.assign(q + (C.i("slack") ? 3 : 0), T::of(seed, 7777777)); for (int i = 0; i < q; i++) d.gidToFind.push_back((ZOLTAN_ID_TYPE)(hat(seed, 4, (k * 1000 + g_rank) * 1000 + i) % U * C.i("stride", 1))); if (!q && !C.i("slack")) d.dataToFind.clear();
        if (C.i("short") && q) d.dataToFind.resize(q / 2); d.find(); std::vector<int> ids(d.gidToFind.begin(), d.gidToFind.end()); emitv("ask", ids); emitv("got", d.dataToFind);
    } } MPI_Barrier(MPI_COMM_WORLD);
}
ENTRY(zdd) { start(); switch (C.i("bytes", 4)) { case 1: zdd<Pay<1>>(C); break; case 4: zdd<Pay<4>>(C); break; case 12: zdd<Pay<12>>(C); break; default: zdd<Pay<40>>(C); } MPI_Finalize(); }
template <class T> static void a2a(const Case &C) {
    const uint64_t seed = C.i("fseed", 1); const int P = nranks(), most = C.i("most", 50); std::string skew = C.s("skew"); std::vector<std::unique_ptr<CommMPI>> c; c.emplace_back(new CommMPI());
    for (int k = 0; k < C.i("rounds", 1); k++) {
        if (k && C.i("fresh")) { c.clear(); c.emplace_back(new CommMPI()); } int n = (int)(hat(seed, 1, k * 100 + g_rank) % (most + 1)); if (skew == "one" && g_rank != (int)(seed % P)) n = 0; std::vector<int> dest(n), src; std::vector<T> data(n), got; if (C.i("dirty")) { src.assign(5, -7); got.assign(9, T::of(1, 2)); }
        for (int i = 0; i < n; i++) { uint64_t key = ((uint64_t)k * 100 + g_rank) * 100000 + i; dest[i] = skew == "to" ? (int)(seed % P) : (int)(hat(seed, 2, key) % P); data[i] = T::of(seed, key); }
        std::vector<int> d0 = dest; c.back()->exchangeAllToAllV(dest, data, src, got); emitv("sent", d0); emitv("src", src); emitv("got", got); int rk[2] = {c.back()->getRank(), c.back()->getSize()}; A->emit("who", rk, sizeof rk);
    }
}
ENTRY(a2a) { start(); switch (C.i("bytes", 4)) { case 1: a2a<Pay<1>>(C); break; case 4: a2a<Pay<4>>(C); break; case 12: a2a<Pay<12>>(C); break; default: a2a<Pay<40>>(C); } MPI_Finalize(); }
ENTRY(pts) {
    start(); const uint64_t seed = C.i("fseed", 1); const int dim = C.i("dim", 3), n = C.i("n", 20), P = nranks();
    for (int k = 0; k < C.i("rounds", 1); k++) {
        std::vector<double> p; if (g_rank == 0) for (int i = 0; i < n * dim; i++) p.push_back(hu(seed, 1 + k, i)); else if (C.i("dirty")) p.assign(4, -1.0);
        distributePts(p, dim); emitv("part", p); std::vector<double> q = p, all = p; collectPts(q); emitv("whole", q); collectPtsAll(all); emitv("all", all);
        int m = (int)(hat(seed, 50 + k, g_rank) % (n + 1)); if (C.s("skew") == "one" && g_rank != (int)(seed % P)) m = 0; std::vector<double> l; for (int i = 0; i < m; i++) l.push_back(hu(seed, 60 + k, g_rank * 100000 + i)); q = l; collectPts(q); emitv("whole2", q); all = l; collectPtsAll(all); emitv("all2", all); emitv("mine2", l);
        if (C.i("dump")) { const int D = C.i("dumpDim", 1); std::vector<double> x, v; for (int i = 0; i < m; i++) { for (int j = 0; j < 3; j++) x.push_back(hu(seed, 70 + k, (g_rank * 10000 + i) * 16 + j)); for (int j = 0; j < D; j++) v.push_back(hu(seed, 71 + k, (g_rank * 10000 + i) * 16 + 3 + j)); } std::vector<double> x0 = x, v0 = v; dumpPoints("points" + std::to_string(k) + ".txt", x, v, D); emitv("dx", x0); emitv("dv", v0); if (x != x0 || v != v0) emits("dumpchanged", "1"); }
    } MPI_Finalize();
}
ENTRY(sort) {
    start(); const uint64_t seed = C.i("fseed", 1); const int n = (int)(hat(seed, 1, g_rank) % (C.i("most", 100) + 1)), vals = C.i("vals", 10); std::vector<int> tag(n), tag0; std::vector<Pay<12>> d(n), d0; for (int i = 0; i < n; i++) { tag[i] = (int)(hat(seed, 2, g_rank * 100000 + i) % vals) - vals / 2; d[i] = Pay<12>::of(seed, g_rank * 100000 + i); }
    tag0 = tag; d0 = d; sortDataWithTag(tag, d); emitv("tag0", tag0); emitv("data0", d0); emitv("tag", tag); emitv("data", d); MPI_Finalize();
}
ENTRY(rng) {
    start(); const int k = C.i("draws", 50), T = omp_get_max_threads(); { TRngPool pool(C.i("rngSeed")); pool.setLogNormalParameters(C.d("mu"), C.d("sigma", 1)); std::vector<std::vector<double>> v(T); const bool imp = C.i("implicit");
#pragma omp parallel num_threads(T)
    { const int t = omp_get_thread_num(); v[t].reserve(3 * k); for (int i = 0; i < k; i++) { v[t].push_back(imp ? pool.getU01() : pool.getU01(t)); if (C.i("kinds") & 1) v[t].push_back(imp ? pool.getN01() : pool.getN01(t)); if (C.i("kinds") & 2) v[t].push_back(imp ? pool.getLN() : pool.getLN(t)); } }
    for (int t = 0; t < T; t++) emitv(("t" + std::to_string(t)).c_str(), v[t]); } MPI_Finalize();
}
static void emitMap(const char *tag, const Teuchos::RCP<TMAP> &m) { std::vector<int> v{(int)m->getGlobalNumElements(), (int)m->isContiguous(), m->getIndexBase()}; auto g = m->getNodeElementList(); for (int i = 0; i < (int)g.size(); i++) v.push_back(g[i]); emitv(tag, v); }
static void emitTV(const char *tag, const Teuchos::RCP<TV> &x) { auto d = x->getData(); std::vector<double> v(d.begin(), d.end()); emitv(tag, v); }
ENTRY(tpetra) {
    start(); { const uint64_t seed = C.i("fseed", 1); Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); int who[2] = {comm->getRank(), comm->getSize()}; A->emit("who", who, sizeof who); const int n1 = C.i(("a" + std::to_string(g_rank)).c_str()), n2 = C.i(("b" + std::to_string(g_rank)).c_str());
    auto m1 = getTMAPFromLocalSize(n1, comm), m2 = getTMAPFromLocalSize(n2, comm); emitMap("map1", m1); emitMap("map2", m2); auto mm = getTMAPFromTwoBlockTMAP(m1, m2); emitMap("map12", mm);
    std::vector<double> a, b; for (int i = 0; i < n1; i++) a.push_back(2 * hu(seed, 1, g_rank * 100000 + i) - 1); for (int i = 0; i < n2; i++) b.push_back(2 * hu(seed, 2, g_rank * 100000 + i) - 1); auto va = getTVFromVector(a, comm), vb = getTVFromVector(b, comm); emitTV("va", va); emitTV("vb", vb); auto vv = getTVFromTwoBlockTV(va, vb); emitTV("vab", vv); double nrm[3] = {va->norm2(), vb->norm2(), vv->norm2()}; A->emit("norm", nrm, sizeof nrm);
    int total = 0, P = nranks(); for (int r = 0; r < P; r++) total += C.i(("a" + std::to_string(r)).c_str()); std::vector<int> own; for (int g = 0; g < total; g++) if ((int)(hat(seed, 3, g) % P) == g_rank) own.push_back(g); for (size_t i = own.size(); i-- > 1;) std::swap(own[i], own[hat(seed, 4, i) % (i + 1)]); auto m3 = getTMAPFromGlobalIndexOnLocal(own, total, comm); emitMap("map3", m3);
    Teuchos::RCP<TV> v3 = Teuchos::rcp(new TV(m3, true)); for (size_t i = 0; i < own.size(); i++) v3->replaceLocalValue(i, 2 * hu(seed, 5, own[i]) - 1); if (C.i("dump") && total) { dumpTV(va, "va"); dumpTV(v3, "v3"); dumpTV(vv, "vv");
        Teuchos::RCP<TCMAT> A3 = Teuchos::rcp(new TCMAT(m1, 8)); for (int i = 0; i < n1; i++) { int row = m1->getGlobalElement(i); std::map<int, double> e; for (int k = 0; k < 4; k++) e[(int)(hat(seed, 6, row * 8 + k) % total)] = 2 * hu(seed, 7, row * 8 + k) - 1; for (auto &x : e) { int col = x.first; double val = x.second; A3->insertGlobalValues(row, Teuchos::tuple(col), Teuchos::tuple(val)); } } A3->fillComplete(); dumpTCMAT(A3, "A3"); } }
    MPI_Finalize();
}
