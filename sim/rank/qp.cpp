// Drivers for the solvers: bound-constrained quadratic problems, complementarity problems, and the operators they are given.
#include "common.hpp"
#include "Collision/CPSolver.hpp"
#include "Constraint/BCQPSolver.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include "Util/Logger.hpp"

static int nranks() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
static double u11(uint64_t s, uint64_t tag, uint64_t i) { return 2 * hu(s, tag, i) - 1; }
struct Prob { // dense data, the same on every process and on the host
    int n = 0, m = 0; std::vector<double> A, b, Dt, M, K;
    Prob(const Case &C) {
        const uint64_t s = C.i("fseed", 1); for (int r = 0; r < nranks(); r++) n += C.i(("a" + std::to_string(r)).c_str()), m += C.i(("m" + std::to_string(r)).c_str()); m *= 6;
        const double delta = C.d("delta", 1), scale = C.d("scale", 1); for (int i = 0; i < n; i++) b.push_back(scale * u11(s, 1, i));
        Dt.assign(n * m, 0); M.assign(m * m, 0); K.assign(n, 0); A.assign(n * n, 0);
        for (int i = 0; i < n && m; i++) for (int k = 0; k < 12; k++) Dt[i * m + hat(s, 2, i * 16 + k) % m] = u11(s, 3, i * 16 + k);
        for (int o = 0; o < m / 6; o++) { double L[36] = {}; for (int i = 0; i < 6; i++) for (int j = 0; j <= i; j++) L[i * 6 + j] = i == j ? 0.3 + hu(s, 4, o * 36 + i * 6 + j) : 0.5 * u11(s, 4, o * 36 + i * 6 + j); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double v = 0; for (int k = 0; k < 6; k++) v += L[i * 6 + k] * L[j * 6 + k]; M[(o * 6 + i) * m + o * 6 + j] = v; } }
        for (int i = 0; i < n; i++) K[i] = delta * (1 + hu(s, 5, i)); std::vector<double> MD(m * n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int k = i / 6 * 6; k < i / 6 * 6 + 6; k++) MD[i * n + j] += M[i * m + k] * Dt[j * m + k];
        for (int i = 0; i < n; i++) { for (int k = 0; k < m; k++) if (double d = Dt[i * m + k]) for (int j = 0; j < n; j++) A[i * n + j] += d * MD[k * n + j]; A[i * n + i] += K[i]; }
    }
};
struct Dist { Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM(); Teuchos::RCP<TMAP> con, mob; Teuchos::RCP<TCMAT> A, Dt, M; Teuchos::RCP<TV> K, b; Teuchos::RCP<TOP> op; int n, m;
    static Teuchos::RCP<TCMAT> mat(const std::vector<double> &v, int cols, const Teuchos::RCP<TMAP> &rows, const Teuchos::RCP<TMAP> &dom) { Teuchos::RCP<TCMAT> R = Teuchos::rcp(new TCMAT(rows, cols ? cols : 1)); for (size_t i = 0; i < rows->getNodeNumElements(); i++) { int g = rows->getGlobalElement(i); for (int c = 0; c < cols; c++) if (v[(size_t)g * cols + c] != 0) { double x = v[(size_t)g * cols + c]; R->insertGlobalValues(g, Teuchos::tuple(c), Teuchos::tuple(x)); } } R->fillComplete(dom, rows); return R; }
    Dist(const Case &C, const Prob &p) {
        n = C.i(("a" + std::to_string(g_rank)).c_str()); m = 6 * C.i(("m" + std::to_string(g_rank)).c_str()); con = getTMAPFromLocalSize(n, comm); mob = getTMAPFromLocalSize(m, comm); std::vector<double> lb, lk; for (int i = 0; i < n; i++) { int g = con->getGlobalElement(i); lb.push_back(p.b[g]); lk.push_back(p.K[g]); } b = getTVFromVector(lb, comm); K = getTVFromVector(lk, comm);
        Dt = mat(p.Dt, p.m, con, mob); M = mat(p.M, p.m, mob, mob); if (C.s("op") == "mat") { A = mat(p.A, p.n, con, con); op = A; } else { Teuchos::RCP<TOP> mo = M; op = Teuchos::rcp(new ConstraintOperator(mo, Dt, K)); }
    }
};
static void emitTV(const char *tag, const Teuchos::RCP<TV> &x) { auto d = x->getData(); std::vector<double> v(d.begin(), d.end()); emitv(tag, v); }
static void start() { MPI_Init(nullptr, nullptr); Logger::setup_mpi_spdlog(); }
static void emitRun(int rc, const IteHistory &h, const Teuchos::RCP<TV> &x) { A->emit("rc", &rc, sizeof rc); std::vector<double> v; for (auto &r : h) v.insert(v.end(), r.begin(), r.end()); emitv("hist", v); emitTV("x", x); }
static Teuchos::RCP<TV> guess(const Case &C, const Dist &d) { Teuchos::RCP<TV> x = Teuchos::rcp(new TV(d.con, true)); const std::string g = C.s("guess", "zero"); for (int i = 0; i < d.n; i++) { int k = d.con->getGlobalElement(i); x->replaceLocalValue(i, g == "one" ? 1.0 : g == "rand" ? C.d("gscale", 1) * u11(C.i("fseed"), 9, k) : 0.0); } return x; }
ENTRY(bcqp) {
    start(); { Prob p(C); Dist d(C, p); BCQPSolver s(d.op, d.b); const uint64_t seed = C.i("fseed"); const int bk = C.i("bounds"); Teuchos::RCP<TV> lb = Teuchos::rcp(new TV(d.con, false)), ub = Teuchos::rcp(new TV(d.con, false));
    for (int i = 0; i < d.n; i++) { int g = d.con->getGlobalElement(i); double l = u11(seed, 20, g), w = hu(seed, 22, g) < C.d("fixed") ? 0 : 0.1 + 2 * hu(seed, 21, g); lb->replaceLocalValue(i, C.d("bscale", 1) * l); ub->replaceLocalValue(i, C.d("bscale", 1) * (l + w)); }
    if (bk & 1) s.setLowerBound(lb); if (bk & 2) s.setUpperBound(ub); s.prepareSolver(); for (int k = 0; k < C.i("solves", 1); k++) { auto x = guess(C, d); IteHistory h; int rc = C.i("solver") == 1 ? s.solveAPGD(x, C.d("tol"), C.i("ite"), h) : s.solveBBPGD(x, C.d("tol"), C.i("ite"), h); emitRun(rc, h, x); } } MPI_Finalize();
}
ENTRY(lcp) {
    start(); { Prob p(C); Dist d(C, p); CPSolver s(d.op, d.b); for (int k = 0; k < C.i("solves", 1); k++) { auto x = guess(C, d); IteHistory h; int rc = C.i("solver") == 1 ? s.LCP_APGD(x, C.d("tol"), C.i("ite"), h) : C.i("solver") == 2 ? s.LCP_BBPGD(x, C.d("tol"), C.i("ite"), h) : s.LCP_mmNewton(x, C.d("tol"), C.i("ite"), h); emitRun(rc, h, x); } } MPI_Finalize();
}
ENTRY(conop) {
    start(); { Prob p(C); Dist d(C, p); Teuchos::RCP<TOP> mo = d.M; const int cols = C.i("cols", 1); const uint64_t s = C.i("fseed"); Teuchos::RCP<ConstraintOperator> co = Teuchos::rcp(new ConstraintOperator(mo, d.Dt, d.K)); Teuchos::RCP<CPMatOp> cp = Teuchos::rcp(new CPMatOp(mo, d.Dt));
    for (int k = 0; k < C.i("rounds", 1); k++) for (int w = 0; w < 2; w++) { Teuchos::RCP<TMV> X = Teuchos::rcp(new TMV(d.con, cols, true)), Y = Teuchos::rcp(new TMV(d.con, cols, true)); for (int i = 0; i < d.n; i++) for (int c = 0; c < cols; c++) { int g = d.con->getGlobalElement(i) * 8 + c; X->replaceLocalValue(i, c, u11(s, 30 + k, g)); Y->replaceLocalValue(i, c, u11(s, 40 + k, g)); }
        if (w) cp->apply(*X, *Y, Teuchos::NO_TRANS, C.d("alpha", 1), C.d("beta")); else co->apply(*X, *Y, Teuchos::NO_TRANS, C.d("alpha", 1), C.d("beta")); std::vector<double> v; for (int c = 0; c < cols; c++) { auto q = Y->getData(c); v.insert(v.end(), q.begin(), q.end()); } emitv(w ? "cp" : "co", v); if (!w) { emitTV("force", co->getForce()); emitTV("vel", co->getVel()); } }
    int same[2] = {co->getDomainMap()->isSameAs(*d.con), co->getRangeMap()->isSameAs(*d.con)}; A->emit("maps", same, sizeof same); } MPI_Finalize();
}
