#include "engine.hpp"
// ---------------------------------------------------------------- the solvers and their operators, on any layout and schedule
static uint64_t hat(uint64_t seed, uint64_t tag, uint64_t i) { return mix(mix(seed, tag), i); }
static double hu(uint64_t seed, uint64_t tag, uint64_t i) { return (hat(seed, tag, i) >> 11) * (1.0 / 9007199254740992.0); }
static double u11(uint64_t s, uint64_t tag, uint64_t i) { return 2 * hu(s, tag, i) - 1; }
static std::string blob(const TestCase &t) { std::string o; for (auto &k : t.kv) o += k.first + "=" + k.second + "\n"; return o; }
static JobSpec job(const TestCase &t, const char *e) { JobSpec j = jobFrom(t, e); j.blob = blob(t); j.cpuSeconds = 20; return j; }
template <class T> static std::vector<T> as(const std::string &d) { std::vector<T> v(d.size() / sizeof(T)); memcpy(v.data(), d.data(), v.size() * sizeof(T)); return v; }
typedef long double R;
struct Prob {
    int n = 0, m = 0; std::vector<double> A, b, Dt, M, K, lb, ub, x0; double mu = 0, big = 0;
    Prob(const TestCase &t) {
        const uint64_t s = t.i("fseed"); for (int r = 0; r < t.i("nranks", 1); r++) n += (int)t.i(fmt("a%d", r)), m += 6 * (int)t.i(fmt("m%d", r));
        const double delta = t.d("delta", 1), scale = t.d("scale", 1); for (int i = 0; i < n; i++) b.push_back(scale * u11(s, 1, i));
        Dt.assign(n * m, 0); M.assign(m * m, 0); K.assign(n, 0); A.assign(n * n, 0);
        for (int i = 0; i < n && m; i++) for (int k = 0; k < 12; k++) Dt[i * m + hat(s, 2, i * 16 + k) % m] = u11(s, 3, i * 16 + k);
        for (int o = 0; o < m / 6; o++) { double L[36] = {}; for (int i = 0; i < 6; i++) for (int j = 0; j <= i; j++) L[i * 6 + j] = i == j ? 0.3 + hu(s, 4, o * 36 + i * 6 + j) : 0.5 * u11(s, 4, o * 36 + i * 6 + j); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double v = 0; for (int k = 0; k < 6; k++) v += L[i * 6 + k] * L[j * 6 + k]; M[(o * 6 + i) * m + o * 6 + j] = v; } }
        for (int i = 0; i < n; i++) K[i] = delta * (1 + hu(s, 5, i)); std::vector<double> MD(m * n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int k = i / 6 * 6; k < i / 6 * 6 + 6; k++) MD[i * n + j] += M[i * m + k] * Dt[j * m + k];
        for (int i = 0; i < n; i++) { for (int k = 0; k < m; k++) if (double d = Dt[i * m + k]) for (int j = 0; j < n; j++) A[i * n + j] += d * MD[k * n + j]; A[i * n + i] += K[i]; }
        const int bk = (int)t.i("bounds"); const double bs = t.d("bscale", 1), inf = 1e307; for (int i = 0; i < n; i++) { double l = u11(s, 20, i), w = hu(s, 22, i) < t.d("fixed") ? 0 : 0.1 + 2 * hu(s, 21, i); lb.push_back(bk & 1 ? bs * l : -inf); ub.push_back(bk & 2 ? bs * (l + w) : inf); }
        const std::string g = t.s("guess"); for (int i = 0; i < n; i++) x0.push_back(g == "one" ? 1.0 : g == "rand" ? t.d("gscale", 1) * u11(s, 9, i) : 0.0); mu = delta; for (double a : A) big = std::max(big, std::fabs(a));
    }
    std::vector<R> grad(const std::vector<R> &x) const { std::vector<R> g(n); for (int i = 0; i < n; i++) { R v = b[i]; for (int j = 0; j < n; j++) v += (R)A[i * n + j] * x[j]; g[i] = v; } return g; }
    std::vector<R> solve() const { std::vector<R> x(n, 0); for (int i = 0; i < n; i++) x[i] = std::min<R>(std::max<R>(0, lb[i]), ub[i]); for (int it = 0; it < 20000; it++) { R d = 0; for (int i = 0; i < n; i++) { R v = b[i]; for (int j = 0; j < n; j++) if (j != i) v += (R)A[i * n + j] * x[j]; R y = std::min<R>(std::max<R>(-v / A[i * n + i], lb[i]), ub[i]); d = std::max<R>(d, fabsl(y - x[i])); x[i] = y; } if (d < 1e-15) break; } return x; }
};
struct Run { int rc; std::vector<std::array<double, 6>> h; std::vector<R> x; };
static bool runs(const TestCase &t, Ctx &c, const Prob &p, const char *e, std::vector<Run> &out) {
    JobResult r = c.run(job(t, e)); if (!c.needOk(r)) return false; const int P = (int)t.i("nranks", 1), S = (int)t.i("solves", 1);
    for (int k = 0; k < S; k++) { Run u; for (int q = 0; q < P; q++) { auto rc = r.get("rc", q), h = r.get("hist", q), x = r.get("x", q); if ((int)rc.size() != S || (int)x.size() != S) { c.fail("missing", fmt("process %d stopped reporting", q)); return false; } auto v = as<double>(h[k]->data); std::vector<std::array<double, 6>> hh(v.size() / 6); for (size_t i = 0; i < v.size(); i++) hh[i / 6][i % 6] = v[i]; int code = as<int>(rc[k]->data)[0];
            if (!q) u.rc = code, u.h = hh; else if (u.rc != code || u.h.size() != hh.size() || memcmp(u.h.data(), hh.data(), sizeof(hh[0]) * hh.size())) { c.fail("layout", fmt("process %d finished after another iteration history than process 0", q)); return false; } auto l = as<double>(x[k]->data); if ((long)l.size() != t.i(fmt("a%d", q))) { c.fail("layout", "the solution has another distribution than the problem"); return false; } u.x.insert(u.x.end(), l.begin(), l.end()); }
        for (R v : u.x) if (!std::isfinite((double)v)) { c.fail("solution", "the solution is not finite"); return false; } if (u.h.empty()) { c.fail("solution", "no iteration was reported"); return false; } out.push_back(u); }
    return true;
}
static double nrm(const std::vector<R> &v) { R s = 0; for (R x : v) s += x * x; return (double)sqrtl(s); }
// feasibility, reported residual, solution and convergence of one solve. box: residual of the box problem, otherwise minimum map
static bool judge(const TestCase &t, Ctx &c, const Prob &p, const Run &u, const std::vector<R> &sol, bool box, bool best, bool exactRes) {
    const double tol = t.d("tol"); const long ite = t.i("ite"); const bool small = ite < 500; auto g = p.grad(u.x); std::vector<R> q(p.n); double xm = 1;
    for (int i = 0; i < p.n; i++) xm = std::max(xm, (double)fabsl(u.x[i])); const double eps = 2.3e-14;
    for (int i = 0; i < p.n; i++) { if (u.x[i] < (R)p.lb[i] || u.x[i] > (R)p.ub[i]) { c.fail("infeasible", fmt("unknown %d of %d is %.12Lg, its bounds are %.12g and %.12g (return code %d after %g iterations)", i, p.n, u.x[i], p.lb[i], p.ub[i], u.rc, u.h.back()[0])); return false; }
        if (box) { const bool lo = u.x[i] <= (R)p.lb[i] + eps, hi = u.x[i] >= (R)p.ub[i] - eps; q[i] = lo && hi ? 0 : lo ? std::min<R>(g[i], 0) : hi ? std::max<R>(g[i], 0) : g[i]; } else q[i] = std::min<R>(u.x[i], g[i]); }
    const double real = nrm(q), slack = 1e-11 * (p.n + 1) * (1 + p.big) * xm + 1e-10 * real + 1e-12 * t.d("scale", 1) * p.n; double rep = u.h.back()[4]; if (best) { rep = 1e300; for (auto &h : u.h) if (h[0] > 0) rep = std::min(rep, h[4]); }
    if (t.i("ite") > 0 && (exactRes ? std::fabs(real - rep) > slack : rep < tol && real > 1.5 * tol + slack)) { c.fail("residual", fmt("the solver reports residual %.9g for its result, the result's residual is %.9g (return code %d, %g iterations, tolerance %.3g)", rep, real, u.rc, u.h.back()[0], tol)); return false; }
    const double kap = box ? 1 / p.mu : (1 + p.n * p.big) / p.mu; R d = 0; for (int i = 0; i < p.n; i++) d += (u.x[i] - sol[i]) * (u.x[i] - sol[i]); const double dist = (double)sqrtl(d);
    if (u.rc == 0 && rep < tol) { if (dist > kap * (tol + slack) * 1.5 + 1e-10 * xm) { c.fail("solution", fmt("the result is %.3g away from the solution, tolerance %.3g allows %.3g", dist, tol, kap * tol)); return false; } c.probe("solution compared"); }
    if (t.i("tight")) c.probe("tolerance near or below rounding"); if (!small && (box || exactRes) && !(u.rc == 0 && rep < tol)) { c.fail("convergence", fmt("no solution after %g iterations (return code %d, residual %.3g, tolerance %.3g, %d unknowns)", u.h.back()[0], u.rc, rep, tol, p.n)); return false; }
    if (rep >= tol) c.probe("stopped by the iteration limit"); for (size_t i = 1; i < u.h.size(); i++) if (u.h[i][0] != u.h[i - 1][0] + 1 || u.h[i][5] < u.h[i - 1][5]) { c.fail("history", "the iteration history does not count iterations and operator applications upwards"); return false; } if (u.h.back()[0] > ite) { c.fail("history", fmt("%g iterations, the limit is %ld", u.h.back()[0], ite)); return false; }
    if (getenv("SIM_CAL")) fprintf(stderr, "ite %g n %d solver %ld\n", u.h.back()[0], p.n, t.i("solver")); return true;
}
static void c20(const TestCase &t, Ctx &c) {
    Prob p(t); std::vector<Run> u; if (!runs(t, c, p, "bcqp", u)) return; auto sol = p.solve(); for (auto &x : u) if (!judge(t, c, p, x, sol, true, t.i("solver") == 1, true)) return; int act = 0; for (int i = 0; i < p.n; i++) act += sol[i] == (R)p.lb[i] || sol[i] == (R)p.ub[i]; c.probe("bounds active", act); if (t.i("solver") == 1) c.probe("accelerated gradient"); else c.probe("Barzilai-Borwein"); c.nontrivial = p.n > 1 && t.i("nranks") > 1;
}
static void c21(const TestCase &t, Ctx &c) {
    Prob p(t); p.lb.assign(p.n, 0); p.ub.assign(p.n, 1e307); std::vector<Run> u; if (!runs(t, c, p, "lcp", u)) return; auto sol = p.solve(); const int sv = (int)t.i("solver"); for (auto &x : u) if (!judge(t, c, p, x, sol, false, sv == 1, sv != 0)) return; c.probe(sv == 0 ? "minimum-map Newton" : sv == 1 ? "accelerated gradient" : "Barzilai-Borwein"); c.nontrivial = p.n > 1 && t.i("nranks") > 1;
}
static void c22(const TestCase &t, Ctx &c) {
    Prob p(t); const int P = (int)t.i("nranks", 1), cols = (int)t.i("cols", 1), S = (int)t.i("rounds", 1); JobResult r = c.run(job(t, "conop")); if (!c.needOk(r)) return; const uint64_t s = t.i("fseed"); const double al = t.d("alpha", 1), be = t.d("beta");
    for (int k = 0; k < S; k++) for (int w = 0; w < 2; w++) { int row = 0, mrow = 0; std::vector<R> f(p.m, 0), v(p.m, 0); for (int q = 0; q < P; q++) { auto y = r.get(w ? "cp" : "co", q); if ((int)y.size() != S) return c.fail("missing", fmt("process %d stopped reporting", q)); auto got = as<double>(y[k]->data); const int ln = (int)t.i(fmt("a%d", q)); if ((int)got.size() != ln * cols) return c.fail("operator", "the result has another size than the operand");
            for (int cc = 0; cc < cols; cc++) for (int i = 0; i < ln; i++) { R want = be * u11(s, 40 + k, (row + i) * 8 + cc), mag = fabsl(want); for (int j = 0; j < p.n; j++) { R a = p.A[(row + i) * p.n + j]; if (w && j == row + i) a -= p.K[j]; R x = al * a * u11(s, 30 + k, j * 8 + cc); want += x; mag += fabsl(x); } mag += p.big; if (fabsl(want - got[cc * ln + i]) > 1e-12 * mag * (p.n + 10)) return c.fail("operator", fmt("%s operator, round %d: row %d column %d is %.12g, it is %.12Lg (factors %g and %g)", w ? "mobility" : "constraint", k, row + i, cc, got[cc * ln + i], want, al, be)); } row += ln; }
        if (!w) { for (int j = 0; j < p.m; j++) for (int i = 0; i < p.n; i++) f[j] += (R)p.Dt[i * p.m + j] * u11(s, 30 + k, i * 8 + cols - 1); for (int j = 0; j < p.m; j++) for (int i = j / 6 * 6; i < j / 6 * 6 + 6; i++) v[j] += (R)p.M[j * p.m + i] * f[i]; for (int q = 0; q < P; q++) { auto gf = as<double>(r.get("force", q)[k]->data), gv = as<double>(r.get("vel", q)[k]->data); for (size_t i = 0; i < gf.size(); i++) if (fabsl(gf[i] - f[mrow + i]) > 1e-11 * (p.n + 1) || fabsl(gv[i] - v[mrow + i]) > 1e-10 * (p.n + 1)) return c.fail("force", fmt("round %d: force or velocity of degree of freedom %zu after applying the operator is wrong", k, mrow + i)); mrow += gf.size(); } if (mrow != p.m) return c.fail("force", "the force vector has another size than the mobility"); } }
    for (auto *m : r.get("maps")) { auto v = as<int>(m->data); if (!v[0] || !v[1]) return c.fail("operator", "domain or range of the operator is not that of its operands"); } c.probe("operator rows compared", p.n); c.nontrivial = P > 1 && p.n > 1;
}
static void gen(Rng &r, TestCase &t, bool th) {
    genSched(r, t, 6, 3); t.seti("fseed", r.in(1, 1 << 30)); const int big = r.p(0.3) ? 3 : th ? 20 : 8; long n = 0; for (int p = 0; p < 6; p++) { long a = r.p(0.2) ? 0 : r.in(1, big); t.seti(fmt("a%d", p), a); if (p < t.i("nranks", 1)) n += a; t.seti(fmt("m%d", p), r.p(0.2) ? 0 : r.in(1, 3)); } if (!n) t.seti("a0", 1);
    t.setd("delta", r.logu(0.3, 3)); t.setd("scale", r.logu(0.5, 30)); if (r.p(0.5)) t.set("op", "mat"); const double q = r.u(0, 1); t.set("guess", q < 0.4 ? "zero" : q < 0.6 ? "one" : "rand"); if (q >= 0.6) t.setd("gscale", r.logu(0.1, 10)); t.setd("tol", t.d("scale") * r.logu(1e-5, 1e-2)); t.seti("ite", r.p(0.35) ? r.in(1, 25) : 600); if (r.p(0.2)) t.seti("solves", 2);
    if (r.p(0.15)) { t.seti("tight", 1); if (r.p(0.6)) t.setd("scale", r.logu(1e3, 1e9)); t.setd("tol", t.d("scale") * r.logu(1e-19, 1e-9)); t.seti("ite", r.in(20, 250)); }
}
static const std::vector<std::pair<std::string, std::string>> easy{{"op", "mat"}, {"solves", "1"}, {"guess", "zero"}, {"fixed", "0"}, {"bounds", "3"}, {"cols", "1"}, {"rounds", "1"}};
static PropReg r20(Prop{"C20", "qp", 6, 2000, 20000,
    [](Rng &r, TestCase &t, int k, bool th) { gen(r, t, th); t.seti("solver", k % 2); t.seti("bounds", r.below(4)); t.setd("bscale", r.logu(0.1, 5)); if (r.p(0.2)) t.setd("fixed", r.u(0, 0.6)); },
    c20, "random strictly convex box-constrained problems (explicit matrix or constraint operator) with random distribution, bounds, initial guess, tolerance and iteration limit, solved by both solvers; feasibility, reported residual, distance from a reference solution and convergence. Non-trivial: more than one unknown and process.", {"smallest eigenvalue at least 0.3, tolerance at least 1e-5 of the right-hand side"}, easy});
static PropReg r21(Prop{"C21", "qp", 6, 2000, 20000,
    [](Rng &r, TestCase &t, int k, bool th) { gen(r, t, th); t.seti("solver", k % 3); },
    c21, "random complementarity problems with positive definite matrices, solved by the three solvers; feasibility, reported residual, distance from a reference solution and convergence. Non-trivial: more than one unknown and process.", {"smallest eigenvalue at least 0.3, tolerance at least 1e-5 of the right-hand side", "the Newton solver's result is compared only where it reports a residual below tolerance"}, easy});
static PropReg r22(Prop{"C22", "qp", 6, 2000, 20000,
    [](Rng &r, TestCase &t, int, bool th) { gen(r, t, th); t.seti("cols", r.in(1, 3)); t.seti("rounds", r.in(1, 3)); if (r.p(0.6)) { t.setd("alpha", r.u(-2, 2)); t.setd("beta", r.p(0.3) ? 0 : r.u(-2, 2)); } },
    c22, "random constraint matrices, mobilities and compliances on random distributions; operator results compared with the dense product. Non-trivial: more than one row and process.", {}, easy});
