#include "engine.hpp"
// ---------------------------------------------------------------- interaction of two particle systems, on any layout and schedule
static uint64_t hat(uint64_t seed, uint64_t tag, uint64_t i) { return mix(mix(seed, tag), i); }
static double hu(uint64_t seed, uint64_t tag, uint64_t i) { return (hat(seed, tag, i) >> 11) * (1.0 / 9007199254740992.0); }
struct Pair { int t, s; double a[3], b[3]; };
struct Pnt { double rs, pos[3]; };
static void c17(const TestCase &t, Ctx &c) {
    JobSpec j = jobFrom(t, "mix"); for (auto &k : t.kv) j.blob += k.first + "=" + k.second + "\n"; JobResult r = c.run(j); if (!c.needOk(r)) return;
    const uint64_t seed = t.i("fseed"); const int P = (int)t.i("nranks", 1), R = (int)t.i("rounds", 1), pbc = (int)t.i("pbc", 7); const double L[3] = {t.d("bx", 1), t.d("by", 1), t.d("bz", 1)}, O[3] = {t.d("ox"), t.d("oy"), t.d("oz")};
    for (int k = 0; k < R; k++) {
        std::vector<Pnt> q[2]; for (int w = 0; w < 2; w++) { const double lo = t.d(w ? "rslo" : "rtlo", 0.1), hi = t.d(w ? "rshi" : "rthi", 0.2); for (int i = 0; i < t.i(fmt(w ? "s%d" : "t%d", k)); i++) { uint64_t key = ((uint64_t)k * 2 + w) * 100000 + i; Pnt p; p.rs = lo + (hi - lo) * hu(seed, 2, key); for (int d = 0; d < 3; d++) { double u = hu(seed, 3 + d, key); if (hu(seed, 8, key) < t.d("cluster")) u = 0.5 + 0.1 * (u - 0.5); if (hu(seed, 9, key) < t.d("edge")) u = hat(seed, 10 + d, key) & 1 ? 0 : 1 - 1e-9; p.pos[d] = O[d] + L[d] * u; } q[w].push_back(p); } }
        std::map<std::array<int, 5>, int> have; std::vector<int> seen(q[0].size(), 0), cnt(q[0].size(), 0); std::vector<double> wsum(q[0].size(), 0); double nsrc = 0;
        for (int p = 0; p < P; p++) { auto e = r.get("pair", p), f = r.get("trg", p); if ((int)e.size() != R || (int)f.size() != R) return c.fail("missing", fmt("process %d stopped reporting", p)); const Pair *pp = (const Pair *)e[k]->data.data(); const int n = (int)(e[k]->data.size() / sizeof(Pair)); if (e[k]->data.size() < sizeof(Pair)) continue;
            for (int i = 0; i < n; i++) { Pair x; memcpy(&x, pp + i, sizeof x); if (x.t < 0 || x.t >= (int)q[0].size() || x.s < 0 || x.s >= (int)q[1].size()) return c.fail("pair", fmt("round %d: a pair of unknown particles %d and %d", k, x.t, x.s)); std::array<int, 5> key{x.t, x.s, 0, 0, 0};
                for (int d = 0; d < 3; d++) { const double rel = (x.b[d] - x.a[d]) - (q[1][x.s].pos[d] - q[0][x.t].pos[d]), m = std::round(rel / L[d]); if (std::fabs(rel - m * L[d]) > 1e-9 * (L[d] + std::fabs(O[d])) || (m != 0 && !(pbc >> d & 1))) return c.fail("pair", fmt("round %d: target %d and source %d meet at a distance that is no periodic image of theirs", k, x.t, x.s)); key[2 + d] = (int)m; } have[key]++; cnt[x.t]++; wsum[x.t] += x.s + 1; } }
        long want = 0; for (size_t a = 0; a < q[0].size(); a++) for (size_t b = 0; b < q[1].size(); b++) { const double m = std::max(q[0][a].rs, q[1][b].rs); int M[3]; for (int d = 0; d < 3; d++) M[d] = pbc >> d & 1 ? 1 + (int)(m / L[d]) : 0; for (int x = -M[0]; x <= M[0]; x++) for (int y = -M[1]; y <= M[1]; y++) for (int z = -M[2]; z <= M[2]; z++) { const int s[3] = {x, y, z}; double r2 = 0; for (int d = 0; d < 3; d++) { double v = q[1][b].pos[d] - q[0][a].pos[d] + s[d] * L[d]; r2 += v * v; } const double dist = std::sqrt(r2); std::array<int, 5> key{(int)a, (int)b, x, y, z}; auto it = have.find(key); const int n = it == have.end() ? 0 : it->second; if (it != have.end()) have.erase(it); if (std::fabs(dist - m) < 1e-8 * (1 + std::fabs(O[0]) + std::fabs(O[1]) + std::fabs(O[2]))) continue; const int need = dist < m; want += need; if (need && (x || y || z)) c.probe("pair with a periodic image"); if (n != need) return c.fail("pair", fmt("round %d: target %zu and image %d %d %d of source %zu, %.6g apart with search radius %.6g, interact %d times", k, a, x, y, z, b, dist, m, n)); } }
        if (!have.empty()) return c.fail("pair", "a pair of images beyond the search radius interacts"); c.probe("pair", want);
        for (int p = 0; p < P; p++) { auto f = r.get("trg", p); const double *v = (const double *)f[k]->data.data(); const int n = (int)(f[k]->data.size() / 8 - 2) / 4; if (v[4 * n] != n) return c.fail("result", fmt("round %d process %d: %g results for %d targets", k, p, v[4 * n], n)); nsrc += v[4 * n + 1]; if (!n) c.probe("process without targets"); for (int i = 0; i < n; i++) { const int g = (int)v[4 * i]; if (g < 0 || g >= (int)q[0].size() || seen[g]++) return c.fail("conservation", fmt("round %d: target %d is on two processes", k, g)); if (v[4 * i + 1] != g || v[4 * i + 2] != cnt[g] || v[4 * i + 3] != wsum[g]) return c.fail("result", fmt("round %d: the result for target %d is that of target %g with %g pairs; it has %d pairs", k, g, v[4 * i + 1], v[4 * i + 2], cnt[g])); } }
        for (int g : seen) if (g != 1) return c.fail("conservation", fmt("round %d: a target was lost", k)); if (nsrc != q[1].size()) return c.fail("conservation", fmt("round %d: %g of %zu sources are left", k, nsrc, q[1].size()));
    }
    c.nontrivial = P > 1;
}
static PropReg r17(Prop{"C17", "mix", 8, 1000, 10000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); t.seti("fseed", r.in(1, 1 << 30)); t.seti("rounds", r.in(1, 3)); t.seti("pbc", r.p(0.4) ? 7 : r.below(8)); const char *B[] = {"bx", "by", "bz"}, *Of[] = {"ox", "oy", "oz"}; double mn = 1e9; for (int d = 0; d < 3; d++) { double l = r.u(0.5, 8); t.setd(B[d], l); mn = std::min(mn, l); if (r.p(0.5)) t.setd(Of[d], r.u(-10, 10)); }
        for (int k = 0; k < 3; k++) { const int top = th ? 120 : 50; t.seti(fmt("t%d", k), r.p(0.1) ? r.in(0, 2) : r.in(1, top)); t.seti(fmt("s%d", k), r.p(0.1) ? r.in(1, 2) : r.in(1, top)); } double a = mn * r.logu(0.02, 0.45), b = mn * r.logu(0.02, 0.45); if (r.p(0.2)) b = a; t.setd("rtlo", a * r.u(0.2, 1)); t.setd("rthi", a); t.setd("rslo", b * r.u(0.2, 1)); t.setd("rshi", b); if (r.p(0.3)) t.setd("cluster", r.u(0.1, 1)); if (r.p(0.3)) t.setd("edge", r.u(0, 0.5)); if (r.p(0.4)) t.setd("outside", r.u(0, 0.5)); if (r.p(0.4)) t.setd("away", r.u(0, 0.7)); if (r.p(0.2)) t.set("skew", "one"); if (r.p(0.3)) t.seti("both", 1); },
    c17, "two random particle systems with random search radii, box and periodicity over several rounds with changing particle numbers; every pair and periodic image compared with all-pairs enumeration, results matched to targets. Non-trivial: more than one process.", {"search radii below 0.45 of the smallest box length"}, {{"rounds", "1"}, {"outside", "0"}, {"away", "0"}, {"edge", "0"}, {"cluster", "0"}, {"both", "0"}, {"t0", "1"}, {"s0", "1"}}});
