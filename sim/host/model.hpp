// Reference model and shared generators for the particle-system properties.
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <array>
#include <sstream>

struct V3 { double x = 0, y = 0, z = 0; double &operator[](int k) { return (&x)[k]; } double operator[](int k) const { return (&x)[k]; } };
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator-(V3 a) { return {-a.x, -a.y, -a.z}; }
inline V3 operator*(V3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
inline V3 operator*(double s, V3 a) { return a * s; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double norm(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { double n = norm(a); return n > 0 ? a * (1 / n) : V3{0, 0, 1}; }
struct Quat { double x = 0, y = 0, z = 0, w = 1; };
inline Quat qmul(Quat a, Quat b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
inline V3 qrot(Quat q, V3 v) { V3 u{q.x, q.y, q.z}; return 2.0 * dot(u, v) * u + (q.w * q.w - dot(u, u)) * v + 2.0 * q.w * cross(u, v); }
inline double qnorm(Quat q) { return std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); }

// shared with the rank drivers (rank/common.hpp): content is a function of (seed, tag, index)
inline uint64_t hat(uint64_t seed, uint64_t tag, uint64_t i) { return mix(mix(seed, tag), i); }
inline double hu(uint64_t seed, uint64_t tag, uint64_t i) { return (hat(seed, tag, i) >> 11) * (1.0 / 9007199254740992.0); }

// ---------------------------------------------------------------- what the ranks report
enum { VEL, OMEGA, VELCOL, OMEGACOL, VELBI, OMEGABI, VELNB, OMEGANB, VELBR, OMEGABR, FORCE, TORQUE, FCOL, TCOL, FBI, TBI, FNB, TNB, NVEC };
struct PRec {
    int gid, gidx, rank, group, imm; double r, rc, L, Lc, colBuf, sepmin; V3 pos; Quat q; V3 f[NVEC]; int owner, local;
    V3 dir() const { return qrot(q, {0, 0, 1}); }
    V3 end(int s) const { return pos + dir() * (0.5 * s * L); } // physical ends
};
struct CRec { double delta0, gamma, gammaLB; int gidI, gidJ, gI, gJ, oneSide, bil; double kappa; V3 nI, nJ, pI, pJ, lI, lJ; double S[9]; int owner; };
struct Frame {
    std::vector<std::vector<PRec>> by; std::vector<const PRec *> all; std::map<int, const PRec *> gid; int dup = 0;
    void index() { all.clear(); gid.clear(); dup = 0; for (auto &v : by) for (auto &p : v) { all.push_back(&p); if (!gid.emplace(p.gid, &p).second) dup++; } }
    Frame() {} Frame(const Frame &o) : by(o.by) { index(); } Frame &operator=(const Frame &o) { by = o.by; index(); return *this; }
};
inline std::vector<PRec> decodeP(const std::string &d, int owner) {
    const int W = 72; std::vector<PRec> v; size_t n = d.size() / sizeof(double) / W; const double *x = (const double *)d.data();
    for (size_t i = 0; i < n; i++, x += W) {
        PRec p; p.gid = (int)x[0]; p.gidx = (int)x[1]; p.rank = (int)x[2]; p.group = (int)x[3]; p.imm = (int)x[4]; p.r = x[5]; p.rc = x[6]; p.L = x[7]; p.Lc = x[8]; p.colBuf = x[9]; p.sepmin = x[10];
        p.pos = {x[11], x[12], x[13]}; p.q = {x[14], x[15], x[16], x[17]}; for (int k = 0; k < NVEC; k++) p.f[k] = {x[18 + 3 * k], x[19 + 3 * k], x[20 + 3 * k]}; p.owner = owner; p.local = (int)i; v.push_back(p);
    }
    return v;
}
inline std::vector<CRec> decodeC(const std::string &d, int owner) {
    const int W = 37; std::vector<CRec> v; size_t n = d.size() / sizeof(double) / W; const double *x = (const double *)d.data();
    for (size_t i = 0; i < n; i++, x += W) {
        CRec c; c.delta0 = x[0]; c.gamma = x[1]; c.gammaLB = x[2]; c.gidI = (int)x[3]; c.gidJ = (int)x[4]; c.gI = (int)x[5]; c.gJ = (int)x[6]; c.oneSide = (int)x[7]; c.bil = (int)x[8]; c.kappa = x[9];
        V3 *t[6] = {&c.nI, &c.nJ, &c.pI, &c.pJ, &c.lI, &c.lJ}; for (int k = 0; k < 6; k++) *t[k] = {x[10 + 3 * k], x[11 + 3 * k], x[12 + 3 * k]}; for (int k = 0; k < 9; k++) c.S[k] = x[28 + k]; c.owner = owner; v.push_back(c);
    }
    return v;
}
// the i-th report with this tag of every rank makes frame i
inline std::vector<Frame> frames(const JobResult &r, const std::string &tag, int nranks) {
    std::vector<Frame> f; std::vector<size_t> n(nranks, 0);
    for (auto &x : r.rec) if (x.tag == tag) { size_t i = n[x.rank]++; if (f.size() <= i) f.resize(i + 1); f[i].by.resize(nranks); f[i].by[x.rank] = decodeP(x.data, x.rank); }
    for (auto &x : f) x.index(); return f;
}
inline std::vector<std::vector<CRec>> conFrames(const JobResult &r, int nranks, const std::string &tag = "con") {
    std::vector<std::vector<CRec>> f; std::vector<size_t> n(nranks, 0);
    for (auto &x : r.rec) if (x.tag == tag) { size_t i = n[x.rank]++; if (f.size() <= i) f.resize(i + 1); auto v = decodeC(x.data, x.rank); f[i].insert(f[i].end(), v.begin(), v.end()); }
    return f;
}
inline std::vector<double> asDoubles(const std::string &d) { std::vector<double> v(d.size() / 8); if (!v.empty()) memcpy(v.data(), d.data(), v.size() * 8); return v; }
inline std::vector<int> asInts(const std::string &d) { std::vector<int> v(d.size() / 4); if (!v.empty()) memcpy(v.data(), d.data(), v.size() * 4); return v; }

// ---------------------------------------------------------------- the configuration
struct Sys { // decoded from a test case
    V3 lo, hi; int pbc[3]; double visc, kbt, dt, snap, tol, colBuf, dcr, lcr, kappa, gap; int maxite, solver, mono, fixed, presteps; uint64_t rngSeed;
    struct P { char type; int gid; double r; V3 c, d; double L; int group; };
    struct B { std::string type; V3 c, a; double R = 0; int inside = 1; };
    std::vector<P> ps; std::vector<std::pair<int, int>> links; std::vector<B> bs;
    double edge(int k) const { return hi[k] - lo[k]; }
};
inline V3 vec3(const std::string &s) { V3 v; sscanf(s.c_str(), "%lf,%lf,%lf", &v.x, &v.y, &v.z); return v; }
inline Sys sysOf(const TestCase &t) {
    Sys s; s.lo = vec3(t.s("lo", "0,0,0")); s.hi = vec3(t.s("hi", "10,10,10")); V3 p = vec3(t.s("pbc", "0,0,0")); for (int k = 0; k < 3; k++) s.pbc[k] = (int)p[k];
    s.visc = t.d("visc", 1); s.kbt = t.d("kbt", 0); s.dt = t.d("dt", 0.01); s.snap = t.d("snap", 0.05); s.tol = t.d("tol", 1e-6); s.colBuf = t.d("colBuf", 0.3); s.dcr = t.d("dcr", 1); s.lcr = t.d("lcr", 1); s.kappa = t.d("kappa", 100); s.gap = t.d("gap", 0.01);
    s.maxite = (int)t.i("maxite", 20000); s.solver = (int)t.i("solver", 0); s.mono = (int)t.i("mono"); s.fixed = (int)t.i("fixed"); s.presteps = (int)t.i("presteps", 0); s.rngSeed = (uint64_t)t.i("rngSeed", 1);
    for (auto &it : t.items) {
        std::istringstream in(it); std::string k; in >> k;
        if (k == "P") { Sys::P q; in >> q.type >> q.gid >> q.r >> q.c.x >> q.c.y >> q.c.z >> q.d.x >> q.d.y >> q.d.z >> q.L >> q.group; s.ps.push_back(q); }
        else if (k == "L") { int a, b; in >> a >> b; s.links.push_back({a, b}); }
        else if (k == "B") { Sys::B b; in >> b.type >> b.c.x >> b.c.y >> b.c.z; if (b.type == "wall") in >> b.a.x >> b.a.y >> b.a.z; else if (b.type == "tube") in >> b.a.x >> b.a.y >> b.a.z >> b.R >> b.inside; else in >> b.R >> b.inside; s.bs.push_back(b); }
    }
    // links only make sense between existing particles (minimisation may have dropped some)
    std::set<int> g; for (auto &q : s.ps) g.insert(q.gid); std::vector<std::pair<int, int>> l; for (auto &x : s.links) if (g.count(x.first) && g.count(x.second)) l.push_back(x); s.links = l;
    return s;
}
inline std::string yamlOf(const TestCase &t, const Sys &s) {
    std::string y; auto v3 = [&](const char *k, V3 v) { y += fmt("%s: [%.17g, %.17g, %.17g]\n", k, v.x, v.y, v.z); };
    y += fmt("rngSeed: %llu\n", (unsigned long long)s.rngSeed); v3("simBoxLow", s.lo); v3("simBoxHigh", s.hi); y += fmt("simBoxPBC: [%s, %s, %s]\n", s.pbc[0] ? "true" : "false", s.pbc[1] ? "true" : "false", s.pbc[2] ? "true" : "false");
    y += fmt("viscosity: %.17g\nKBT: %.17g\nsylinderNumber: %ld\nsylinderLength: %.17g\nsylinderDiameter: %.17g\n", s.visc, s.kbt, t.i("number", 10), t.d("length", 1.0), t.d("diameter", 0.2));
    y += fmt("dt: %.17g\ntimeTotal: %.17g\ntimeSnap: %.17g\nconResTol: %.17g\nconMaxIte: %d\nconSolverChoice: %d\n", s.dt, t.d("total", 1.0), s.snap, s.tol, s.maxite, s.solver);
    y += fmt("logLevel: %ld\ntimerLevel: 6\nmonolayer: %s\ninitPreSteps: %d\nlinkKappa: %.17g\nlinkGap: %.17g\nsylinderFixed: %s\n", t.i("log", 5), s.mono ? "true" : "false", s.presteps, s.kappa, s.gap, s.fixed ? "true" : "false");
    y += fmt("sylinderDiameterColRatio: %.17g\nsylinderLengthColRatio: %.17g\nsylinderColBuf: %.17g\n", s.dcr, s.lcr, s.colBuf);
    if (t.has("lsigma")) y += fmt("sylinderLengthSigma: %.17g\n", t.d("lsigma"));
    if (t.has("initlo")) v3("initBoxLow", vec3(t.s("initlo"))); if (t.has("inithi")) v3("initBoxHigh", vec3(t.s("inithi"))); if (t.has("orient")) v3("initOrient", vec3(t.s("orient"))); if (t.i("circx")) y += "initCircularX: true\n";
    if (!s.bs.empty()) {
        y += "boundaries:\n";
        for (auto &b : s.bs) { y += "  - type: " + b.type + "\n" + fmt("    center: [%.17g, %.17g, %.17g]\n", b.c.x, b.c.y, b.c.z); if (b.type == "wall") y += fmt("    norm: [%.17g, %.17g, %.17g]\n", b.a.x, b.a.y, b.a.z); else { if (b.type == "tube") y += fmt("    axis: [%.17g, %.17g, %.17g]\n", b.a.x, b.a.y, b.a.z); y += fmt("    radius: %.17g\n    inside: %s\n", b.R, b.inside ? "true" : "false"); } }
    }
    return y;
}
inline std::string datOf(const Sys &s) {
    std::string o = fmt("%zu\n0.0\n", s.ps.size());
    for (auto &p : s.ps) { V3 m = p.c - p.d * (0.5 * p.L), q = p.c + p.d * (0.5 * p.L); o += fmt("%c %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d\n", p.type, p.gid, p.r, m.x, m.y, m.z, q.x, q.y, q.z, p.group); }
    for (auto &l : s.links) o += fmt("L %d %d\n", l.first, l.second);
    return o;
}
inline void putFiles(const TestCase &t, const Sys &s, FsImage &fs, bool positions = true) { fs.files["RunConfig.yaml"] = yamlOf(t, s); if (positions) fs.files["SylinderInitial.dat"] = datOf(s); }
inline std::string blobOf(const TestCase &t) { std::string o; for (auto &k : t.kv) o += k.first + "=" + k.second + "\n"; return o; }
inline JobSpec sysJob(const TestCase &t, const Sys &s, const std::string &entry = "steps") { JobSpec j = jobFrom(t, entry); j.blob = blobOf(t); putFiles(t, s, j.fs, !t.i("noinit")); return j; }

// ---------------------------------------------------------------- generators
inline V3 rdir(Rng &r) { V3 v; do v = {r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)}; while (norm(v) < 0.1 || norm(v) > 1); return unit(v); }
inline std::string v3s(V3 v) { return fmt("%.17g,%.17g,%.17g", v.x, v.y, v.z); }
inline std::string itemP(char type, int gid, double r, V3 c, V3 d, double L, int group) { return fmt("P %c %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d", type, gid, r, c.x, c.y, c.z, d.x, d.y, d.z, L, group); }
struct GenOpt { int maxN = 40; bool pbc = true, rods = true, spheres = true, immovable = true, colRatio = false, overlap = true; double maxLenFrac = 0.3; bool gids = true; int minN = 0; };
// a box with particles: clustered at faces / edges / corners, uniformly spread, or in a dense clump
inline void genSystem(Rng &r, TestCase &t, const GenOpt &o = GenOpt()) {
    V3 lo{r.u(-20, 5), r.u(-20, 5), r.u(-20, 5)}, e; double base = r.u(4, 9); for (int k = 0; k < 3; k++) e[k] = base * r.u(0.7, 1.6); if (r.p(0.3)) lo = {0, 0, 0};
    V3 hi = lo + e; int pbc[3] = {0, 0, 0}; if (o.pbc) for (int k = 0; k < 3; k++) pbc[k] = r.p(0.55);
    t.set("lo", v3s(lo)); t.set("hi", v3s(hi)); t.set("pbc", fmt("%d,%d,%d", pbc[0], pbc[1], pbc[2]));
    int n = r.p(0.12) ? r.in(1, 4) : r.in(5, o.maxN); n = std::max(n, o.minN); double em = std::min(e.x, std::min(e.y, e.z));
    // mode 4: on a lattice, many equal coordinates
    double rad = em * r.u(0.015, 0.05), maxL = em * o.maxLenFrac; int mode = (int)r.below(5); const int grid = r.in(2, 5); const double gridAt = r.p(0.4) ? 0 : 0.5; bool mixedR = r.p(0.5);
    V3 c0{r.u(lo.x, hi.x), r.u(lo.y, hi.y), r.u(lo.z, hi.z)}; if (r.p(0.5)) for (int k = 0; k < 3; k++) if (r.p(0.6)) c0[k] = r.p(0.5) ? lo[k] : hi[k];
    double spread = em * r.u(0.08, 0.3); int g = 0; bool sparse = o.gids && r.p(0.5);
    const double along = r.p(0.25) ? r.u(0.2, 1) : 0; V3 common = rdir(r); if (r.p(0.6)) { common = {0, 0, 0}; common[(int)r.below(3)] = r.p(0.5) ? 1 : -1; } // share of exactly parallel or antiparallel particles
    std::vector<V3> cs;
    for (int i = 0; i < n; i++) {
        V3 c; if (mode == 4) for (int k = 0; k < 3; k++) c[k] = lo[k] + e[k] * ((double)r.below(grid) + gridAt) / grid; else if (mode == 0) c = {r.u(lo.x, hi.x), r.u(lo.y, hi.y), r.u(lo.z, hi.z)}; else if (mode == 3 && r.p(0.4)) { c = {r.u(lo.x, hi.x), r.u(lo.y, hi.y), r.u(lo.z, hi.z)}; int k = (int)r.below(3); c[k] = (r.p(0.5) ? lo[k] : hi[k]) + r.u(-1, 1) * em * 0.05; } else c = c0 + V3{r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)} * spread;
        for (int k = 0; k < 3; k++) { double w = hi[k] - lo[k]; if (pbc[k]) { while (c[k] < lo[k]) c[k] += w; while (c[k] >= hi[k]) c[k] -= w; } else c[k] = std::min(std::max(c[k], lo[k] + 1e-3 * w), hi[k] - 1e-3 * w); }
        double R = mixedR ? rad * r.u(0.4, 1.8) : rad, L; int kind = o.rods && o.spheres ? (int)r.below(4) : o.rods ? 1 : 0;
        L = kind == 0 ? (r.p(0.5) ? 0.0 : R * r.u(0.1, 1.8)) : kind == 1 ? R * r.u(2.3, 6) : r.u(std::min(4 * R, maxL * 0.5), maxL);
        if (L > maxL) L = maxL;
        bool ok = true; for (auto &q : cs) if (norm(q - c) < 1e-3 * em) ok = false; if (!ok) continue; cs.push_back(c);
        t.items.push_back(itemP(o.immovable && r.p(0.08) ? 'S' : 'C', g, R, c, along > 0 && r.p(along) ? common * (r.p(0.5) ? 1.0 : -1.0) : rdir(r), L, r.p(0.5) ? r.in(-1, 5) : -1)); g += sparse ? r.in(1, 50) : 1;
    }
    if (o.gids && r.p(0.6)) for (size_t i = t.items.size(); i > 1; i--) std::swap(t.items[i - 1], t.items[r.below(i)]);
    if (o.colRatio && r.p(0.4)) { t.setd("dcr", r.p(0.5) ? r.u(1.0, 1.5) : r.u(0.7, 1.0)); if (r.p(0.5)) t.setd("lcr", r.u(0.7, 1.3)); }
    t.setd("visc", r.u(0.2, 3)); t.setd("dt", r.p(0.5) ? 0.01 : r.u(0.0005, 0.02)); t.setd("colBuf", r.p(0.5) ? 0.3 : r.u(0.0, 0.6)); t.seti("rngSeed", r.in(0, 1000000)); t.setd("snap", 1000); t.setd("tol", 1e-6); t.seti("solver", r.p(0.3)); t.seti("presteps", r.p(0.25) ? r.in(1, 3) : 0);
}
inline void genLinks(Rng &r, TestCase &t) { // chains in gid order between particles whose facing ends are within reach
    std::vector<int> gids; for (auto &i : t.items) if (i[0] == 'P') { int g; sscanf(i.c_str() + 4, "%d", &g); gids.push_back(g); }
    std::sort(gids.begin(), gids.end()); if (gids.size() < 2) return; int n = r.in(1, (int)std::min<size_t>(gids.size(), 12));
    for (int i = 0; i < n; i++) { size_t a = r.below(gids.size()), b = r.p(0.6) ? a + 1 : r.below(gids.size()); if (b >= gids.size() || a == b) continue; std::string l = fmt("L %d %d", gids[a], gids[b]); if (std::find(t.items.begin(), t.items.end(), l) == t.items.end() && std::find(t.items.begin(), t.items.end(), fmt("L %d %d", gids[b], gids[a])) == t.items.end()) t.items.push_back(l); }
}
inline void longRun(Rng &r, TestCase &t, double prob, int keep = 7) { // few particles, but past step 50, where the domains are decomposed anew and result folders change
    if (!r.p(prob)) return; t.seti("steps", r.in(51, 54)); t.seti("nranks", std::min(t.i("nranks"), 4L)); t.seti("nthreads", 1); for (const char *k : {"preempt", "races"}) t.kv.erase(k);
    std::vector<std::string> v; std::set<int> in; for (auto &i : t.items) if (i[0] == 'P') { if ((int)in.size() < keep) { int g; sscanf(i.c_str() + 4, "%d", &g); in.insert(g); v.push_back(i); } } else if (i[0] == 'L') { int a, b; sscanf(i.c_str() + 1, "%d %d", &a, &b); if (in.count(a) && in.count(b)) v.push_back(i); } else v.push_back(i);
    t.items = v;
}

// ---------------------------------------------------------------- geometry
// distance between segments [a0,a1] and [b0,b1] and one pair of closest points (Ericson, with exact fallbacks on the four ends)
inline double segseg(V3 a0, V3 a1, V3 b0, V3 b1, V3 &P, V3 &Q) {
    auto cl = [](double v) { return std::min(1.0, std::max(0.0, v)); };
    auto pt = [&](V3 p, V3 s0, V3 s1) { V3 d = s1 - s0; double dd = dot(d, d); return dd > 0 ? s0 + d * cl(dot(p - s0, d) / dd) : s0; };
    double best = 1e300; auto take = [&](V3 p, V3 q) { double d = norm(p - q); if (d < best) { best = d; P = p; Q = q; } };
    take(a0, pt(a0, b0, b1)); take(a1, pt(a1, b0, b1)); take(pt(b0, a0, a1), b0); take(pt(b1, a0, a1), b1);
    V3 u = a1 - a0, v = b1 - b0, w = a0 - b0; double a = dot(u, u), b = dot(u, v), c = dot(v, v), d = dot(u, w), e = dot(v, w), D = a * c - b * b;
    if (D > 1e-14 * a * c && a > 0 && c > 0) { double s = (b * e - c * d) / D, t = (a * e - b * d) / D; if (s > 0 && s < 1 && t > 0 && t < 1) take(a0 + u * s, b0 + v * t); }
    return best;
}
inline double ptseg(V3 p, V3 s0, V3 s1) { V3 d = s1 - s0; double dd = dot(d, d), t = dd > 0 ? std::min(1.0, std::max(0.0, dot(p - s0, d) / dd)) : 0; return norm(p - (s0 + d * t)); }
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline bool near(V3 a, V3 b, double tol) { return norm(a - b) <= tol; }
inline std::string str(V3 v) { return fmt("(%.6g %.6g %.6g)", v.x, v.y, v.z); }
inline std::string caseTag(const TestCase &t) { return fmt("%ld ranks x %ld threads", t.i("nranks", 1), t.i("nthreads", 1)); }
// mobility per the documentation: sphere drag below aspect ratio 1, slender-body drag above
struct Mob { double para = 0, perp = 0, rot = 0; };
inline Mob mobOf(const PRec &p, double mu) {
    const double pi = 3.14159265358979323846; Mob m; if (p.imm) return m;
    if (p.L < 2 * p.r) { double R = 0.5 * p.L + p.r; m.para = m.perp = 1 / (6 * pi * R * mu); m.rot = 1 / (8 * pi * R * R * R * mu); }
    else { double b = -(1 + 2 * std::log(p.r / p.L)); m.para = (2 * b) / (8 * pi * p.L * mu); m.perp = (b + 2) / (8 * pi * p.L * mu); m.rot = 3 * (b + 2) / (2 * pi * mu * p.L * p.L * p.L); }
    return m;
}
inline V3 applyMob(const Mob &m, V3 dir, V3 F) { double a = dot(dir, F); return dir * (a * m.para) + (F - dir * a) * m.perp; }
