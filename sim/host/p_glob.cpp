#include "geo.hpp"
// ---------------------------------------------------------------- global statistics
typedef std::array<double, 9> M3;
static M3 outer(V3 a, V3 b, double w = 1) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[3 * i + j] = w * a[i] * b[j]; return m; }
static void addTo(M3 &a, const M3 &b, double w = 1) { for (int k = 0; k < 9; k++) a[k] += w * b[k]; }
// second moments of a sphero-cylinder of unit density around its centre: perpendicular and along the axis
static void moments(double r, double h, double &perp, double &axis) {
    double cyl = M_PI * r * r * h, cap = 2.0 / 3 * M_PI * r * r * r, z = 0.5 * h; // two half spheres, centroids 3/8 r beyond the ends
    perp = cyl * r * r / 4 + 2 * cap * r * r / 5; axis = cyl * h * h / 12 + 2 * (cap * (z * z + 2 * z * 3 * r / 8) + cap * r * r / 5);
}
static M3 torqueStress(V3 d, double r, double h, V3 tau) { // stress of a rigid body under a torque: N . eps . Gamma^-1 tau
    double a, b; moments(r, h, a, b); double gx = a + b, gz = 2 * a; V3 w = tau * (1 / gx) + d * (dot(d, tau) * (1 / gz - 1 / gx)); M3 m;
    for (int i = 0; i < 3; i++) { V3 n = d * ((b - a) * d[i]); n[i] += a; V3 x = cross(w, n); for (int j = 0; j < 3; j++) m[3 * i + j] = x[j]; } // eps_jkl w_k n_l
    return m;
}
static M3 blockStress(const CRec &b, const PRec &A, const PRec &B) { // per unit multiplier
    V3 cI = b.lI - b.pI, cJ = b.lJ - b.pJ, F = b.nJ; M3 m = outer(cJ - cI, F);
    auto part = [&](const PRec &p, V3 arm, V3 f) { double r = b.bil ? p.r : sph(p) ? 0.5 * p.Lc + p.rc : p.rc, h = b.bil ? p.L : sph(p) ? 0 : p.Lc; V3 d = !b.bil && sph(p) ? V3{0, 0, 1} : p.dir(); addTo(m, torqueStress(d, r, h, cross(arm, f))); };
    part(A, b.pI, -F); part(B, b.pJ, F); return m;
}
static bool numbers(const std::string &log, const char *key, int n, std::vector<double> &v) { // the last record with this key
    size_t p = log.rfind(key); if (p == std::string::npos) return false; std::string s = log.substr(p + strlen(key)); s = s.substr(0, s.find('\n')); v.clear(); const char *c = s.c_str();
    while (*c) { if ((*c >= '0' && *c <= '9') || *c == '-' || *c == '+' || *c == 'i' || (*c == 'n' && c[1] == 'a')) { char *e; double x = strtod(c, &e); if (e == c) { c++; continue; } v.push_back(x); c = e; } else c++; }
    return (int)v.size() == n;
}
static void c11(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto con = conFrames(r, nr); std::vector<std::string> lg; std::vector<std::vector<double>> bb;
    for (auto &x : r.rec) { if (x.tag == "stats" && x.rank == 0) lg.push_back(x.data); if (x.tag == "bbox") bb.push_back(asDoubles(x.data)); }
    size_t n = (size_t)t.i("steps"); if (prep.size() != n || post.size() != n || con.size() != n || lg.size() != n || bb.size() != n * nr) return c.fail("missing", "a rank stopped reporting");
    for (size_t i = 0; i < n && !c.bad(); i++) {
        std::string when = fmt("step %zu", i); std::vector<double> v; const Frame &f = post[i]; const double N = (double)f.all.size();
        auto is = [&](const char *what, double got, double want, double scale) { if (!(std::fabs(got - want) <= 1e-5 * std::fabs(want) + 1e-9 * scale)) c.fail("wrong-statistic", when + fmt(": %s reported as %.6g, the particles give %.9g", what, got, want)); };
        double vol = 0; V3 P; M3 Q{}; for (auto *p : f.all) { vol += M_PI * (p->L * p->r * p->r + 4.0 / 3 * p->r * p->r * p->r); V3 d = p->dir(); P = P + d; addTo(Q, outer(d, d)); for (int k = 0; k < 3; k++) Q[4 * k] -= 1.0 / 3; }
        if (!numbers(lg[i], "Volume Sylinder = ", 1, v)) return c.fail("missing", when + ": no volume reported"); is("total volume", v[0], vol, vol);
        if (!numbers(lg[i], "Volume fraction = ", 1, v)) return c.fail("missing", when + ": no volume fraction reported"); is("volume fraction", v[0], vol / (s.edge(0) * s.edge(1) * s.edge(2)), vol / (s.edge(0) * s.edge(1) * s.edge(2)));
        if (!numbers(lg[i], "RECORD: Order P", 12, v)) return c.fail("missing", when + ": no order parameters reported"); for (int k = 0; k < 3; k++) is("polar order", v[k], P[k] / N, 1); for (int k = 0; k < 9; k++) is("nematic order", v[3 + k], Q[k] / N, 1);
        M3 S[2] = {{}, {}}; double sc = 0; bool degenerate = false;
        for (auto &b : con[i]) { if (b.oneSide) { c.probe("wall contact left out"); continue; } const PRec &A = *prep[i].gid.at(b.gidI), &B = *prep[i].gid.at(b.gidJ); if (norm(b.nI) < 0.5) { degenerate = true; continue; } M3 m = blockStress(b, A, B); addTo(S[b.bil ? 1 : 0], m, b.gamma); double q = 0; for (double x : m) q += std::fabs(x); sc += (q + 1e-7 * (norm(A.pos - B.pos) + A.L + B.L + A.r + B.r)) * std::fabs(b.gamma); if (b.gamma != 0) c.probe(b.bil ? "link stress" : "contact stress"); }
        double sf = 1 / (N * s.kbt); if (!degenerate) for (int q = 0; q < 2; q++) { if (!numbers(lg[i], q ? "RECORD: BiXF" : "RECORD: ColXF", 9, v)) return c.fail("missing", when + ": no stress reported"); for (int k = 0; k < 9; k++) is(q ? "link stress" : "contact stress", v[k], S[q][k] * sf, sc * sf + 1e-290); }
        if (sc > 0) c.nontrivial = nr > 1;
    }
    std::vector<int> cnt(nr, 0);
    for (auto &x : r.rec) if (x.tag == "bbox" && !c.bad()) {
        int i = cnt[x.rank]++; auto v = asDoubles(x.data); V3 gl{1e300, 1e300, 1e300}, gh{-1e300, -1e300, -1e300}, ll = gl, lh = gh; bool any = false;
        for (auto *p : post[i].all) for (int e = -1; e <= 1; e += 2) { V3 q = p->end(e); for (int k = 0; k < 3; k++) { gl[k] = std::min(gl[k], q[k]); gh[k] = std::max(gh[k], q[k]); if (p->owner == x.rank) { any = true; ll[k] = std::min(ll[k], q[k]); lh[k] = std::max(lh[k], q[k]); } } }
        for (int k = 0; k < 3 && !c.bad(); k++) {
            double tol = 1e-10 * (1 + std::fabs(gl[k]) + std::fabs(gh[k]));
            if (std::fabs(v[6 + k] - gl[k]) > tol || std::fabs(v[9 + k] - gh[k]) > tol) c.fail("bounding-box", fmt("step %d: rank %d is told the particles extend from %.9g to %.9g along axis %d, they extend from %.9g to %.9g", i, x.rank, v[6 + k], v[9 + k], k, gl[k], gh[k]));
            else if (any && (std::fabs(v[k] - ll[k]) > tol || std::fabs(v[3 + k] - lh[k]) > tol)) c.fail("bounding-box", fmt("step %d: particles of rank %d extend from %.9g to %.9g along axis %d, reported %.9g to %.9g", i, x.rank, ll[k], lh[k], k, v[k], v[3 + k]));
            if (gh[k] < 0) c.probe("bounding box below zero"); if (!any) c.probe("bounding box on a rank without particles");
        }
    }
}
// ---------------------------------------------------------------- adding particles and links
static void c07(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return; const int at = (int)t.i("addAt"), rounds = t.i("addTwice") ? 2 : 1;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr), added = frames(r, "added", nr); auto con = conFrames(r, nr); size_t n = (size_t)t.i("steps");
    if (prep.size() != n || post.size() != n || con.size() != n || added.size() != (size_t)rounds) return c.fail("missing", "a rank stopped reporting");
    std::map<int, PRec> want; for (auto *p : post[at].all) want[p->gid] = *p; int mx = 0; for (auto &w : want) mx = std::max(mx, w.first);
    std::multiset<std::pair<int, int>> ls(s.links.begin(), s.links.end()); std::vector<int> ns(nr, 0), ng(nr, 0), nl(nr, 0);
    for (int k = 0; k < rounds && !c.bad(); k++) {
        std::set<int> fresh; size_t total = 0; std::vector<std::vector<double>> spec(nr); std::vector<std::vector<int>> got(nr); std::vector<int> q1(nr, 0), q2(nr, 0), q3(nr, 0);
        for (auto &x : r.rec) {
            if (x.tag == "addspec" && q1[x.rank]++ == k) spec[x.rank] = asDoubles(x.data); if (x.tag == "addgid" && q2[x.rank]++ == k) got[x.rank] = asInts(x.data);
            if (x.tag == "addlink" && q3[x.rank]++ == k) { auto l = asInts(x.data); for (size_t i = 0; i + 1 < l.size(); i += 2) ls.insert({l[i], l[i + 1]}); }
        }
        for (int p = 0; p < nr; p++) {
            size_t m = spec[p].size() / 11; if (got[p].size() != m) return c.fail("wrong-count", fmt("rank %d added %zu particles and was given %zu numbers", p, m, got[p].size()));
            for (size_t i = 0; i < m; i++) {
                const double *x = &spec[p][11 * i]; int g = got[p][i]; total++;
                if (want.count(g) || !fresh.insert(g).second) return c.fail("gid-not-unique", fmt("addition %d: rank %d was given number %d, which another particle has", k, p, g)); if (g <= mx) return c.fail("gid-reused", fmt("addition %d: number %d given although %d is in use", k, g, mx));
                PRec w; w.gid = g; w.pos = {x[0], x[1], x[2]}; w.q = {x[3], x[4], x[5], x[6]}; w.r = x[7]; w.L = x[8]; w.imm = (int)x[9]; w.group = (int)x[10]; w.owner = p; want[g] = w;
            }
        }
        if (total) { c.probe("particles added", (double)total); if (*fresh.rbegin() != mx + (int)total) return c.fail("gid-range", fmt("addition %d: %zu new particles got numbers up to %d, highest before %d", k, total, *fresh.rbegin(), mx)); mx = *fresh.rbegin(); c.nontrivial = nr > 1; }
        const Frame &f = added[k]; if (f.dup || f.all.size() != want.size()) return c.fail("lost", fmt("addition %d: %zu particles, expected %zu (%d twice)", k, f.all.size(), want.size(), f.dup));
        for (auto *p : f.all) { auto w = want.find(p->gid); if (w == want.end()) return c.fail("invented", fmt("addition %d: particle %d", k, p->gid)); const PRec &q = w->second; if (p->owner != q.owner || norm(p->pos - q.pos) > 0 || p->q.w != q.q.w || p->q.x != q.q.x || p->r != q.r || p->L != q.L || p->imm != q.imm || p->group != q.group) return c.fail("altered", fmt("addition %d: particle %d is not what was added (position %s, expected %s)", k, p->gid, str(p->pos).c_str(), str(q.pos).c_str())); }
    }
    for (auto &x : r.rec) if ((x.tag == "links" || x.tag == "rlinks") && !c.bad()) {
        int &k = (x.tag == "links" ? ns : nl)[x.rank]; k++; auto v = asInts(x.data); std::multiset<std::pair<int, int>> m; for (size_t i = 0; i + 1 < v.size(); i += 2) m.insert(x.tag == "links" ? std::make_pair(v[i], v[i + 1]) : std::make_pair(v[i + 1], v[i]));
        std::multiset<std::pair<int, int>> w = k == 1 ? std::multiset<std::pair<int, int>>(s.links.begin(), s.links.end()) : ls; if (m != w) return c.fail("links-differ", fmt("rank %d knows %zu links %s, there are %zu", x.rank, m.size(), k == 1 ? "at start" : "after the addition", w.size()));
    }
    for (size_t i = at + 1; i < n && !c.bad(); i++) { // the enlarged system steps on
        std::string when = fmt("step %zu", i); if (prep[i].dup || post[i].dup || prep[i].all.size() != want.size() || post[i].all.size() != want.size()) return c.fail("lost", when + fmt(": %zu particles, expected %zu", prep[i].all.size(), want.size()));
        for (auto *p : prep[i].all) { auto w = want.find(p->gid); if (w == want.end()) return c.fail("invented", when + fmt(": particle %d", p->gid)); const PRec &q = w->second; if (p->r != q.r || p->L != q.L || p->imm != q.imm || p->group != q.group) return c.fail("altered", when + fmt(": particle %d", p->gid));
            if (i == (size_t)at + 1) for (int k = 0; k < 3; k++) { double d = p->pos[k] - q.pos[k], w = s.edge(k); if (s.pbc[k]) d -= w * std::round(d / w); if (std::fabs(d) > 1e-9 * (w + std::fabs(q.pos[k]))) return c.fail("misplaced", when + fmt(": particle %d starts at %s, put at %s", p->gid, str(p->pos).c_str(), str(q.pos).c_str())); } }
        std::vector<std::pair<int, int>> l(ls.begin(), ls.end()); bool nontriv = c.nontrivial; configured(s, prep[i]); checkBlocks(c, con[i], prep[i], when); if (!c.bad()) pairs(c, s, prep[i], con[i], when); if (!c.bad()) links(c, s, l, prep[i], con[i], when); c.nontrivial = nontriv;
    }
}
static PropReg r11(Prop{"C11", "sys", 8, 500, 5000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); GenOpt o; o.maxN = th ? 80 : 30; o.colRatio = true; o.minN = 1; genSystem(r, t, o); if (r.p(0.4)) genLinks(r, t); if (r.p(0.25)) genWalls(r, t); if (r.p(0.25)) { Sys s = sysOf(t); V3 sh{r.u(-60, 30), r.u(-60, 30), r.u(-60, 30)}; t.set("lo", v3s(s.lo + sh)); t.set("hi", v3s(s.hi + sh)); for (auto &it : t.items) if (it[0] == 'P') { Sys::P q; std::istringstream in(it); std::string k; in >> k >> q.type >> q.gid >> q.r >> q.c.x >> q.c.y >> q.c.z >> q.d.x >> q.d.y >> q.d.z >> q.L >> q.group; it = itemP(q.type, q.gid, q.r, q.c + sh, q.d, q.L, q.group); } }
        t.seti("steps", r.in(1, 3)); t.seti("stats", 1); t.seti("log", 2); t.setd("kbt", r.u(1e-4, 1e-2)); t.seti("maxite", r.in(1, 100)); t.seti("fseed", r.in(1, 1 << 30)); if (r.p(0.5)) { Sys s = sysOf(t); t.setd("vmag", s.edge(0) / s.dt * r.u(0.001, 0.1)); } if (r.p(0.1)) t.seti("mono", 1); t.setd("kappa", r.p(0.2) ? 0.0 : r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); },
    c11, "random particle set with contacts, links, walls and Brownian motion, boxes anywhere in space; every statistic recomputed serially from the particles and constraints of all processes. Non-trivial: more than one process and constraint forces.",
    {"statistics are compared at the six digits they are reported with"}, {{"presteps", "0"}, {"vmag", ""}, {"mono", ""}, {"colBuf", "0.3"}, {"dcr", ""}, {"lcr", ""}}});
static PropReg r07(Prop{"C07", "sys", 8, 500, 5000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 3); GenOpt o; o.maxN = th ? 60 : 20; o.minN = 1; o.colRatio = true; genSystem(r, t, o); t.seti("presteps", 0); if (r.p(0.5)) genLinks(r, t); t.seti("addAt", r.in(0, 1)); t.seti("steps", t.i("addAt") + r.in(2, 3)); t.seti("fseed", r.in(1, 1 << 30)); t.seti("addMax", r.p(0.2) ? 30 : r.in(0, 6)); if (r.p(0.2)) t.seti("addTo", r.in(0, (int)t.i("nranks") - 1)); if (r.p(0.4)) t.seti("addTwice", 1); if (r.p(0.7)) t.seti("addLinks", r.in(1, 4));
        Sys s = sysOf(t); double em = std::min(s.edge(0), std::min(s.edge(1), s.edge(2))); t.setd("addR", em * r.u(0.01, 0.05)); t.setd("addL", em * 0.2); if (r.p(0.4)) t.setd("vmag", s.edge(0) / s.dt * r.u(0.001, 0.2)); t.seti("maxite", 40); t.setd("kappa", r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); longRun(r, t, 0.02); if (t.i("steps") > 20) t.seti("addAt", r.in(47, (int)t.i("steps") - 3)); },
    c07, "random particle set to which every process adds its own number of particles (possibly none, possibly many, possibly twice) and links at a random step; numbering, properties, link tables and the following steps checked. Non-trivial: more than one process and at least one added particle.",
    {"links are added after their particles, by one process each"}, {{"addTwice", ""}, {"addLinks", ""}, {"vmag", ""}, {"dcr", ""}, {"lcr", ""}}});
// ---------------------------------------------------------------- every run finishes: no race, deadlock, unmatched message or abort in any mix of features
static void c14(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return; size_t n = (size_t)t.i("steps"); auto prep = frames(r, "prep", nr), post = frames(r, "post", nr), init = frames(r, "init", nr);
    if (prep.size() != n || post.size() != n || init.empty()) return c.fail("missing", "a rank stopped reporting"); size_t N = init[0].all.size(); if (N != (t.i("noinit") ? (size_t)t.i("number") : s.ps.size())) return c.fail("lost", fmt("%zu particles after start-up", N));
    for (size_t i = 0; i < n; i++) { if (t.i("addAt", -1) < 0 && post[i].all.size() != N) return c.fail("lost", fmt("step %zu: %zu of %zu particles left", i, post[i].all.size(), N)); for (auto *p : post[i].all) if (!(std::isfinite(p->pos.x + p->pos.y + p->pos.z + p->q.x + p->q.y + p->q.z + p->q.w))) return c.fail("not-finite", fmt("step %zu: particle %d is at %s", i, p->gid, str(p->pos).c_str())); }
    for (auto &f : prep) for (auto &v : f.by) { if (v.size() > 40) c.probe("more than 40 particles on a process"); if (v.empty()) c.probe("process without particles"); }
    if (t.i("races")) c.probe("run under race detection"); if (!r.fs.files.empty() && s.snap < 10) c.probe("run with snapshots"); if (t.i("addAt", -1) >= 0) c.probe("run adding particles"); if (t.i("noinit")) c.probe("run from a generated configuration"); if (!s.bs.empty()) c.probe("run with boundaries"); if (!s.links.empty()) c.probe("run with links"); c.nontrivial = nr * t.i("nthreads") > 1;
}
static PropReg r14(Prop{"C14", "sys", 8, 260, 4000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); GenOpt o; o.maxN = r.p(0.4) ? (th ? 400 : 200) : 30; o.colRatio = true; genSystem(r, t, o); if (t.items.size() > 60 && t.i("nranks") > 4 && r.p(0.6)) t.seti("nranks", r.in(1, 3)); if (t.i("nthreads") == 1 && r.p(0.6)) t.seti("nthreads", r.in(2, 4)); if (t.i("nthreads") > 1) { if (r.p(0.7)) t.seti("races", 1); if (!t.has("preempt") && r.p(0.5)) t.seti("preempt", r.in(20, 3000)); }
        if (r.p(0.3)) { t.items.clear(); t.seti("noinit", 1); int n = r.p(0.3) ? r.in(1, 6) : r.in(7, o.maxN); t.seti("number", n); Sys s = sysOf(t); double em = std::min(s.edge(0), std::min(s.edge(1), s.edge(2))); t.setd("length", r.p(0.2) ? 0.0 : em * r.u(0.02, 0.2)); t.setd("diameter", em * r.u(0.03, 0.1)); t.set("initlo", v3s(s.lo)); t.set("inithi", v3s(s.hi)); if (r.p(0.3)) t.seti("circx", 1); if (r.p(0.4)) { t.setd("lsigma", r.u(0.1, 0.5)); t.setd("length", std::log(em * 0.1)); } if (r.p(0.4)) t.set("orient", fmt("%g,%g,%g", r.p(0.5) ? 2.0 : r.u(-1, 1), r.p(0.5) ? 2.0 : r.u(-1, 1), r.p(0.5) ? 2.0 : r.u(0.1, 1))); }
        else if (r.p(0.4)) genLinks(r, t);
        if (r.p(0.3)) genWalls(r, t); t.seti("steps", r.in(1, 4)); t.seti("maxite", r.in(1, 60)); t.seti("fseed", r.in(1, 1 << 30)); Sys s = sysOf(t); if (r.p(0.6)) t.setd("vmag", s.edge(0) / s.dt * r.u(0.001, 0.3)); if (r.p(0.3)) t.seti("mono", 1); if (r.p(0.1)) t.seti("fixed", 1); if (r.p(0.4)) t.setd("kbt", r.u(1e-5, 1e-2)); if (r.p(0.4)) t.seti("stats", 1), t.seti("log", 2); if (r.p(0.3)) t.setd("snap", s.dt * r.in(1, 3) * 1.0001);
        if (r.p(0.3)) { t.seti("addAt", r.in(0, 2)); t.seti("addMax", r.p(0.3) ? 60 : r.in(0, 5)); t.setd("addR", 0.1); t.setd("addL", 0.5); if (r.p(0.5)) t.seti("addLinks", r.in(1, 2)); if (r.p(0.3)) t.seti("addTwice", 1); } t.setd("kappa", r.p(0.2) ? 0.0 : r.u(1, 1000)); if (!t.has("noinit")) longRun(r, t, 0.03, 12); },
    c14, "random mix of every feature (file or generated start, links, walls, monolayer, thermal motion, prescribed motion, additions, statistics, snapshots) on random layouts with race detection, preemption, message delays and rendezvous sends; the run must finish with every message matched and every particle finite. Non-trivial: more than one process or thread.",
    {"happens-before race detection covers instrumented code (SimToolbox and FDPS), not the installed libraries"}, {{"presteps", "0"}, {"vmag", ""}, {"mono", ""}, {"kbt", ""}, {"stats", ""}, {"snap", "1000"}, {"addAt", ""}, {"dcr", ""}, {"lcr", ""}, {"colBuf", "0.3"}}});
