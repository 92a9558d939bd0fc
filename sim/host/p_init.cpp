#include "model.hpp"
// ---------------------------------------------------------------- what a run starts with
static double chiZ(double sum, double n) { double k = 2 / (9 * n); return (std::cbrt(sum / n) - (1 - k)) / std::sqrt(k); } // Wilson-Hilferty
struct Uni { std::vector<double> h = std::vector<double>(10, 0); double n = 0; void add(double u) { h[std::min(9, std::max(0, (int)(10 * u)))]++; n++; } double z() const { if (n < 100) return 0; double s = 0; for (double x : h) s += (x - n / 10) * (x - n / 10) / (n / 10); return chiZ(s, 9); } };
static double cdfN(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static const char *const REQ[] = {"rngSeed", "simBoxLow", "simBoxHigh", "simBoxPBC", "viscosity", "KBT", "sylinderNumber", "sylinderLength", "sylinderDiameter", "dt", "timeTotal", "timeSnap", "conResTol", "conMaxIte", "conSolverChoice"};
static std::string without(const std::string &y, const std::string &key) { std::istringstream in(y); std::string l, o; while (std::getline(in, l)) if (l.compare(0, key.size() + 1, key + ":")) o += l + "\n"; return o; }
static JobSpec jobOf(const TestCase &t, const Sys &s) {
    JobSpec j = sysJob(t, s); std::string &y = j.fs.files["RunConfig.yaml"]; if (t.has("drop")) y = without(y, t.s("drop")); if (t.i("short") == 1) { size_t k = y.find("simBoxHigh: ["), e = y.find_last_of(',', y.find(']', k)); y.erase(e, y.find(']', k) - e); }
    std::istringstream in(t.s("omit")); std::string k; while (in >> k) y = without(y, k);
    if (!t.i("noinit") && t.i("noise")) { std::string d = j.fs.files["SylinderInitial.dat"], o, l; std::istringstream f(d); int n = 0; while (std::getline(f, l)) { const uint64_t h = hat((uint64_t)t.i("fseed"), 99, n); if (n++ > 1) { if (h % 5 == 0) o += "\n"; if (h % 7 == 0) o += "# L 1 2\n"; if (h % 11 == 0) o += "\r\n"; if (h % 3 == 0) l += h & 1024 ? " \t" : "\r"; if (l.size() > 3 && l.compare(l.size() - 3, 3, " -1") == 0 && h & 2048) l.resize(l.size() - 3); } o += l + "\n"; } j.fs.files["SylinderInitial.dat"] = o; }
    return j;
}
static void c23(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); const int nr = (int)t.i("nranks", 1); JobResult r = c.run(jobOf(t, s));
    if (t.has("drop") || t.i("short")) { c.probe("defective configuration"); if (r.status != J_EXIT) { if (r.status == J_HARNESS) { c.needOk(r); return; } return c.fail("ran-anyway", fmt("the configuration lacks %s, yet the run %s", t.has("drop") ? t.s("drop").c_str() : "a component of simBoxHigh", r.status == J_OK ? "starts" : ("ends with: " + r.message).c_str())); } if (!r.get("init").empty() || r.code == 0) return c.fail("ran-anyway", fmt("the run without %s exits with code %d", t.s("drop").c_str(), r.code)); for (auto &f : r.fs.files) if (f.first.compare(0, 6, "result") == 0) return c.fail("ran-anyway", "files are written before the configuration is refused"); c.nontrivial = nr > 1; return; }
    if (!c.needOk(r)) return; auto init = frames(r, "init", nr), prep = frames(r, "prep", nr); if (init.size() != 1 || (int)prep.size() != t.i("steps")) return c.fail("missing", "a process stopped reporting"); const Frame &f = init[0];
    const std::string om = t.s("omit"); auto omitted = [&](const char *k) { return om.find(k) != std::string::npos; };
    const size_t N = t.i("noinit") ? (size_t)t.i("number") : s.ps.size(); if (f.dup || f.all.size() != N) return c.fail("count", fmt("%zu particles (%d numbers twice), %zu were configured", f.all.size(), f.dup, N));
    for (auto *p : f.all) for (int k = 0; k < 3; k++) if (s.pbc[k] && !(p->pos[k] >= s.lo[k] && p->pos[k] < s.hi[k])) return c.fail("outside", fmt("particle %d at %s is outside the periodic box", p->gid, str(p->pos).c_str()));
    auto fold = [&](V3 d) { for (int k = 0; k < 3; k++) if (s.pbc[k]) d[k] -= s.edge(k) * std::round(d[k] / s.edge(k)); return d; };
    const double eps = 1e-11 * (norm(s.lo) + norm(s.hi));
    if (!t.i("noinit")) {
        for (auto &w : s.ps) { const PRec *p = f.gid.count(w.gid) ? f.gid.at(w.gid) : nullptr; if (!p) return c.fail("lost", fmt("particle %d of the file is missing", w.gid)); if (norm(fold(p->pos - w.c)) > eps) return c.fail("position", fmt("particle %d starts at %s, the file says %s", w.gid, str(p->pos).c_str(), str(w.c).c_str()));
            if (p->r != w.r || p->group != w.group || p->imm != (w.type == 'S') || std::fabs(p->L - w.L) > eps || p->rc != w.r || p->Lc != p->L) return c.fail("attribute", fmt("particle %d: radius %g length %g group %d immovable %d, the file says %g %g %d %d", w.gid, p->r, p->L, p->group, p->imm, w.r, w.L, w.group, w.type == 'S'));
            if (std::fabs(qnorm(p->q) - 1) > 1e-9 || (w.L > 1e-3 && norm(p->dir() - w.d) > 1e-7)) return c.fail("direction", fmt("particle %d points to %s, the file says %s", w.gid, str(p->dir()).c_str(), str(w.d).c_str())); }
        std::multiset<std::pair<int, int>> want(s.links.begin(), s.links.end());
        for (int p = 0; p < nr; p++) for (int rev = 0; rev < 2; rev++) { auto e = r.get(rev ? "rlinks" : "links", p); if (e.empty()) return c.fail("missing", "a process stopped reporting"); auto v = asInts(e[0]->data); std::multiset<std::pair<int, int>> have; for (size_t i = 0; i + 1 < v.size(); i += 2) have.insert(rev ? std::make_pair(v[i + 1], v[i]) : std::make_pair(v[i], v[i + 1])); if (have != want) return c.fail("links", fmt("process %d knows %zu links%s, the file has %zu", p, have.size(), rev ? " backwards" : "", want.size())); }
        c.probe("start from a file"); if (!s.links.empty()) c.probe("links read");
    } else {
        const V3 lo = t.has("initlo") ? vec3(t.s("initlo")) : s.lo, hi = t.has("inithi") ? vec3(t.s("inithi")) : s.hi; V3 e = hi - lo, or_ = t.has("orient") ? vec3(t.s("orient")) : V3{2, 2, 2}; const bool circ = t.i("circx"); const double rad = 0.5 * t.d("diameter", 0.2), len = t.d("length", 1), sig = t.d("lsigma", -1), maxL = 0.5 * std::min(e.x, std::min(e.y, e.z)), R = 0.5 * std::min(e.y, e.z); const V3 mid = (lo + hi) * 0.5;
        Uni x[3], d[3], len_; int fix = 0; for (int k = 0; k < 3; k++) fix += std::fabs(or_[k]) <= 1; std::set<std::array<double, 3>> seen; double pl = 0, n1 = 0; V3 prev{};
        for (size_t i = 0; i < N; i++) {
            const PRec *p = f.gid.count((int)i) ? f.gid.at((int)i) : nullptr; if (!p) return c.fail("lost", fmt("no particle has number %zu of %zu", i, N)); if (p->r != rad || p->rc != rad || p->Lc != p->L || p->group != -1 || p->imm) return c.fail("attribute", fmt("particle %zu: radius %g, group %d, immovable %d", i, p->r, p->group, p->imm));
            V3 q = p->pos - lo; for (int k = 0; k < 3; k++) if (s.pbc[k]) { double w = s.edge(k), base = circ && k ? mid[k] - lo[k] : 0.5 * e[k]; q[k] -= w * std::round((q[k] - base) / w); } if (!seen.insert({p->pos.x, p->pos.y, p->pos.z}).second) return c.fail("same-place", fmt("particle %zu starts where another does", i));
            if (!circ || true) { if (q.x < -eps || q.x > e.x + eps) return c.fail("position", fmt("particle %zu starts at %s, outside the initial box", i, str(p->pos).c_str())); x[0].add(q.x / e.x); }
            if (circ) { double a = q.y - 0.5 * e.y, b = q.z - 0.5 * e.z, rr = std::sqrt(a * a + b * b) / R; if (rr > 1 + 1e-9) return c.fail("position", fmt("particle %zu starts at %s, outside the circular cross-section", i, str(p->pos).c_str())); x[1].add(rr * rr); x[2].add((std::atan2(b, a) / 3.14159265358979323846 + 1) / 2); }
            else for (int k = 1; k < 3; k++) { if (q[k] < -eps || q[k] > e[k] + eps) return c.fail("position", fmt("particle %zu starts at %s, outside the initial box", i, str(p->pos).c_str())); x[k].add(q[k] / e[k]); }
            if (sig > 0) { if (p->L >= maxL || p->L <= 0) return c.fail("length", fmt("particle %zu has length %g, the limit is %g", i, p->L, maxL)); len_.add(cdfN((std::log(p->L) - len) / sig) / cdfN((std::log(maxL) - len) / sig)); } else if (p->L != len) return c.fail("length", fmt("particle %zu has length %g, configured are %g", i, p->L, len));
            if (std::fabs(qnorm(p->q) - 1) > 1e-9) return c.fail("direction", fmt("particle %zu: orientation of norm %g", i, qnorm(p->q))); V3 u = p->dir();
            if (fix == 3) { if (norm(u - unit(or_)) > 1e-7) return c.fail("direction", fmt("particle %zu points to %s, configured is %s", i, str(u).c_str(), str(or_).c_str())); }
            else if (fix == 0) for (int k = 0; k < 3; k++) d[k].add((u[k] + 1) / 2);
            else { int a = -1; for (int k = 0; k < 3; k++) if (std::fabs(or_[k]) <= 1 && (a < 0 || std::fabs(or_[k]) > std::fabs(or_[a]))) a = k; if (std::fabs(or_[a]) > 0.05) { double sc = or_[a] / u[a]; if (!(sc > 0)) return c.fail("direction", fmt("particle %zu points to %s against the configured component", i, str(u).c_str())); for (int k = 0; k < 3; k++) { double v = u[k] * sc; if (std::fabs(or_[k]) <= 1 ? std::fabs(v - or_[k]) > 1e-6 * (1 + sc) : std::fabs(v) > 1 + 1e-6 * (1 + sc)) return c.fail("direction", fmt("particle %zu points to %s, not as configured (%s)", i, str(u).c_str(), str(or_).c_str())); } } }
            if (i) { double g = (q.x / e.x - 0.5) * (prev.x / e.x - 0.5) * 12; pl += g; n1++; } prev = q;
        }
        for (int k = 0; k < 3; k++) { if (std::fabs(x[k].z()) > 6.5 && x[k].z() > 0) return c.fail("distribution", fmt("the %s of %zu particles are not spread evenly (%.1f sigma)", circ && k ? "positions in the circle" : "positions along an axis", N, x[k].z())); if (d[k].z() > 6.5) return c.fail("distribution", fmt("random directions of %zu particles are not uniform (%.1f sigma)", N, d[k].z())); } if (len_.z() > 6.5) return c.fail("distribution", fmt("lengths of %zu particles do not follow the configured distribution (%.1f sigma)", N, len_.z()));
        if (n1 >= 100 && std::fabs(pl / std::sqrt(n1)) > 9) return c.fail("distribution", fmt("positions of consecutive particles correlate (%.1f sigma)", pl / std::sqrt(n1))); c.probe("start from the configuration"); if (N >= 100) c.probe("particles in distribution tests", N); if (circ) c.probe("circular cross-section"); if (sig > 0) c.probe("random lengths");
    }
    for (auto &g : prep) for (auto *p : g.all) { const double dc = omitted("sylinderDiameterColRatio") ? 1 : s.dcr, lc = omitted("sylinderLengthColRatio") ? 1 : s.lcr, cb = omitted("sylinderColBuf") ? 0.3 : s.colBuf; if (std::fabs(p->rc - p->r * dc) > 1e-12 * p->r || std::fabs(p->Lc - p->L * lc) > 1e-12 * (p->L + p->r) || p->colBuf != cb) return c.fail("attribute", fmt("particle %d collides with radius %g, length %g, buffer %g; configured are %g, %g, %g", p->gid, p->rc, p->Lc, p->colBuf, p->r * dc, p->L * lc, cb)); }
    c.nontrivial = nr * t.i("nthreads", 1) > 1; if (!t.i("again")) return;
    TestCase u = t; u.seti("jseed", (long)(mix((uint64_t)t.i("jseed"), 5) >> 2)); u.seti("entropy", (long)(mix((uint64_t)t.i("entropy"), 6) >> 2)); u.seti("sched", (t.i("sched") + 1 + t.i("jseed") % 3) % 5); const bool other = t.i("again") == 2; if (other) u.seti("rngSeed", t.i("rngSeed") + 1); Sys su = sysOf(u); JobResult b = c.run(jobOf(u, su)); if (!c.needOk(b)) return; auto F = frames(b, "init", nr); if (F.size() != 1 || F[0].all.size() != N) return c.fail("count", "another number of particles in a second run");
    for (auto *p : f.all) { if (!F[0].gid.count(p->gid)) return c.fail("not-repeatable", "other particle numbers in a second run"); const PRec *q = F[0].gid.at(p->gid); const bool same = p->pos.x == q->pos.x && p->pos.y == q->pos.y && p->pos.z == q->pos.z && p->L == q->L && p->q.x == q->q.x && p->q.y == q->q.y && p->q.z == q->q.z && p->q.w == q->q.w; if (!other && !same) return c.fail("not-repeatable", fmt("particle %d starts elsewhere in a second run with the same seed and layout", p->gid)); if (other && t.i("noinit") && p->pos.x == q->pos.x) return c.fail("seed-ignored", fmt("particle %d starts at the same place with another seed", p->gid)); }
    c.probe(other ? "compared with another seed" : "compared with a second run");
}
static PropReg r23(Prop{"C23", "sys", 8, 400, 4000,
    [](Rng &r, TestCase &t, int, bool th) {
        genSched(r, t, 8, 4); GenOpt o; o.maxN = th ? 100 : 50; o.colRatio = true; genSystem(r, t, o); t.seti("presteps", 0); t.seti("steps", r.in(0, 1)); t.seti("fixed", 1); t.seti("fseed", r.in(1, 1 << 30)); t.seti("rngSeed", r.p(0.2) ? 0 : r.in(1, 1 << 30)); t.seti("maxite", 5); std::string om; for (const char *k : {"sylinderDiameterColRatio", "sylinderLengthColRatio", "sylinderColBuf"}) if (r.p(0.2)) om += std::string(k) + " "; if (!om.empty()) t.set("omit", om);
        if (r.p(0.1)) { if (r.p(0.1)) t.seti("short", 1); else t.set("drop", REQ[r.below(sizeof REQ / sizeof *REQ)]); return; }
        if (r.p(0.4)) { genLinks(r, t); t.seti("noise", r.p(0.7)); if (r.p(0.1)) t.seti("again", 1); return; }
        t.items.clear(); t.seti("noinit", 1); const bool big = r.p(0.6); t.seti("number", big ? r.in(100, th ? 3000 : 1200) : r.in(1, 99)); if (big) { t.seti("steps", 0); } Sys s = sysOf(t); double em = std::min(s.edge(0), std::min(s.edge(1), s.edge(2))); t.setd("length", r.p(0.2) ? 0.0 : em * r.u(0.02, 0.2)); t.setd("diameter", em * r.u(0.03, 0.1));
        if (r.p(0.6)) { V3 lo, hi; for (int k = 0; k < 3; k++) { double a = r.u(0, 1), b = r.u(0, 1); if (a > b) std::swap(a, b); if (b - a < 0.2) { a *= 0.8; b = a + 0.2; } double sh = s.pbc[k] && r.p(0.3) ? r.u(-1, 1) : 0; lo[k] = s.lo[k] + s.edge(k) * (a + sh); hi[k] = s.lo[k] + s.edge(k) * (b + sh); } t.set("initlo", v3s(lo)); t.set("inithi", v3s(hi)); em = std::min(hi.x - lo.x, std::min(hi.y - lo.y, hi.z - lo.z)); }
        if (r.p(0.3)) t.seti("circx", 1); if (r.p(0.4)) { t.setd("lsigma", r.u(0.1, 0.8)); t.setd("length", std::log(em * r.u(0.05, 0.4))); }
        if (r.p(0.5)) { V3 v; for (int k = 0; k < 3; k++) v[k] = r.p(0.4) ? (r.p(0.5) ? 2.0 : -1.5) : r.u(-1, 1); if (r.p(0.2)) { v = {0, 0, 0}; v[(int)r.below(3)] = r.p(0.5) ? 1 : -1; } t.set("orient", v3s(v)); } if (r.p(0.4)) t.seti("again", r.in(1, 2)); },
    c23, "position file with links, comments and blank lines, or generated particles (initial box, cross-section, orientation, random lengths), or a configuration lacking a required entry; compared with the file or configuration entry by entry and with the configured distributions. Non-trivial: more than one process or thread.",
    {"statistical thresholds of 6.5 to 9 standard deviations"}, {{"steps", "0"}, {"again", ""}, {"circx", ""}, {"lsigma", ""}, {"noise", "0"}}});
