#include "model.hpp"
// ---------------------------------------------------------------- snapshots, crashes, restarts
static int snapEvery(const Sys &s) { return std::max(1, (int)std::floor(s.snap / s.dt + 1e-6)); }
static std::string folderOf(int snap, int nranks) { int n = std::max(400 / nranks, 1), k = snap / n; return fmt("result/result%d-%d/", k * n, k * n + n - 1); }
struct StepRec { int count, snap, write, count2, snap2; uint64_t at; };
static std::vector<std::vector<StepRec>> stepRecs(const JobResult &r, int nr) { std::vector<std::vector<StepRec>> v(nr); for (auto &x : r.rec) if (x.tag == "step") { auto a = asInts(x.data); v[x.rank].push_back({a[0], a[1], a[2], a[3], a[4], x.step}); } return v; }
static bool unbase64(const std::string &in, std::string &out) {
    uint32_t acc = 0; int n = 0, pad = 0; out.clear();
    for (char ch : in) { int v; if (ch >= 'A' && ch <= 'Z') v = ch - 'A'; else if (ch >= 'a' && ch <= 'z') v = ch - 'a' + 26; else if (ch >= '0' && ch <= '9') v = ch - '0' + 52; else if (ch == '+') v = 62; else if (ch == '/') v = 63; else if (ch == '=') { v = 0; pad++; } else if (isspace((unsigned char)ch)) continue; else return false;
        acc = acc << 6 | (uint32_t)v; if (++n == 4) { out += (char)(acc >> 16); if (pad < 2) out += (char)(acc >> 8); if (pad < 1) out += (char)acc; acc = 0; n = 0; pad = 0; } }
    return n == 0;
}
struct Vtp { long points = -1, lines = -1; std::map<std::string, std::pair<std::string, int>> decl; std::map<std::string, std::vector<double>> a; };
static std::string attr(const std::string &tag, const char *k) { auto p = tag.find(std::string(k) + "=\""); if (p == std::string::npos) return ""; p += strlen(k) + 2; auto e = tag.find('"', p); return e == std::string::npos ? "" : tag.substr(p, e - p); }
static bool parseVtp(const std::string &f, Vtp &v, std::string &err) {
    auto e = f.rfind("</VTKFile>"); if (e == std::string::npos) { err = "it does not end"; return false; } auto p = f.find("<Piece "); if (p == std::string::npos) { err = "it has no piece"; return false; } std::string pt = f.substr(p, f.find('>', p) - p); v.points = atol(attr(pt, "NumberOfPoints").c_str()); v.lines = atol(attr(pt, "NumberOfLines").c_str());
    for (p = f.find("<DataArray "); p != std::string::npos; p = f.find("<DataArray ", p + 1)) {
        auto q = f.find('>', p), z = f.find("</DataArray>", p); if (q == std::string::npos || z == std::string::npos) { err = "an array does not end"; return false; } std::string tag = f.substr(p, q - p), name = attr(tag, "Name"), type = attr(tag, "type"), d; int nc = atoi(attr(tag, "NumberOfComponents").c_str());
        if (!unbase64(f.substr(q + 1, z - q - 1), d) || d.size() < 4) { err = "array " + name + " is not base64"; return false; } uint32_t len; memcpy(&len, d.data(), 4); if (len != d.size() - 4) { err = fmt("array %s declares %u bytes and has %zu", name.c_str(), len, d.size() - 4); return false; }
        std::vector<double> x; const char *b = d.data() + 4; size_t w = type == "Float64" ? 8 : type == "UInt8" ? 1 : 4; for (size_t i = 0; i + w <= len; i += w) { double y = 0; if (type == "Float64") memcpy(&y, b + i, 8); else if (type == "Float32") { float g; memcpy(&g, b + i, 4); y = g; } else if (type == "Int32") { int g; memcpy(&g, b + i, 4); y = g; } else y = (unsigned char)b[i]; x.push_back(y); }
        if (v.a.count(name)) { err = "array " + name + " appears twice"; return false; } v.a[name] = x; v.decl[name] = {type, nc};
    }
    return true;
}
static bool checkPvtp(Ctx &c, const FsImage &fs, const std::string &dir, const char *base, int k, int nr, const std::vector<Vtp> &vs) { // names every piece and declares the arrays the pieces have
    std::string name = dir + fmt("%s_%d.pvtp", base, k); auto it = fs.files.find(name); if (it == fs.files.end()) { c.fail("snapshot-missing", name + " was not written"); return false; } const std::string &f = it->second; if (f.find("</VTKFile>") == std::string::npos) { c.fail("snapshot-damaged", name + " is cut off"); return false; }
    std::multiset<std::string> got, want; for (size_t p = f.find("<Piece "); p != std::string::npos; p = f.find("<Piece ", p + 1)) got.insert(attr(f.substr(p, f.find('>', p) - p), "Source")); for (int r = 0; r < nr; r++) want.insert(fmt("%s_r%d_%d.vtp", base, r, k)); if (got != want) { c.fail("snapshot-pieces", name + fmt(" names %zu pieces that are not the files of the %d processes", got.size(), nr)); return false; }
    for (size_t p = f.find("<PDataArray "); p != std::string::npos; p = f.find("<PDataArray ", p + 1)) { std::string tag = f.substr(p, f.find('>', p) - p), n = attr(tag, "Name"); if (n.empty()) continue; for (auto &v : vs) { auto d = v.decl.find(n); if (d == v.decl.end() || d->second.first != attr(tag, "type") || d->second.second != atoi(attr(tag, "NumberOfComponents").c_str())) { c.fail("snapshot-pieces", name + " declares array " + n + " differently from a piece"); return false; } } }
    return true;
}
static void snapContent(Ctx &c, const Sys &s, const FsImage &fs, int k, int count, int nr, const Frame &prep, const Frame &post, const std::vector<CRec> &con) {
    const std::string dir = folderOf(k, nr); std::vector<Vtp> vs(nr), cs(nr); std::string err;
    for (int r = 0; r < nr; r++) for (int q = 0; q < 2; q++) { std::string n = dir + fmt(q ? "ConBlock_r%d_%d.vtp" : "Sylinder_r%d_%d.vtp", r, k); auto it = fs.files.find(n); if (it == fs.files.end()) return c.fail("snapshot-missing", n + " was not written"); if (!parseVtp(it->second, (q ? cs : vs)[r], err)) return c.fail("snapshot-damaged", n + ": " + err); }
    if (!checkPvtp(c, fs, dir, "Sylinder", k, nr, vs) || !checkPvtp(c, fs, dir, "ConBlock", k, nr, cs)) return;
    for (int r = 0; r < nr; r++) {
        Vtp &v = vs[r]; size_t n = post.by[r].size(); if (v.lines != (long)n || v.points != 2 * (long)n) return c.fail("snapshot-content", fmt("snapshot %d: process %d has %zu particles and wrote %ld", k, r, n, v.lines)); std::string at;
        auto is = [&](size_t i, const char *name, const double *x, int m, bool exact) { if (c.bad()) return; auto &a = v.a[name]; if (a.size() != n * m) return c.fail("snapshot-content", fmt("snapshot %d: array %s of process %d has %zu numbers for %zu particles", k, name, r, a.size(), n)); for (int j = 0; j < m; j++) { double y = a[i * m + j]; if (exact ? y != (double)(float)x[j] : std::fabs(y - x[j]) > 1e-12 * (1 + std::fabs(x[j])) + 1e-13 * s.edge(0)) return c.fail("snapshot-content", fmt("snapshot %d: particle %d %s is written as %.9g, it is %.9g", k, post.by[r][i].gid, name, y, x[j])); } };
        for (size_t i = 0; i < n && !c.bad(); i++) {
            const PRec &p = *prep.gid.at(post.by[r][i].gid), &q = post.by[r][i]; V3 a = p.end(-1), b = p.end(1); double e[6] = {a.x, a.y, a.z, b.x, b.y, b.z}; is(i, "position", e, 6, false); double gid = q.gid, gr = q.group, im = q.imm; is(i, "gid", &gid, 1, true); is(i, "group", &gr, 1, true); is(i, "isImmovable", &im, 1, true);
            is(i, "radius", &q.r, 1, true); is(i, "radiusCollision", &q.rc, 1, true); is(i, "length", &q.L, 1, true); is(i, "lengthCollision", &q.Lc, 1, true);
            static const struct { const char *n; int f; } F[] = {{"vel", VEL}, {"omega", OMEGA}, {"velCollision", VELCOL}, {"omegaCollision", OMEGACOL}, {"velBilateral", VELBI}, {"omegaBilateral", OMEGABI}, {"velNonBrown", VELNB}, {"omegaNonBrown", OMEGANB}, {"force", FORCE}, {"torque", TORQUE}, {"forceCollision", FCOL}, {"torqueCollision", TCOL}, {"forceBilateral", FBI}, {"torqueBilateral", TBI}, {"forceNonBrown", FNB}, {"torqueNonBrown", TNB}, {"velBrown", VELBR}, {"omegaBrown", OMEGABR}};
            for (auto &x : F) is(i, x.n, &q.f[x.f].x, 3, true);
            V3 z = p.dir(), xn = qrot(p.q, {1, 0, 0}); for (int m = 0; m < 2 && !c.bad(); m++) { auto &w = v.a[m ? "xnorm" : "znorm"]; if (w.size() != 3 * n || norm(V3{w[3 * i], w[3 * i + 1], w[3 * i + 2]} - (m ? xn : z)) > 1e-6) return c.fail("snapshot-content", fmt("snapshot %d: axes of particle %d are written wrongly", k, q.gid)); }
            auto &cn = v.a["connectivity"], &of = v.a["offsets"]; if (cn.size() != 2 * n || of.size() != n || cn[2 * i] != 2.0 * i || cn[2 * i + 1] != 2.0 * i + 1 || of[i] != 2.0 * i + 2) return c.fail("snapshot-content", fmt("snapshot %d: line %zu of process %d does not join its two points", k, i, r));
        }
        if (c.bad()) return; std::vector<const CRec *> mine; for (auto &b : con) if (b.owner == r) mine.push_back(&b); Vtp &w = cs[r]; size_t nb = mine.size(); if (w.lines != (long)nb || w.points != 2 * (long)nb) return c.fail("snapshot-content", fmt("snapshot %d: process %d has %zu constraints and wrote %ld", k, r, nb, w.lines));
        static const struct { const char *n; int m; } CA[] = {{"position", 6}, {"gid", 2}, {"globalIndex", 2}, {"posIJ", 6}, {"normIJ", 6}, {"oneSide", 1}, {"bilateral", 1}, {"delta0", 1}, {"gamma", 1}, {"kappa", 1}, {"Stress", 9}}; for (auto &x : CA) if (w.a[x.n].size() != nb * x.m) return c.fail("snapshot-content", fmt("snapshot %d: array %s of process %d has %zu numbers for %zu constraints", k, x.n, r, w.a[x.n].size(), nb));
        auto key = [](double g0, double g1, double gap) { return std::make_tuple(g0, g1, gap); }; std::multimap<std::tuple<double, double, double>, size_t> left; for (size_t i = 0; i < nb; i++) left.emplace(key(w.a["gid"][2 * i], w.a["gid"][2 * i + 1], w.a["delta0"][i]), i);
        for (auto *b : mine) { auto rg = left.equal_range(key(b->gidI, b->gidJ, (float)b->delta0)); bool hit = false; for (auto it = rg.first; it != rg.second && !hit; ++it) { size_t i = it->second; auto f = [](double x) { return (double)(float)x; }; bool ok = w.a["gamma"][i] == f(b->gamma) && w.a["kappa"][i] == f(b->kappa) && w.a["oneSide"][i] == b->oneSide && w.a["bilateral"][i] == b->bil && w.a["globalIndex"][2 * i] == b->gI && w.a["globalIndex"][2 * i + 1] == b->gJ; for (int j = 0; j < 3; j++) ok = ok && w.a["position"][6 * i + j] == b->lI[j] && w.a["position"][6 * i + 3 + j] == b->lJ[j] && w.a["posIJ"][6 * i + j] == f(b->pI[j]) && w.a["posIJ"][6 * i + 3 + j] == f(b->pJ[j]) && w.a["normIJ"][6 * i + j] == f(b->nI[j]) && w.a["normIJ"][6 * i + 3 + j] == f(b->nJ[j]); for (int j = 0; j < 9; j++) ok = ok && w.a["Stress"][9 * i + j] == f(b->S[j]); if (ok) { hit = true; left.erase(it); break; } } if (!hit) return c.fail("snapshot-content", fmt("snapshot %d: constraint %d-%d of process %d is not written as it is", k, b->gidI, b->gidJ, r)); c.probe("constraint in a snapshot"); }
    }
    std::string n = dir + fmt("SylinderAscii_%d.dat", k); auto it = fs.files.find(n); if (it == fs.files.end()) return c.fail("snapshot-missing", n + " was not written"); std::istringstream in(it->second); std::string line; std::getline(in, line); if (atol(line.c_str()) != (long)post.all.size()) return c.fail("snapshot-content", n + " announces " + line + " particles"); std::getline(in, line); if (std::fabs(atof(line.c_str()) - count * s.dt) > 1e-6) return c.fail("snapshot-content", n + " announces time " + line + fmt(", it is %g", count * s.dt));
    std::set<int> seen; std::multiset<std::pair<int, int>> ls, lw(s.links.begin(), s.links.end());
    while (std::getline(in, line)) { char ty; int g, gr; double x[7]; if (line.empty()) continue; if (line[0] == 'L') { int a, b; if (sscanf(line.c_str(), "L %d %d", &a, &b) != 2) return c.fail("snapshot-damaged", n + ": " + line); ls.insert({a, b}); continue; }
        if (sscanf(line.c_str(), "%c %d %lf %lf %lf %lf %lf %lf %lf %d", &ty, &g, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, &gr) != 10) return c.fail("snapshot-damaged", n + ": " + line); auto p = prep.gid.find(g); if (p == prep.gid.end() || !seen.insert(g).second) return c.fail("snapshot-content", n + fmt(": particle %d", g));
        const PRec &q = *p->second; V3 a = q.end(-1), b = q.end(1), A{x[1], x[2], x[3]}, B{x[4], x[5], x[6]}; double tol = 1e-6 * (1 + norm(a) + norm(b)); if ((ty == 'S') != (q.imm != 0) || gr != q.group || std::fabs(x[0] - q.r) > 1e-7 * q.r || norm(A - a) > tol || norm(B - b) > tol) return c.fail("snapshot-content", n + fmt(": particle %d is not written as it is", g)); }
    if (seen.size() != prep.all.size()) return c.fail("snapshot-content", n + fmt(" holds %zu of %zu particles", seen.size(), prep.all.size())); if (ls != lw) return c.fail("snapshot-content", n + fmt(" holds %zu of %zu links or other ones", ls.size(), lw.size()));
    c.probe("snapshot read back");
}
static void c10(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); size_t n = (size_t)t.i("steps"); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return; auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto con = conFrames(r, nr); auto st = stepRecs(r, nr);
    if (prep.size() != n || post.size() != n || con.size() != n) return c.fail("missing", "a rank stopped reporting"); const int m = snapEvery(s); int snap = 0; std::set<std::string> expect;
    for (size_t i = 0; i < n && !c.bad(); i++) {
        bool w = i % m == 0; for (int p = 0; p < nr; p++) { auto &x = st[p][i]; if (x.count != (int)i || x.count2 != (int)i + 1 || x.snap != snap || x.snap2 != snap + w || x.write != (int)w) return c.fail("schedule", fmt("step %zu on rank %d: step count %d then %d, snapshot %d then %d%s; one snapshot every %d steps is configured (interval %.17g, time step %.17g)", i, p, x.count, x.count2, x.snap, x.snap2, x.write ? ", writing" : "", m, s.snap, s.dt)); }
        if (!w) continue; snapContent(c, s, r.fs, snap, (int)i, nr, prep[i], post[i], con[i]); std::string d = folderOf(snap, nr); for (int p = 0; p < nr; p++) { expect.insert(d + fmt("Sylinder_r%d_%d.vtp", p, snap)); expect.insert(d + fmt("ConBlock_r%d_%d.vtp", p, snap)); } expect.insert(d + fmt("Sylinder_%d.pvtp", snap)); expect.insert(d + fmt("ConBlock_%d.pvtp", snap)); expect.insert(d + fmt("SylinderAscii_%d.dat", snap)); snap++;
    }
    if (c.bad()) return; for (auto &f : r.fs.files) if (f.first.compare(0, 7, "result/") == 0 && f.first != "result/simBox.vtk" && !expect.count(f.first)) { bool own = false; for (const char *k : {"Sylinder_", "ConBlock_", "SylinderAscii_"}) if (f.first.find(k) != std::string::npos) own = true; if (own) return c.fail("unexpected-file", f.first + " does not belong to any snapshot"); }
    auto bx = r.fs.files.find("result/simBox.vtk"); if (bx == r.fs.files.end()) return c.fail("snapshot-missing", "simBox.vtk was not written"); for (int k = 0; k < 3; k++) { std::string w = fmt("%c_COORDINATES 2 float\n%g %g\n", 'X' + k, s.lo[k], s.hi[k]); if (bx->second.find(w) == std::string::npos) return c.fail("snapshot-content", "simBox.vtk does not hold the box"); }
    if (snap > 1) c.probe("several snapshots"); if (folderOf(snap - 1, nr) != folderOf(0, nr)) c.probe("snapshots in several folders"); c.nontrivial = nr > 1 || t.i("nthreads") > 1;
}
// the state a restart must come up with: that of the run after the step of the snapshot
static void sameState(Ctx &c, const Sys &s, const Frame &got, const Frame &prep, const Frame &post, bool euler, const std::string &when) {
    if (got.dup || got.all.size() != post.all.size()) return c.fail("restart-state", when + fmt(": %zu particles, %zu were saved", got.all.size(), post.all.size()));
    for (auto *p : got.all) {
        auto it = post.gid.find(p->gid); if (it == post.gid.end()) return c.fail("restart-state", when + fmt(": particle %d was never saved", p->gid)); const PRec &q = *it->second, &b = *prep.gid.at(p->gid), &ref = euler ? q : b; auto near32 = [](double x, double y) { return std::fabs(x - y) <= 1e-6 * std::fabs(y) + 1e-30; };
        if (p->group != q.group || p->imm != q.imm || !near32(p->r, q.r) || !(near32(p->L, q.L))) return c.fail("restart-state", when + fmt(": particle %d comes back with group %d radius %g length %g immovable %d, it had %d %g %g %d", p->gid, p->group, p->r, p->L, p->imm, q.group, q.r, q.L, q.imm));
        for (int k = 0; k < 3; k++) { double d = p->pos[k] - ref.pos[k], w = s.edge(k), move = norm(q.f[VEL]) * s.dt; if (s.pbc[k]) d -= w * std::round(d / w); if (!(std::fabs(d) <= 1e-9 * (w + std::fabs(ref.pos[k])) + 2e-7 * move)) return c.fail("restart-state", when + fmt(": particle %d comes back at %s, it was at %s", p->gid, str(p->pos).c_str(), str(ref.pos).c_str())); }
        double turn = norm(q.f[OMEGA]) * s.dt; if (norm(p->dir() - ref.dir()) > 1e-6 * (1 + turn)) return c.fail("restart-state", when + fmt(": particle %d points along %s, it was %s", p->gid, str(p->dir()).c_str(), str(ref.dir()).c_str()));
        if (!(norm(p->f[VEL] - q.f[VEL]) <= 1e-6 * norm(q.f[VEL]) + 1e-30) || !(norm(p->f[OMEGA] - q.f[OMEGA]) <= 1e-6 * norm(q.f[OMEGA]) + 1e-30)) return c.fail("restart-state", when + fmt(": velocity of particle %d comes back as %s, it was %s", p->gid, str(p->f[VEL]).c_str(), str(q.f[VEL]).c_str()));
    }
}
static void sameLinks(Ctx &c, const Sys &s, const JobResult &r, const std::string &when) {
    std::multiset<std::pair<int, int>> w(s.links.begin(), s.links.end()); for (auto &x : r.rec) if (x.tag == "links" || x.tag == "rlinks") { auto v = asInts(x.data); std::multiset<std::pair<int, int>> m; for (size_t i = 0; i + 1 < v.size(); i += 2) m.insert(x.tag == "links" ? std::make_pair(v[i], v[i + 1]) : std::make_pair(v[i + 1], v[i])); if (m != w) return c.fail("restart-links", when + fmt(": rank %d comes back with %zu links, %zu were saved", x.rank, m.size(), w.size())); }
}
static TestCase restartCase(const TestCase &t, uint64_t salt) { TestCase u = t; u.seti("restart", 1); u.seti("nranks", t.i("nranks2", 1)); u.seti("nthreads", t.i("nthreads2", 1)); u.seti("jseed", (long)(mix((uint64_t)t.i("jseed"), salt) >> 2)); u.seti("sched", (t.i("sched") + (long)(salt % 5)) % 5); if (u.i("nthreads") == 1) { u.kv.erase("preempt"); u.kv.erase("races"); } return u; }
static void c08(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1), n2 = (int)t.i("nranks2", 1); size_t n = (size_t)t.i("steps"); JobSpec j = sysJob(t, s); j.fsLog = true; JobResult a = c.run(j); if (!c.needOk(a)) return; auto prep = frames(a, "prep", nr), post = frames(a, "post", nr); auto st = stepRecs(a, nr);
    if (prep.size() != n || post.size() != n || a.fslog.empty()) return c.fail("missing", "a rank stopped reporting"); std::map<int, size_t> stepOf; for (size_t i = 0; i < n; i++) if (st[0][i].write) stepOf[st[0][i].snap] = i; // snapshot -> step
    std::vector<size_t> info; for (size_t i = 0; i < a.fslog.size(); i++) { const FsOp &o = a.fslog[i]; if (o.a.find("TimeStepInfo") != std::string::npos || o.b.find("TimeStepInfo") != std::string::npos) info.push_back(i); }
    std::istringstream cuts(t.s("cuts")); double u, torn; char ch; int k = 0;
    while (cuts >> u >> ch >> torn && !c.bad()) { // u in [0,1): anywhere; u in [1,2): at the restart file; u in [2,3): shortly before or after it
        size_t at; if (u < 1 || info.empty()) at = (size_t)((u - std::floor(u)) * (a.fslog.size() + 1)); else { size_t i = info[(size_t)((u - std::floor(u)) * info.size())]; at = i; if (u >= 2) at = (size_t)std::max<long>(0, std::min<long>((long)a.fslog.size(), (long)i - 6 + (long)(std::fmod(u * 1e6, 1.0) * 13))); }
        size_t tb = 0; if (torn >= 0 && at < a.fslog.size() && a.fslog[at].k == FsOp::WRITE) { tb = (size_t)(torn * a.fslog[at].a.size()); if (tb) c.probe("torn write at the crash"); } FsImage img = replayFs(j.fs, a.fslog, at, tb); const uint64_t T = at < a.fslog.size() ? a.fslog[at].step : ~0ull; int done = -1, begun = -1;
        for (auto &x : stepOf) { bool all = true, any = false; for (auto &r : a.rec) if (r.tag == "step") { auto v = asInts(r.data); if (v[0] == (int)x.second) { if (r.step >= T) all = false; } } for (size_t i = 0; i <= at && i < a.fslog.size(); i++) if (a.fslog[i].b.find(fmt("_%d.", x.first)) != std::string::npos || a.fslog[i].a.find(fmt("_%d.", x.first)) != std::string::npos) { any = true; break; } if (all) done = std::max(done, x.first); if (any) begun = std::max(begun, x.first); }
        begun = std::max(begun, done); std::string when = fmt("crash after file operation %zu of %zu%s (snapshot %d complete, %d begun)", at, a.fslog.size(), tb ? " with a torn write" : "", done, begun); c.probe("crash"); if (begun > done) c.probe("crash while a snapshot is written");
        if (!img.files.count("TimeStepInfo.txt")) { if (done >= 0) return c.fail("snapshot-lost", when + ": there is nothing to restart from"); c.probe("crash before the first snapshot"); continue; }
        TestCase v = restartCase(t, 11 + k++); v.seti("steps", 0); v.kv.erase("snap"); Sys s2 = sysOf(v); JobSpec q = jobFrom(v, "steps"); q.blob = blobOf(v); q.fs = img; JobResult b = c.run(q);
        if (!b.ok()) { c.needOk(b); if (!c.cls.empty()) { c.cls = "restart-fails"; c.msg = when + ": the restart fails: " + c.msg; } return; }
        auto ini = frames(b, "init", n2); int sc = -1, sn = -1; for (auto &x : b.rec) if (x.tag == "start") { auto y = asInts(x.data); if (sc >= 0 && (y[0] != sc || y[1] != sn)) return c.fail("restart-state", when + ": processes restart at different steps"); sc = y[0]; sn = y[1]; }
        if (ini.size() != 1 || !stepOf.count(sn - 1) || sc != (int)stepOf[sn - 1] + 1) return c.fail("restart-state", when + fmt(": restart continues with step %d and snapshot %d", sc, sn)); if (sn - 1 < done || sn - 1 > begun) return c.fail("snapshot-lost", when + fmt(": restart comes up with snapshot %d", sn - 1));
        sameState(c, s, ini[0], prep[stepOf[sn - 1]], post[stepOf[sn - 1]], t.i("euler", 1), when); if (!c.bad()) sameLinks(c, s, b, when); c.probe("restart after a crash"); if (n2 != nr) c.probe("restart with another number of processes"); c.nontrivial = true;
    }
}
static void c09(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1), n2 = (int)t.i("nranks2", 1); const int n1 = (int)t.i("steps"), more = (int)t.i("more", 2); TestCase ta = t; JobResult a = c.run(sysJob(ta, s)); if (!c.needOk(a)) return;
    TestCase tc = t; tc.seti("steps", n1 + more); JobResult full = c.run(sysJob(tc, s)); if (!c.needOk(full)) return; auto FP = frames(full, "prep", nr), FQ = frames(full, "post", nr); auto FC = conFrames(full, nr); auto fst = stepRecs(full, nr), ast = stepRecs(a, nr); int last = -1, lastSnap = -1; for (auto &x : ast[0]) if (x.write) last = x.count, lastSnap = x.snap; if (last < 0) return c.fail("missing", "no snapshot was written");
    TestCase tb = restartCase(t, 23); tb.seti("steps", n1 + more - 1 - last); JobSpec q = jobFrom(tb, "steps"); q.blob = blobOf(tb); q.fs = a.fs; JobResult b = c.run(q); std::string when = fmt("restart on %d processes of a run on %d", n2, nr); if (!b.ok()) { c.needOk(b); if (!c.cls.empty()) { c.cls = "restart-fails"; c.msg = when + " fails: " + c.msg; } return; }
    auto ini = frames(b, "init", n2), BP = frames(b, "prep", n2), BQ = frames(b, "post", n2); auto BC = conFrames(b, n2); auto bst = stepRecs(b, n2); if (ini.size() != 1 || BP.size() != (size_t)tb.i("steps") || BQ.size() != BP.size()) return c.fail("missing", "a rank stopped reporting"); Sys sb = sysOf(tb);
    sameState(c, s, ini[0], FP[last], FQ[last], t.i("euler", 1), when); if (c.bad()) return; sameLinks(c, s, b, when); if (n2 != nr) c.probe("restart with another number of processes"); c.nontrivial = true;
    // numbering and schedule continue, nothing already saved changes
    for (size_t i = 0; i < BP.size(); i++) for (int p = 0; p < n2; p++) { auto &x = bst[p][i], &y = fst[0][last + 1 + i]; if (x.count != y.count || x.snap != y.snap || x.write != y.write || x.count2 != y.count2 || x.snap2 != y.snap2) return c.fail("schedule", when + fmt(": step %zu after the restart counts %d and snapshot %d, without interruption %d and %d", i, x.count, x.snap, y.count, y.snap)); if (x.write) c.probe("snapshot after a restart"); }
    for (auto &f : a.fs.files) if (f.first.compare(0, 7, "result/") == 0 && f.first != "result/simBox.vtk") { auto it = b.fs.files.find(f.first); if (it == b.fs.files.end() || it->second != f.second) return c.fail("overwritten", when + ": " + f.first + " was changed by the restarted run"); }
    if (s.kbt > 0) { std::map<std::array<double, 3>, int> old; for (auto &f : FQ) for (auto *p : f.all) if (!p->imm) { Mob m = mobOf(*p, s.visc); V3 w = p->f[OMEGABR] * std::sqrt(s.dt / (2 * s.kbt * m.rot)); old[{std::round(w.x * 1e9), std::round(w.y * 1e9), std::round(w.z * 1e9)}] = p->gid; } for (auto &f : BQ) for (auto *p : f.all) if (!p->imm && norm(p->f[OMEGABR]) > 0) { Mob m = mobOf(*p, s.visc); V3 w = p->f[OMEGABR] * std::sqrt(s.dt / (2 * s.kbt * m.rot)); if (old.count({std::round(w.x * 1e9), std::round(w.y * 1e9), std::round(w.z * 1e9)})) return c.fail("noise-repeats", when + fmt(": particle %d gets random numbers the run before the restart already used", p->gid)); } c.probe("thermal restart"); return; }
    for (size_t i = 0; i < BP.size() && t.i("euler", 1); i++) { // the motion goes on as if uninterrupted
        size_t g = last + 1 + i; double act = 0; for (auto &x : FC[g]) act = std::max(act, std::fabs(x.gamma)); for (auto &x : BC[i]) act = std::max(act, std::fabs(x.gamma)); for (auto &x : FC[last]) (void)x; double drift = 1e-5 * (i + 1); if (BQ[i].all.size() != FQ[g].all.size()) return c.fail("lost", when + ": particles are missing");
        if (act > 1e-12) { c.probe("comparison ended at a contact"); return; }
        for (auto *p : BQ[i].all) { auto it = FQ[g].gid.find(p->gid); if (it == FQ[g].gid.end()) return c.fail("lost", when + fmt(": particle %d is missing", p->gid)); const PRec &r = *it->second; double vs = norm(r.f[VEL]) + 1e-13 * (s.edge(0) + s.edge(1) + s.edge(2)) / (s.dt * drift); /* positions carry rounding */ if (norm(p->f[VEL] - r.f[VEL]) > drift * vs) return c.fail("diverges", when + fmt(", step %zu: velocity of particle %d is %s, without interruption %s", g, p->gid, str(p->f[VEL]).c_str(), str(r.f[VEL]).c_str())); for (int k = 0; k < 3; k++) { double d = p->pos[k] - r.pos[k], w = s.edge(k); if (s.pbc[k]) d -= w * std::round(d / w); if (std::fabs(d) > 1e-9 * (w + std::fabs(r.pos[k])) + drift * (i + 2) * vs * s.dt + 1e-6 * norm(FQ[last].gid.at(p->gid)->f[VEL]) * s.dt) return c.fail("diverges", when + fmt(", step %zu: particle %d is at %s, without interruption %s", g, p->gid, str(p->pos).c_str(), str(r.pos).c_str())); } }
        c.probe("step compared with the uninterrupted run");
    }
}
static void genRun(Rng &r, TestCase &t, bool links) {
    Sys s = sysOf(t); t.seti("fseed", r.in(1, 1 << 30)); if (r.p(0.8)) t.setd("vmag", s.edge(0) / s.dt * r.u(0.001, 0.2)); if (r.p(0.4)) { double rad = 0; for (auto &p : s.ps) rad = std::max(rad, p.r + 0.5 * p.L); t.setd("fmag", rad * 20 * s.visc * s.edge(0) / s.dt * r.u(0.001, 0.1)); } t.seti("maxite", r.in(5, 60)); if (links && r.p(0.5)) genLinks(r, t); if (r.p(0.15)) t.seti("mono", 1); if (r.p(0.1)) t.seti("fixed", 1); t.setd("kappa", r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); t.seti("presteps", r.p(0.15)); if (r.p(0.4)) t.setd("shortWrite", r.u(0.05, 0.5)); static const double dts[] = {0.1, 0.01, 0.02, 0.05, 0.001, 0.03}; double dt = r.p(0.6) ? dts[r.below(6)] : r.u(0.001, 0.02); t.setd("dt", dt); if (t.has("vmag")) t.setd("vmag", t.d("vmag") * s.dt / dt); if (t.has("fmag")) t.setd("fmag", t.d("fmag") * s.dt / dt);
    double sn = r.in(1, 5) * dt; if (r.p(0.15)) sn = dt * r.u(0.2, 4); char b[32]; snprintf(b, sizeof b, "%.12g", sn); t.setd("snap", strtod(b, nullptr)); } // the interval as a user would write it
static void second(Rng &r, TestCase &t, int mr) { t.seti("nranks2", r.p(0.5) ? t.i("nranks") : r.in(1, mr)); t.seti("nthreads2", r.in(1, 3)); if (r.p(0.15)) t.seti("euler", 0); }
static PropReg r10(Prop{"C10", "sys", 8, 400, 4000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); GenOpt o; o.maxN = th ? 60 : 25; o.colRatio = true; genSystem(r, t, o); genRun(r, t, true); t.seti("steps", r.in(1, 7)); if (r.p(0.3)) t.setd("kbt", r.u(1e-6, 1e-3)); if (r.p(0.03)) { t.seti("nranks", r.p(0.5) ? 8 : 7); t.seti("nthreads", 1); t.kv.erase("preempt"); t.kv.erase("races"); t.setd("snap", t.d("dt")); t.seti("steps", 60); if (t.items.size() > 6) t.items.resize(6); t.setd("vmag", 0); } },
    c10, "random particle set with contacts and links stepped with random time step and snapshot interval; every file of every snapshot decoded and compared with the particle and constraint records of its step. Non-trivial: more than one process or thread.",
    {"write calls may transfer less than asked", "write schedule: intervals are whole multiples of the time step to 1e-6"}, {{"presteps", "0"}, {"vmag", ""}, {"fmag", ""}, {"mono", ""}, {"kbt", ""}, {"shortWrite", ""}, {"dcr", ""}, {"lcr", ""}}});
static PropReg r08(Prop{"C08", "sys", 6, 200, 2000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 2); GenOpt o; o.maxN = th ? 40 : 14; o.minN = 1; genSystem(r, t, o); genRun(r, t, true); t.seti("steps", r.in(1, 6)); second(r, t, 6); std::string cuts; int k = th ? 5 : 3; for (int i = 0; i < k; i++) cuts += fmt("%.15g:%.6g ", r.u() + (r.p(0.35) ? 0 : r.p(0.5) ? 1 : 2), r.p(0.5) ? r.u(0, 1) : -1.0); t.set("cuts", cuts); t.seti("lean", 0); },
    c08, "a run with snapshots is cut at random file operations (any, at the restart file, or around it), with or without a torn last write; what a crash leaves is restarted, possibly on another layout. Non-trivial: a restart took place.",
    {"a crash keeps every completed write of every process and possibly part of one more (process crash; loss of the page cache is not modelled)"}, {{"presteps", "0"}, {"vmag", ""}, {"fmag", ""}, {"mono", ""}, {"shortWrite", ""}, {"nthreads2", "1"}, {"nranks2", "1"}}});
static PropReg r09(Prop{"C09", "sys", 8, 250, 2500,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 3); GenOpt o; o.maxN = th ? 40 : 14; o.minN = 1; genSystem(r, t, o); genRun(r, t, true); t.seti("steps", r.in(1, 5)); t.seti("more", r.in(1, 5)); second(r, t, 6); if (r.p(0.3)) t.setd("kbt", r.u(1e-8, 1e-5)); if (r.p(0.012)) { longRun(r, t, 1, 6); t.seti("nranks", r.in(6, 8)); if (r.p(0.3)) t.seti("nranks2", r.in(6, 8)); t.seti("steps", r.in(48, 53)); t.setd("snap", t.d("dt") * (r.p(0.7) ? 1 : 2) * 1.0001); t.setd("vmag", t.d("vmag") * 0.2); } },
    c09, "a run, its continuation from the last snapshot (possibly on another layout), and the same run without interruption; states, numbering, schedule and files compared. Non-trivial: always.",
    {"snapshots keep velocities and sizes in single precision: states agree to that precision", "motion is compared until the first step with constraint forces", "rotation about a particle's own axis is not saved"}, {{"presteps", "0"}, {"vmag", ""}, {"fmag", ""}, {"mono", ""}, {"shortWrite", ""}, {"nthreads2", "1"}}});
// ---------------------------------------------------------------- C24: the program under repeated crashes and restarts, judged by the files it leaves
struct Info { unsigned seed = 0, step = 0, snap = 0; std::string pvtp, dir; bool ok = false; };
static Info infoOf(const FsImage &fs) {
    Info i; auto it = fs.files.find("TimeStepInfo.txt"); if (it == fs.files.end()) return i; std::istringstream in(it->second); in >> i.seed >> i.step >> i.snap >> i.pvtp >> i.dir; if (in && i.dir.compare(0, 2, "./") == 0) i.dir = i.dir.substr(2); i.ok = !!in; return i;
}
struct Saved { char type; double r; V3 a, b; int group; };
// one whole snapshot from its folder: pieces named by the header, complete and consistent with the Ascii file
static bool readSnap(Ctx &c, const Sys &s, const FsImage &fs, const std::string &dir, int k, int step, std::map<int, Saved> &out, const std::string &when) {
    auto bad = [&](const char *cls, const std::string &m) { c.fail(cls, when + ": " + m); return false; };
    auto h = fs.files.find(dir + fmt("Sylinder_%d.pvtp", k)); if (h == fs.files.end()) return bad("snapshot-missing", dir + fmt("Sylinder_%d.pvtp does not exist", k));
    std::map<int, double> rad; size_t n = 0; for (size_t p = 0; (p = h->second.find("Source=\"", p)) != std::string::npos;) { p += 8; std::string f = h->second.substr(p, h->second.find('"', p) - p), err; auto it = fs.files.find(dir + f); if (it == fs.files.end()) return bad("snapshot-missing", dir + f + " does not exist"); Vtp v; if (!parseVtp(it->second, v, err)) return bad("snapshot-damaged", dir + f + ": " + err); auto &g = v.a["gid"], &R = v.a["radius"]; for (size_t i = 0; i < g.size(); i++) { n++; rad[(int)g[i]] = R[i]; } }
    auto it = fs.files.find(dir + fmt("SylinderAscii_%d.dat", k)); if (it == fs.files.end()) return bad("snapshot-missing", dir + fmt("SylinderAscii_%d.dat does not exist", k)); std::istringstream in(it->second); std::string line; std::getline(in, line); std::getline(in, line);
    if (std::fabs(atof(line.c_str()) - step * s.dt) > 1e-6 * (1 + step * s.dt)) return bad("snapshot-content", fmt("snapshot %d is marked with time %s, it is %g", k, line.c_str(), step * s.dt));
    std::multiset<std::pair<int, int>> ls; while (std::getline(in, line)) { char ty; int g, gr; double x[7]; if (line.empty()) continue; int a, b; if (line[0] == 'L') { if (sscanf(line.c_str(), "L %d %d", &a, &b) == 2) ls.insert({a, b}); continue; } if (sscanf(line.c_str(), "%c %d %lf %lf %lf %lf %lf %lf %lf %d", &ty, &g, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, &gr) != 10) return bad("snapshot-damaged", dir + ": " + line); if (out.count(g)) return bad("particles", fmt("particle %d is twice in snapshot %d", g, k)); out[g] = Saved{ty, x[0], {x[1], x[2], x[3]}, {x[4], x[5], x[6]}, gr}; }
    if (n != out.size() || rad.size() != n) return bad("particles", fmt("the pieces of snapshot %d hold %zu particles, its text file %zu", k, n, out.size())); for (auto &x : out) if (!rad.count(x.first)) return bad("particles", fmt("particle %d is in the text file of snapshot %d only", x.first, k));
    if (ls != std::multiset<std::pair<int, int>>(s.links.begin(), s.links.end())) return bad("links", fmt("snapshot %d holds %zu of %zu links or other ones", k, ls.size(), s.links.size()));
    return true;
}
static int stepsFor(double total, double dt) { int n = 0; while (n * dt < total) n++; return n; }
static void c24(const TestCase &t, Ctx &c) {
    const Sys s = sysOf(t); const int m = snapEvery(s); std::istringstream in(t.s("segs")); std::vector<std::array<double, 6>> segs; for (std::array<double, 6> a; in >> a[0] >> a[1] >> a[2] >> a[3] >> a[4] >> a[5];) segs.push_back(a); // where it crashes (<0: it does not), torn, ranks, threads, steps asked for, policy
    TestCase first = t; FsImage fs; int restarts = 0, upto = -1; unsigned seed = (unsigned)s.rngSeed; std::map<std::string, std::string> frozen; std::map<int, std::string> dirOf; std::map<int, std::map<int, Saved>> seen;
    for (size_t g = 0; g < segs.size() && !c.bad(); g++) {
        auto &a = segs[g]; const bool last = g + 1 == segs.size(); TestCase u = t; const int nr = (int)a[2]; u.seti("nranks", nr); u.seti("nthreads", (long)a[3]); u.seti("sched", (long)a[5]); u.seti("jseed", (long)(mix((uint64_t)t.i("jseed"), 31 + g) >> 2)); if (a[3] == 1) { u.kv.erase("preempt"); u.kv.erase("races"); } u.setd("total", a[4] * s.dt * (1 - 1e-9) - (t.i("half") ? 0.5 * s.dt : 0)); const int N = stepsFor(u.d("total"), s.dt);
        JobSpec j = sysJob(u, s, "program"); if (g) { std::string cfg = j.fs.files["RunConfig.yaml"]; j.fs = fs; j.fs.files["RunConfig.yaml"] = cfg; } const bool crash = a[0] >= 0 && !last; j.fsLog = crash; const Info before = infoOf(j.fs); const bool resume = before.ok; const unsigned now = resume ? before.seed + 1 : (unsigned)s.rngSeed;
        JobResult r = c.run(j); std::string when = fmt("run %zu of %zu (%d processes%s)", g + 1, segs.size(), nr, resume ? fmt(", continuing snapshot %u", before.snap).c_str() : ""); if (!r.ok()) { c.needOk(r); if (!c.cls.empty() && resume) { c.cls = "restart-fails"; c.msg = when + ": " + c.msg; } return; }
        int fin = 0; for (auto &x : r.rec) if (x.tag == "rc") { fin++; if (asInts(x.data)[0]) return c.fail("exit", when + " reports failure"); } if (fin != nr) return c.fail("missing", when + ": a process did not come to its end");
        FsImage img = r.fs; if (crash) { if (r.fslog.empty()) img = j.fs; else { size_t at; double q = a[0]; std::vector<size_t> info; for (size_t i = 0; i < r.fslog.size(); i++) if (r.fslog[i].a.find("TimeStepInfo") != std::string::npos) info.push_back(i); if (q < 1 || info.empty()) at = (size_t)((q - std::floor(q)) * (r.fslog.size() + 1)); else at = std::min(r.fslog.size(), info[(size_t)((q - 1) * info.size())] + (q > 1.5)); size_t tb = 0; if (a[1] >= 0 && at < r.fslog.size() && r.fslog[at].k == FsOp::WRITE) { tb = (size_t)(a[1] * r.fslog[at].a.size()); if (tb) c.probe("torn write at the crash"); } img = replayFs(j.fs, r.fslog, at, tb); when += fmt(" killed at file operation %zu of %zu", at, r.fslog.size()); c.probe("crash"); } }
        // what is there now
        Info i = infoOf(img); if (img.files.count("TimeStepInfo.txt") && !i.ok) return c.fail("restart-file", when + ": the restart file is damaged: " + img.files["TimeStepInfo.txt"]); if (!i.ok) { if (upto >= 0) return c.fail("progress-lost", when + ": the restart file is gone"); if (!crash && N > 0) return c.fail("progress-lost", when + ": there is no restart file at the end"); fs = img; continue; }
        const bool wrote = !resume || i.snap != before.snap; if ((int)i.snap < upto) return c.fail("progress-lost", when + fmt(": the restart file names snapshot %u, it named %d before", i.snap, upto)); if (i.step != i.snap * (unsigned)m) return c.fail("schedule", when + fmt(": snapshot %u is of step %u, one every %d steps is configured", i.snap, i.step, m)); if (wrote && i.seed != now) return c.fail("seed", when + fmt(": the restart file holds random seed %u, this run has seed %u", i.seed, now)); if (!wrote && i.seed != before.seed) return c.fail("seed", when + ": the random seed in the restart file changed without a snapshot");
        const int want = N > 0 ? (N - 1) / m : -1; if (!crash && (int)i.snap != std::max(want, upto)) return c.fail(want > (int)i.snap ? "stopped-early" : "ran-too-long", when + fmt(": %d steps of %g were to be done for a total time of %g: the last snapshot is %u, it should be %d", N, s.dt, u.d("total"), i.snap, std::max(want, upto))); if ((int)i.snap > std::max(want, upto)) return c.fail("ran-too-long", when + fmt(": snapshot %u was written, %d is the last one of a run of %d steps", i.snap, want, N));
        if (i.pvtp != fmt("Sylinder_%u.pvtp", i.snap)) return c.fail("restart-file", when + ": the restart file names " + i.pvtp); const int from = resume ? (int)before.snap + 1 : 0; for (int k = from; k <= (int)i.snap && wrote; k++) dirOf[k] = folderOf(k, nr); if (dirOf.count(i.snap) && i.dir != dirOf[i.snap]) return c.fail("restart-file", when + fmt(": the restart file names folder %s for snapshot %u, it is in %s", i.dir.c_str(), i.snap, dirOf[i.snap].c_str()));
        for (auto &f : frozen) { auto it = img.files.find(f.first); if (it == img.files.end() || it->second != f.second) return c.fail("overwritten", when + ": " + f.first + " of a finished snapshot was changed"); }
        for (int k = wrote ? from : (int)i.snap + 1; k <= (int)i.snap; k++) { std::map<int, Saved> now; if (!readSnap(c, s, img, dirOf[k], k, k * m, now, when)) return; c.probe("snapshot read back");
            if (now.size() != s.ps.size()) return c.fail("particles", when + fmt(": snapshot %d holds %zu of %zu particles", k, now.size(), s.ps.size()));
            for (auto &p : s.ps) { auto it = now.find(p.gid); if (it == now.end()) return c.fail("particles", when + fmt(": particle %d is not in snapshot %d", p.gid, k)); const Saved &q = it->second; V3 mid = (q.a + q.b) * 0.5; double L = norm(q.b - q.a); if ((q.type == 'S') != (p.type == 'S') || q.group != p.group || std::fabs(q.r - p.r) > 1e-6 * p.r || std::fabs(L - p.L) > 1e-6 * p.L + 1e-6 * (1 + norm(q.a))) return c.fail("particles", when + fmt(": particle %d has type %c group %d radius %g length %g in snapshot %d, configured %c %d %g %g", p.gid, q.type, q.group, q.r, L, k, p.type, p.group, p.r, p.L));
                bool still = p.type == 'S' || s.fixed; for (int d = 0; d < 3; d++) { double w = s.edge(d), tol = 1e-6 * (1 + norm(mid)); if (s.pbc[d] && !(mid[d] >= s.lo[d] - tol && mid[d] <= s.hi[d] + tol)) return c.fail("position", when + fmt(": particle %d is at %s in snapshot %d, outside of the periodic box", p.gid, str(mid).c_str(), k)); if (still) { double x = mid[d] - (s.mono && d == 2 ? 0.5 * (s.lo[2] + s.hi[2]) : p.c[d]); if (s.pbc[d]) x -= w * std::round(x / w); if (std::fabs(x) > 2 * tol) return c.fail("position", when + fmt(": immovable particle %d is at %s in snapshot %d, it was put at %s", p.gid, str(mid).c_str(), k, str(p.c).c_str())); c.probe("immovable particle followed"); } }
                if (!still && s.kbt > 0 && k > 0 && !s.fixed && seen.count(k - 1)) { const Saved &o = seen[k - 1].at(p.gid); V3 om = (o.a + o.b) * 0.5; if (norm(om - mid) == 0 && norm(o.a - q.a) == 0 && s.kbt > 1e-5) return c.fail("position", when + fmt(": particle %d does not move between snapshots %d and %d", p.gid, k - 1, k)); c.probe("moving particle followed"); } }
            seen[k] = now; const std::string suf = fmt("_%d.", k); for (auto &f : img.files) if (f.first.compare(0, dirOf[k].size(), dirOf[k]) == 0 && f.first.find(suf) != std::string::npos) frozen[f.first] = f.second; }
        upto = std::max(upto, (int)i.snap); if (resume && wrote) c.probe("progress after a restart"); if (resume) restarts++; if (!crash && !last) c.probe("finished run continued for longer"); fs = img;
    }
    if (restarts > 1) c.probe("several restarts in a row"); c.nontrivial = restarts > 0;
}
static PropReg r24(Prop{"C24", "sys", 6, 180, 2000,
    [](Rng &r, TestCase &t, int, bool th) {
        genSched(r, t, 6, 2); GenOpt o; o.maxN = th ? 30 : 12; o.minN = 1; genSystem(r, t, o); genRun(r, t, true); t.kv.erase("vmag"); t.kv.erase("fmag"); if (r.p(0.6)) t.setd("kbt", r.u(1e-6, 1e-3)); if (r.p(0.2)) t.seti("half", 1); t.seti("rngSeed", r.in(1, 1 << 20)); int k = r.in(2, th ? 6 : 4), n = r.in(1, 6); std::string g;
        for (int i = 0; i <= k; i++) { bool stop = i == k || r.p(0.15); if (stop && i) n += r.in(0, 4); g += fmt("%.12g %.6g %d %d %d %d ", stop ? -1.0 : r.u() + (r.p(0.4) ? 1 : 0), r.p(0.4) ? r.u(0, 1) : -1.0, r.in(1, 6), r.in(1, 2), n, (int)r.below(5)); } t.set("segs", g); },
    c24, "the main program run in a chain: killed at a random file operation (or run to its end), started again on another number of processes, with the same or a longer total time, until it finishes; restart file, snapshots, particles, links and schedule judged from the files alone. Non-trivial: at least one run continued from a restart file.",
    {"a crash keeps every completed write of every process and possibly part of one more (process crash; loss of the page cache is not modelled)", "the text files carry 8 digits"}, {{"presteps", "0"}, {"mono", ""}, {"kbt", ""}, {"shortWrite", ""}, {"half", ""}}});
// ---------------------------------------------------------------- C26: disks that fill up or fail
static void c26(const TestCase &t, Ctx &c) {
    const Sys s = sysOf(t); const int nr = (int)t.i("nranks", 1), m = snapEvery(s), k0 = (int)t.i("fault"); TestCase good = t; for (const char *k : {"ioErr", "openErr", "diskBytes"}) good.kv.erase(k); JobSpec j = sysJob(t, s);
    if (k0 == 0) { JobResult a = c.run(sysJob(good, s)); if (!c.needOk(a)) return; long b0 = 0, b1 = 0; for (auto &f : j.fs.files) b0 += (long)f.second.size(); for (auto &f : a.fs.files) b1 += (long)f.second.size(); j.faults.diskBytes = b0 + (long)(t.d("room") * (b1 - b0)); } // the disk fills up at any byte of what the run writes
    JobResult r = c.run(j); std::string when = k0 == 0 ? fmt("disk full after %ld bytes", j.faults.diskBytes) : "file errors"; if (r.status != J_OK && r.status != J_EXIT && r.status != J_ABORT) { c.needOk(r); return; } // going on and stopping with an error are both fine
    const bool hit = r.notes.count("io_failed"); if (!hit) { if (!c.needOk(r)) return; } else c.probe(r.status == J_OK ? "run went on after a file error" : "run stopped at a file error"); const double T = hit ? r.notes["io_failed"] : 1e300;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto st = stepRecs(r, nr); int done = -1; for (size_t i = 0;; i++) { bool all = true; for (int p = 0; p < nr; p++) if (st[p].size() <= i || (double)st[p][i].at >= T) all = false; if (!all) break; if (i % m == 0) done = (int)i / m; }
    const Info i = infoOf(r.fs); if (r.fs.files.count("TimeStepInfo.txt") && !i.ok) return c.fail("restart-file", when + ": the restart file is damaged: \"" + r.fs.files["TimeStepInfo.txt"] + "\"");
    if (!i.ok && done >= 0) return c.fail("snapshot-lost", when + fmt(": snapshot %d was complete before and there is nothing to restart from", done)); int k = -1;
    if (i.ok) {
        k = (int)i.snap; if (k < done) return c.fail("snapshot-lost", when + fmt(": the restart file names snapshot %d, %d was complete before", k, done)); if ((int)i.step != k * m || post.size() <= (size_t)(k * m) || prep.size() <= (size_t)(k * m)) return c.fail("restart-file", when + fmt(": the restart file names snapshot %d of step %u", k, i.step));
        std::map<int, Saved> now; if (!readSnap(c, s, r.fs, folderOf(k, nr), k, k * m, now, when + ", the snapshot the restart file names")) return; if (now.size() != s.ps.size()) return c.fail("snapshot-damaged", when + fmt(": snapshot %d holds %zu of %zu particles", k, now.size(), s.ps.size()));
    }
    // room again: the run goes on from there, or starts anew if nothing was saved, over whatever the failure left behind
    TestCase v = i.ok ? restartCase(good, 41) : good; const int more = (int)t.i("more", 1), n2 = (int)v.i("nranks", 1); v.seti("steps", more); Sys s2 = sysOf(v); JobSpec q = jobFrom(v, "steps"); q.blob = blobOf(v); q.fs = r.fs; JobResult b = c.run(q); when += i.ok ? ", continued" : ", started again"; if (!b.ok()) { c.needOk(b); if (!c.cls.empty()) { c.cls = "restart-fails"; c.msg = when + ": " + c.msg; } return; }
    auto ini = frames(b, "init", n2), P = frames(b, "post", n2); auto st2 = stepRecs(b, n2); if (ini.size() != 1 || P.size() != (size_t)more) return c.fail("missing", "a rank stopped reporting");
    if (i.ok) { sameState(c, s, ini[0], prep[k * m], post[k * m], t.i("euler", 1), when); if (!c.bad()) sameLinks(c, s, b, when); if (c.bad()) return; c.probe("continued from the last snapshot"); } else c.probe("failed before the first snapshot");
    for (int q = 0; q < more; q++) { const int step = i.ok ? k * m + 1 + q : q; if (st2[0][q].count != step) return c.fail("schedule", when + fmt(": step %d is counted as %d", step, st2[0][q].count)); if (step % m == 0) { std::map<int, Saved> now; if (!readSnap(c, s, b.fs, folderOf(step / m, n2), step / m, step, now, when)) return; c.probe("snapshot rewritten after a failure"); } }
    if (hit) c.nontrivial = true;
}
static PropReg r26(Prop{"C26", "sys", 6, 300, 3000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 2); GenOpt o; o.maxN = th ? 40 : 14; o.minN = 1; genSystem(r, t, o); genRun(r, t, true); t.seti("presteps", 0); t.seti("steps", r.in(1, 6)); t.seti("more", r.in(1, 4)); second(r, t, 6); int k = r.p(0.6) ? 0 : r.in(1, 2); t.seti("fault", k); if (k == 0) t.setd("room", r.p(0.15) ? r.u(0, 0.05) : r.u()); else if (k == 1) t.setd("ioErr", r.logu(0.003, 0.3)); else t.setd("openErr", r.logu(0.01, 0.3)); if (r.p(0.5)) t.setd("snap", t.d("dt") * r.in(1, 2) * 1.0001); },
    c26, "a run with snapshots whose disk fills up at a random byte, or whose writes or file creations fail at random; the restart file and the snapshot it names are judged, then the run is continued with room again, possibly on another layout. Non-trivial: a fault hit.",
    {"after the failure the disk keeps what was written until then; reading does not fail"}, {{"vmag", ""}, {"fmag", ""}, {"mono", ""}, {"shortWrite", ""}, {"nthreads2", "1"}, {"nranks2", "1"}, {"more", "1"}}});
