#include "geo.hpp"
// ---------------------------------------------------------------- velocities, forces and motion of one step
static V3 extOf(const TestCase &t, const PRec &p, long step, double mag, uint64_t tag) { // what rank/sys.cpp prescribes
    uint64_t seed = (uint64_t)t.i("fseed", 1), st = (uint64_t)step * 1000003; double w = tag % 100 < 3 ? 1 : p.L + p.r; V3 v; for (int k = 0; k < 3; k++) v[k] = mag * (2 * hu(seed, tag + k, st + p.gid) - 1) * w; return v;
}
static V3 flat(V3 v) { return {v.x, v.y, 0}; }
static V3 spin(V3 v) { return {0, 0, v.z}; }
static bool close(V3 a, V3 b, double scale, double rel = 1e-9) { return std::isfinite(a.x + a.y + a.z) && norm(a - b) <= rel * (scale + norm(a) + norm(b)) + 1e-300; }
static void motion(Ctx &c, const TestCase &t, const Sys &s, const Frame &prep, const Frame &post, long step, const std::string &when) {
    const bool off = t.i("skip") >> step % 8 & 1; const double fm = off ? 0 : t.d("fmag"), vm = off ? 0 : t.d("vmag"); const double em = std::max(s.edge(0), std::max(s.edge(1), s.edge(2)));
    for (auto *q : post.all) {
        const PRec *p = prep.gid.at(q->gid); Mob m = mobOf(*p, s.visc); V3 d = p->dir();
        V3 F = extOf(t, *p, step, fm, 100), T = extOf(t, *p, step, fm, 103), V = extOf(t, *p, step, vm, 200), W = extOf(t, *p, step, vm, 203);
        auto bad = [&](const char *what, V3 got, V3 want) { c.fail(what, when + fmt(": particle %d%s %s is %s, expected %s", q->gid, p->imm ? " (immovable)" : "", what, str(got).c_str(), str(want).c_str())); };
        auto is = [&](const char *what, V3 got, V3 want, double sc) { if (!close(got, want, sc)) { bad(what, got, want); return false; } return true; };
        V3 vF = applyMob(m, d, F), wF = m.rot * T; double sv = m.perp * norm(F) + m.para * norm(F) + norm(V), sw = m.rot * norm(T) + norm(W); if (s.mono) { vF = flat(vF); wF = spin(wF); V = flat(V); W = spin(W); }
        if (!is("external-force", q->f[FNB], F, 0) || !is("external-torque", q->f[TNB], T, 0) || !is("non-Brownian-velocity", q->f[VELNB], vF + V, sv) || !is("non-Brownian-rotation", q->f[OMEGANB], wF + W, sw)) return;
        if (s.kbt == 0 || p->imm) { if (norm(q->f[VELBR]) + norm(q->f[OMEGABR]) != 0) return bad("Brownian-velocity", q->f[VELBR], V3{}); }
        double fc = norm(q->f[FCOL]), fb = norm(q->f[FBI]), tc = norm(q->f[TCOL]), tb = norm(q->f[TBI]), mm = m.para + m.perp;
        if (!is("contact-velocity", q->f[VELCOL], applyMob(m, d, q->f[FCOL]), 10 * mm * (fc + fb)) || !is("contact-rotation", q->f[OMEGACOL], m.rot * q->f[TCOL], 10 * m.rot * (tc + tb)) || !is("link-velocity", q->f[VELBI], applyMob(m, d, q->f[FBI]), 10 * mm * (fc + fb)) || !is("link-rotation", q->f[OMEGABI], m.rot * q->f[TBI], 10 * m.rot * (tc + tb))) return;
        V3 nb = q->f[VELNB], br = q->f[VELBR], on = q->f[OMEGANB], ob = q->f[OMEGABR]; if (s.mono) { br = flat(br); ob = spin(ob); if (norm(q->f[VELBR] - br) + norm(q->f[OMEGABR] - ob) > 0) return bad("Brownian-velocity", q->f[VELBR], br); }
        if (!is("velocity", q->f[VEL], nb + br + q->f[VELCOL] + q->f[VELBI], norm(nb) + norm(br)) || !is("rotation", q->f[OMEGA], on + ob + q->f[OMEGACOL] + q->f[OMEGABI], norm(on) + norm(ob)) || !is("force", q->f[FORCE], q->f[FNB] + q->f[FCOL] + q->f[FBI], fc + fb) || !is("torque", q->f[TORQUE], q->f[TNB] + q->f[TCOL] + q->f[TBI], tc + tb)) return;
        if (s.fixed) { if (norm(q->pos - p->pos) != 0 || std::fabs(q->q.x - p->q.x) + std::fabs(q->q.y - p->q.y) + std::fabs(q->q.z - p->q.z) + std::fabs(q->q.w - p->q.w) != 0) return bad("position", q->pos, p->pos); }
        else {
            V3 want = p->pos + q->f[VEL] * s.dt; if (norm(q->pos - want) > 1e-11 * (em + norm(want))) return bad("position", q->pos, want);
            double w = norm(q->f[OMEGA]), h = 0.5 * w * s.dt; Quat r{0, 0, 0, 1}; if (w > 0) { V3 a = q->f[OMEGA] * (std::sin(h) / w); r = {a.x, a.y, a.z, std::cos(h)}; } r = qmul(r, p->q);
            double dp = std::fabs(r.x * q->q.x + r.y * q->q.y + r.z * q->q.z + r.w * q->q.w); V3 dn = qrot(r, {0, 0, 1}) - q->dir();
            if (std::fabs(qnorm(q->q) - 1) > 1e-9 || norm(dn) > 1e-7 || std::fabs(dp - 1) > 1e-7) return bad("orientation", q->dir(), qrot(r, {0, 0, 1}));
        }
        if (s.mono) { double mid = 0.5 * (s.lo.z + s.hi.z); if (std::fabs(p->pos.z - mid) > 1e-12 * (1 + std::fabs(mid)) + 1e-12 || std::fabs(d.z) > 1e-9) return bad("monolayer-position", p->pos, V3{p->pos.x, p->pos.y, mid}); c.probe("monolayer"); }
        if (p->imm) c.probe("immovable particle"); if (fm != 0) c.probe("external force"); if (off && step && (t.has("fmag") || t.has("vmag"))) c.probe("step without prescribed motion after one with it"); if (vm != 0) c.probe("external velocity"); if (fc > 0) c.probe("contact force"); if (fb > 0) c.probe("link force"); if (s.fixed) c.probe("fixed system"); if (norm(br) > 0) c.probe("Brownian velocity");
        c.nontrivial = true;
    }
}
static void c13(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); if (prep.size() != (size_t)t.i("steps") || post.size() != prep.size()) return c.fail("missing", "a rank stopped reporting");
    for (size_t i = 0; i < prep.size() && !c.bad(); i++) { if (prep[i].dup || post[i].dup || prep[i].all.size() != post[i].all.size()) return c.fail("lost", "particles changed owner inside a step"); motion(c, t, s, prep[i], post[i], (long)i, fmt("step %zu", i)); }
}
// ---------------------------------------------------------------- constraint forces
static bool converged(const std::string &log, double tol, bool &reported) { reported = false; bool ok = false; std::istringstream in(log); std::string l; while (std::getline(in, l)) { auto p = l.find("BCQP residue "); if (p == std::string::npos) continue; double v[6] = {}; sscanf(l.c_str() + p + 13, "%lf, %lf, %lf, %lf, %lf, %lf", v, v + 1, v + 2, v + 3, v + 4, v + 5); reported = true; ok = std::fabs(v[4]) < tol; } return ok; }
static std::vector<std::string> logs(const JobResult &r, const char *tag = "log") { std::vector<std::string> v; for (auto &x : r.rec) if (x.tag == tag && x.rank == 0) v.push_back(x.data); return v; }
static void balance(Ctx &c, const Sys &s, const Frame &prep, const Frame &post, const std::vector<CRec> &con, bool conv, const std::string &when) {
    std::map<int, std::array<V3, 4>> sum; double tot = 0; std::map<int, double> act, lever;
    for (auto &b : con) {
        if (!std::isfinite(b.gamma)) return c.fail("multiplier", when + fmt(": constraint %d-%d has multiplier %g", b.gidI, b.gidJ, b.gamma));
        if (!b.bil && b.gamma < 0) return c.fail("attraction", when + fmt(": contact %d-%d pulls with %g", b.gidI, b.gidJ, b.gamma));
        int k = b.bil ? 2 : 0; auto &I = sum[b.gidI]; I[k] = I[k] + b.gamma * b.nI; I[k + 1] = I[k + 1] + cross(b.pI, b.gamma * b.nI); act[b.gidI] += std::fabs(b.gamma); lever[b.gidI] += std::fabs(b.gamma) * norm(b.pI);
        if (!b.oneSide) { auto &J = sum[b.gidJ]; J[k] = J[k] + b.gamma * b.nJ; J[k + 1] = J[k + 1] + cross(b.pJ, b.gamma * b.nJ); act[b.gidJ] += std::fabs(b.gamma); lever[b.gidJ] += std::fabs(b.gamma) * norm(b.pJ); }
        tot += std::fabs(b.gamma);
    }
    for (auto *q : post.all) {
        auto &w = sum[q->gid]; static const int at[4] = {FCOL, TCOL, FBI, TBI}; static const char *nm[4] = {"contact force", "contact torque", "link force", "link torque"};
        for (int k = 0; k < 4; k++) { double sc = (k % 2 ? lever : act)[q->gid]; if (!(norm(q->f[at[k]] - w[k]) <= 1e-8 * sc + 1e-12 * tot * (k % 2 ? q->L + q->r : 1))) return c.fail("force-balance", when + fmt(": particle %d %s is %s, its constraints' multipliers add up to %s", q->gid, nm[k], str(q->f[at[k]]).c_str(), str(w[k]).c_str())); }
    }
    if (!conv) { c.probe("solver stopped before convergence"); return; } if (!con.empty()) c.probe("converged step with constraints");
    for (auto &b : con) { // complementarity with the velocities the particles have
        const PRec *A = post.gid.at(b.gidI), *B = post.gid.at(b.gidJ);
        double rate = dot(b.nI, A->f[VEL]) + dot(b.nI, cross(A->f[OMEGA], b.pI)), sc = norm(A->f[VEL]) + norm(A->f[OMEGA]) * norm(b.pI);
        if (!b.oneSide) { rate += dot(b.nJ, B->f[VEL]) + dot(b.nJ, cross(B->f[OMEGA], b.pJ)); sc += norm(B->f[VEL]) + norm(B->f[OMEGA]) * norm(b.pJ); }
        double soft = b.bil && b.kappa > 0 ? b.gamma / (b.kappa * s.dt) : 0, phi = b.delta0 / s.dt + rate + soft, tol = 1.001 * s.tol + 1e-9 * (std::fabs(b.delta0) / s.dt + sc + std::fabs(soft));
        if (b.bil && b.gamma <= -1e8 * (1 - 1e-9)) { if (!(phi >= -tol)) return c.fail("link-relation", when + fmt(": link %d-%d at its force limit: gap rate %.9g", b.gidI, b.gidJ, phi)); c.probe("link at its force limit"); }
        else if (b.bil) { if (!(std::fabs(phi) <= tol)) return c.fail("link-relation", when + fmt(": link %d-%d: gap rate + force / (stiffness dt) is %.9g instead of zero (gap %g, force %g)", b.gidI, b.gidJ, phi, b.delta0, b.gamma)); if (b.gamma != 0) c.probe("link under load"); }
        else {
            if (!(phi >= -tol)) return c.fail("penetration", when + fmt(": contact %d-%d closes beyond its gap: predicted gap/dt %.9g (gap %g, force %g)", b.gidI, b.gidJ, phi, b.delta0, b.gamma));
            if (b.gamma > 1e-12 && !(phi <= tol)) return c.fail("complementarity", when + fmt(": contact %d-%d has force %g although its predicted gap/dt is %.9g", b.gidI, b.gidJ, b.gamma, phi));
            if (b.gamma > 1e-12) c.probe(b.oneSide ? "wall contact with force" : "contact with force"); else c.probe("inactive contact");
        }
        const PRec *a = prep.gid.at(b.gidI), *d = prep.gid.at(b.gidJ); if (a->owner != d->owner) c.probe("constraint across ranks"); c.nontrivial = true;
    }
}
static void c05(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto con = conFrames(r, nr); auto lg = logs(r); size_t n = (size_t)t.i("steps"); if (prep.size() != n || post.size() != n || con.size() != n || lg.size() != n) return c.fail("missing", "a rank stopped reporting");
    for (size_t i = 0; i < n && !c.bad(); i++) { bool rep; bool ok = converged(lg[i], s.tol, rep); if (getenv("SIM_CAL")) fprintf(stderr, "LOG %s", lg[i].c_str()); if (!rep) return c.fail("missing", "the solver did not report its residual"); balance(c, s, prep[i], post[i], con[i], ok, fmt("step %zu", i)); }
}
// constraints added by the caller between preparing and running a step: kept as they are, solved with the others, gone afterwards
static void c25(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto con = conFrames(r, nr), user = conFrames(r, nr, "user"); auto lg = logs(r); size_t n = (size_t)t.i("steps"); if (prep.size() != n || post.size() != n || con.size() != n || user.size() != n || lg.size() != n) return c.fail("missing", "a rank stopped reporting");
    auto same = [](const CRec &a, const CRec &b) { return a.delta0 == b.delta0 && a.gidI == b.gidI && a.gidJ == b.gidJ && a.gI == b.gI && a.gJ == b.gJ && a.oneSide == b.oneSide && a.bil == b.bil && a.kappa == b.kappa && norm(a.nI - b.nI) == 0 && norm(a.nJ - b.nJ) == 0 && norm(a.pI - b.pI) == 0 && norm(a.pJ - b.pJ) == 0 && norm(a.lI - b.lI) == 0 && norm(a.lJ - b.lJ) == 0 && a.owner == b.owner; };
    std::set<std::pair<int, double>> old; // of earlier steps
    for (size_t i = 0; i < n && !c.bad(); i++) {
        const std::string when = fmt("step %zu", i); std::multimap<double, const CRec *> idx; for (auto &b : con[i]) idx.emplace(b.delta0, &b); std::set<std::pair<int, double>> now;
        for (auto &u : user[i]) { int hits = 0; for (auto e = idx.equal_range(u.delta0); e.first != e.second; ++e.first) hits += same(*e.first->second, u); if (hits != 1) return c.fail("user-constraint", when + fmt(": the constraint added between %d and %d (%s, %s) is in the pool %d times after the step", u.gidI, u.gidJ, u.oneSide ? "one particle and a point" : "two particles", u.bil ? "two-sided" : "one-sided", hits)); now.insert({u.gidI, u.delta0}); c.probe(u.bil ? u.oneSide ? "tether" : "two-sided constraint between particles" : u.oneSide ? "stop at a point" : "stop between particles"); if (!u.oneSide && prep[i].gid.at(u.gidI)->owner != prep[i].gid.at(u.gidJ)->owner) c.probe("added constraint across ranks"); }
        for (auto &b : con[i]) if (old.count({b.gidI, b.delta0}) && !now.count({b.gidI, b.delta0})) return c.fail("user-constraint", when + fmt(": a constraint of particle %d added in an earlier step acts again", b.gidI)); old.insert(now.begin(), now.end());
        bool rep; bool ok = converged(lg[i], s.tol, rep); if (!rep) return c.fail("missing", "the solver did not report its residual"); balance(c, s, prep[i], post[i], con[i], ok, when);
    }
}
// ---------------------------------------------------------------- the same result for every layout
static void c02(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); TestCase one = t; for (const char *k : {"delay", "rendezvous", "preempt", "races", "poison", "clockJump"}) one.kv.erase(k); one.seti("nranks", 1); one.seti("nthreads", 1); one.seti("sched", 0);
    JobResult a = c.run(sysJob(one, s)); if (!c.needOk(a)) return; JobResult b = c.run(sysJob(t, s)); if (!c.needOk(b)) return; int nr = (int)t.i("nranks", 1); size_t n = (size_t)t.i("steps");
    auto A = frames(a, "post", 1), B = frames(b, "post", nr), PA = frames(a, "prep", 1), PB = frames(b, "prep", nr); auto CA = conFrames(a, 1), CB = conFrames(b, nr); auto LA = logs(a), LB = logs(b);
    if (A.size() != n || B.size() != n || CA.size() != n || CB.size() != n || LA.size() != n || LB.size() != n || PA.size() != n || PB.size() != n) return c.fail("missing", "a rank stopped reporting");
    const double em = std::max(s.edge(0), std::max(s.edge(1), s.edge(2)));
    for (size_t i = 0; i < n; i++) {
        std::string when = fmt("step %zu, %d x %ld against 1 x 1", i, nr, t.i("nthreads", 1)); bool ra, rb; bool ok = converged(LA[i], s.tol, ra) && converged(LB[i], s.tol, rb); if (!ok) { c.probe("solver stopped before convergence"); return; }
        if (A[i].all.size() != B[i].all.size()) return c.fail("lost", when + ": different number of particles");
        double g = 0, act = 0; for (auto *cs : {&CA[i], &CB[i]}) { double q = 0; for (auto &x : *cs) { q += x.gamma * x.gamma; if (std::fabs(x.gamma) > 1e-12) act++; } g += std::sqrt(q); }
        double err = 0, bound = 4 * s.tol * g, vs = 0; // (M^-1 dv, dv) <= (residual, difference of multipliers)
        for (auto *p : A[i].all) {
            auto it = B[i].gid.find(p->gid); if (it == B[i].gid.end()) return c.fail("lost", when + fmt(": particle %d is missing", p->gid)); const PRec *q = it->second; const PRec *p0 = PA[i].gid.at(p->gid); Mob m = mobOf(*p0, s.visc); V3 dv = p->f[VEL] - q->f[VEL], dw = p->f[OMEGA] - q->f[OMEGA], d = p0->dir(); vs = std::max(vs, norm(p->f[VEL]) + norm(p->f[OMEGA]) * (p->L + p->r));
            double pa = dot(dv, d); V3 pe = dv - d * pa; if (m.perp > 0) err += pa * pa / m.para + dot(pe, pe) / m.perp + dot(dw, dw) / m.rot; else err += 1e6 * (dot(dv, dv) + dot(dw, dw));
            if (m.perp > 0) { double r = 1e-9 * (norm(p->f[VEL]) + norm(q->f[VEL]) + norm(p->f[VELNB])), o = 1e-9 * (norm(p->f[OMEGA]) + norm(q->f[OMEGA]) + norm(p->f[OMEGANB])); bound += r * r / m.para + r * r / m.perp + o * o / m.rot; }
        }
        if (i == 0 || !act) { if (getenv("SIM_CAL")) fprintf(stderr, "CAL %g %g\n", err, bound); if (!(err <= bound)) return c.fail("layout-dependent", when + fmt(": velocities differ by %.3g in the energy norm, at most %.3g is explained by the solver tolerance", std::sqrt(err), std::sqrt(bound))); }
        if (CA[i].size() == CB[i].size()) c.probe("same number of constraints");
        if (!act) for (auto *p : A[i].all) { const PRec *q = B[i].gid.at(p->gid); for (int k = 0; k < 3; k++) { double x = p->pos[k] - q->pos[k]; if (s.pbc[k]) x -= s.edge(k) * std::round(x / s.edge(k)); if (std::fabs(x) > 1e-9 * (em + std::fabs(p->pos[k]))) return c.fail("layout-dependent", when + fmt(": particle %d ends at %s and %s", p->gid, str(p->pos).c_str(), str(q->pos).c_str())); } if (norm(p->dir() - q->dir()) > 1e-8) return c.fail("layout-dependent", when + fmt(": particle %d points along %s and %s", p->gid, str(p->dir()).c_str(), str(q->dir()).c_str())); }
        c.probe(act ? "compared step with constraint forces" : "compared step without constraint forces"); c.nontrivial = nr * t.i("nthreads", 1) > 1; if (act) return; // later steps start from states that differ by the solver tolerance
    }
}
static void forces(Rng &r, TestCase &t, double pv, double lo, double hi) { // prescribed motion of a fraction of the box per step
    Sys s = sysOf(t); t.seti("fseed", r.in(1, 1 << 30)); if (r.p(pv)) t.setd("vmag", s.edge(0) / s.dt * r.u(lo, hi)); if (r.p(0.6)) { double rad = 0; for (auto &p : s.ps) rad = std::max(rad, p.r + 0.5 * p.L); t.setd("fmag", rad * 20 * s.visc * s.edge(0) / s.dt * r.u(lo, hi)); }
}
static std::vector<std::pair<std::string, std::string>> simp() { return {{"presteps", "0"}, {"skip", ""}, {"vmag", ""}, {"fmag", ""}, {"mono", ""}, {"fixed", ""}, {"colBuf", "0.3"}, {"dcr", ""}, {"lcr", ""}, {"kbt", ""}}; }
static PropReg r13(Prop{"C13", "sys", 6, 700, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 4); GenOpt o; o.maxN = th ? 80 : 40; o.colRatio = true; o.minN = 1; genSystem(r, t, o); if (r.p(0.4)) genLinks(r, t); if (r.p(0.3)) genWalls(r, t); t.seti("steps", r.in(1, 5)); forces(r, t, 0.7, 0.001, 0.3); if (r.p(0.5)) t.seti("skip", r.in(1, 254)); t.seti("maxite", r.in(1, 60)); if (r.p(0.25)) t.seti("mono", 1); if (r.p(0.2)) t.seti("fixed", 1); if (r.p(0.35)) t.setd("kbt", r.u(1e-4, 1e-2)); t.setd("kappa", r.p(0.2) ? 0.0 : r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); longRun(r, t, 0.02); },
    c13, "random particle set with prescribed forces and velocities, links, boundaries, monolayer, fixed and immovable particles, Brownian motion; drag, velocity sums and the explicit step recomputed independently. Non-trivial: at least one particle.",
    {"angular velocities below 1.2e-7 may be ignored by the orientation update"}, simp()});
static PropReg r05(Prop{"C05", "sys", 6, 600, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 4); GenOpt o; o.maxN = th ? 60 : 24; o.colRatio = true; o.minN = 2; genSystem(r, t, o); if (r.p(0.5)) genLinks(r, t); if (r.p(0.4)) genWalls(r, t); t.seti("steps", r.in(1, 3)); forces(r, t, 0.5, 0.001, 0.05); t.seti("maxite", r.p(0.15) ? r.in(1, 30) : 300); t.setd("tol", r.p(0.7) ? 1e-5 : 1e-3); t.seti("log", 2); if (r.p(0.15)) t.seti("mono", 1); if (r.p(0.2)) t.setd("kbt", r.u(1e-4, 1e-2)); t.setd("kappa", r.p(0.2) ? 0.0 : r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); longRun(r, t, 0.015); },
    c05, "random overlapping particle set with links and boundaries, prescribed forces and velocities, both solvers, tight and loose iteration limits; forces recomputed from the multipliers, contact and link relations from the resulting velocities. Non-trivial: a converged step with constraints.",
    {"the contact and link relations are checked for steps whose solver reports a residual below the tolerance"}, simp()});
static PropReg r25(Prop{"C25", "sys", 6, 500, 5000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 4); GenOpt o; o.maxN = th ? 60 : 20; o.colRatio = true; o.minN = 1; genSystem(r, t, o); if (r.p(0.3)) genLinks(r, t); if (r.p(0.2)) genWalls(r, t); t.seti("steps", r.in(1, 4)); forces(r, t, 0.5, 0.001, 0.05); t.seti("maxite", r.p(0.15) ? r.in(1, 30) : 400); t.setd("tol", r.p(0.5) ? 1e-5 : 1e-3); t.seti("log", 2); if (r.p(0.15)) t.seti("mono", 1); if (r.p(0.2)) t.setd("kbt", r.u(1e-4, 1e-2)); t.setd("kappa", r.p(0.2) ? 0.0 : r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); t.setd("userP", r.u(0.05, 0.6)); t.setd("userV", r.logu(0.1, 10)); t.setd("userK", r.p(0.2) ? 0.0 : r.logu(1, 1000)); },
    c25, "random particle set with contacts, links and walls to which the caller adds one- and two-sided constraints between particles anywhere, or between a particle and a point, in every step. Non-trivial: a converged step with constraints.",
    {"the constraint relations are checked for steps whose solver reports a residual below the tolerance"}, simp()});
static PropReg r02(Prop{"C02", "sys", 8, 450, 4000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); if (t.i("nranks") * t.i("nthreads") == 1) t.seti("nranks", r.in(2, 6)); GenOpt o; o.maxN = th ? 60 : 24; o.colRatio = true; o.minN = 2; genSystem(r, t, o); if (r.p(0.4)) genLinks(r, t); if (r.p(0.3)) genWalls(r, t); t.seti("presteps", 0); t.seti("steps", r.in(1, 4)); forces(r, t, 0.6, 0.001, 0.2); t.seti("maxite", 300); t.setd("tol", r.p(0.5) ? 1e-6 : 1e-4); t.seti("log", 2); if (r.p(0.15)) t.seti("mono", 1); t.setd("kappa", r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); longRun(r, t, 0.02, 4); if (t.i("steps") > 20 && t.has("vmag")) t.setd("vmag", t.d("vmag") * 0.1); },
    c02, "the same random particle set with one process and one thread and with a random layout and schedule. Non-trivial: more than one process or thread in the second run.",
    {"velocities may differ by what the solver tolerance allows (energy-norm bound from the two residuals and multipliers); comparison stops after the first step with constraint forces", "no Brownian motion: its random streams belong to a layout"}, simp()});
