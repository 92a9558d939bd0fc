#include "model.hpp"
// ---------------------------------------------------------------- C01 conservation and ownership
static bool inBox(const Sys &s, V3 p) { for (int k = 0; k < 3; k++) if (s.pbc[k] && !(p[k] >= s.lo[k] && p[k] < s.hi[k])) return false; return true; }
static void checkOwn(Ctx &c, const Sys &s, const Frame &f, const std::map<int, std::array<double, 4>> &want, const std::string &when, bool indexed) {
    if (f.dup) return c.fail("duplicated", when + fmt(": %d particles exist twice", f.dup));
    for (auto &w : want) if (!f.gid.count(w.first)) return c.fail("lost", when + fmt(": particle %d is on no rank", w.first));
    for (auto *p : f.all) {
        auto w = want.find(p->gid); if (w == want.end()) return c.fail("invented", when + fmt(": particle %d was never created", p->gid));
        if (p->r != w->second[0] || std::fabs(p->L - w->second[1]) > 1e-9 || p->imm != (int)w->second[2] || p->group != (int)w->second[3]) return c.fail("altered", when + fmt(": particle %d r %g L %g immovable %d group %d, created with r %g L %g immovable %g group %g", p->gid, p->r, p->L, p->imm, p->group, w->second[0], w->second[1], w->second[2], w->second[3]));
        if (!(std::isfinite(p->pos.x) && std::isfinite(p->pos.y) && std::isfinite(p->pos.z)) || std::fabs(qnorm(p->q) - 1) > 1e-9) return c.fail("corrupt", when + fmt(": particle %d pos %s |q| %g", p->gid, str(p->pos).c_str(), qnorm(p->q)));
        if (indexed && p->rank != p->owner) return c.fail("rank-label", when + fmt(": particle %d labelled rank %d lives on rank %d", p->gid, p->rank, p->owner));
    }
    if (!indexed) return;
    for (auto *p : f.all) if (!inBox(s, p->pos)) return c.fail("outside", when + fmt(": particle %d at %s is outside the periodic box", p->gid, str(p->pos).c_str()));
    int base = 0; for (auto &v : f.by) { for (size_t i = 0; i < v.size(); i++) if (v[i].gidx != base + (int)i) return c.fail("global-index", when + fmt(": rank %d particle %zu has global index %d, expected %d", v[i].owner, i, v[i].gidx, base + (int)i)); base += (int)v.size(); }
}
static std::map<int, std::array<double, 4>> wanted(const Sys &s) { std::map<int, std::array<double, 4>> w; for (auto &p : s.ps) w[p.gid] = {p.r, p.L, double(p.type == 'S'), (double)p.group}; return w; }
static void c01(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto want = wanted(s); auto init = frames(r, "init", nr), prep = frames(r, "prep", nr), post = frames(r, "post", nr);
    if (init.empty() || prep.size() != (size_t)t.i("steps") || post.size() != prep.size()) return c.fail("missing", "a rank stopped reporting");
    checkOwn(c, s, init[0], want, "after start-up", false);
    for (size_t i = 0; i < prep.size() && !c.bad(); i++) { checkOwn(c, s, prep[i], want, fmt("step %zu, after distribution", i), true); if (!c.bad()) checkOwn(c, s, post[i], want, fmt("step %zu, after the step", i), false); }
    // a move is a translation by the velocity plus whole periods: nothing teleports when it changes owner
    for (size_t i = 0; i + 1 < prep.size() && !c.bad(); i++) for (auto *p : post[i].all) {
        const PRec *q = prep[i + 1].gid[p->gid]; for (int k = 0; k < 3; k++) { double d = q->pos[k] - p->pos[k], w = s.edge(k); if (s.mono && k == 2) continue; double m = s.pbc[k] ? d - w * std::round(d / w) : d; if (std::fabs(m) > 1e-9 * (std::fabs(p->pos[k]) + w)) return c.fail("teleported", fmt("step %zu: particle %d moved from %s to %s while being redistributed", i, p->gid, str(p->pos).c_str(), str(q->pos).c_str())); }
        if (q->owner != p->owner) c.probe("particle changed owner"); if (norm(q->pos - p->pos) > 1e-6) c.probe("particle wrapped around");
    }
    for (auto &f : prep) for (auto &v : f.by) if (v.empty()) c.probe("rank without particles");
    if (nr > 1) c.probe("parallel run"); c.nontrivial = nr > 1 && s.ps.size() > 3;
}
static PropReg r01(Prop{"C01", "sys", 8, 600, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 3); GenOpt o; o.maxN = th ? 120 : 60; o.maxLenFrac = 0.2; genSystem(r, t, o); t.seti("steps", r.p(0.08) ? r.in(50, 54) : r.in(2, 7)); if (t.i("steps") > 20) { if (t.items.size() > 12) t.items.resize(12); t.seti("nranks", std::min(t.i("nranks"), 4L)); t.seti("nthreads", 1); } t.seti("fseed", r.in(1, 1 << 30)); Sys s = sysOf(t);
        if (r.p(0.8)) t.setd("vmag", s.edge(0) / s.dt * (r.p(0.3) ? r.u(0.3, 0.95) : r.u(0.01, 0.3))); t.seti("maxite", 40); if (r.p(0.2)) t.seti("mono", 1); if (r.p(0.1)) t.seti("fixed", 1); },
    c01, "random particle set (clusters on faces, edges and corners of the box, 1 to 60 particles), periodic mask, rank / thread count, schedule, message delays; prescribed velocities move particles up to a box length per step. Non-trivial: more than one rank and more than three particles.",
    {"particles move less than one box length per step (larger moves are outside what the periodic wrap is asked to handle)"}, {{"presteps", "0"}, {"vmag", ""}, {"mono", ""}, {"colBuf", "0.3"}}});
