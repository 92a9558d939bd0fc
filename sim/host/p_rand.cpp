#include "model.hpp"
// ---------------------------------------------------------------- thermal motion
static double chiZ(double sum, double n) { double k = 2 / (9 * n); return (std::cbrt(sum / n) - (1 - k)) / std::sqrt(k); } // Wilson-Hilferty
struct Noise { std::map<std::pair<int, int>, std::array<double, 6>> x; std::map<std::pair<int, int>, int> owner; }; // (step, gid) -> standardised numbers; NaN: component not present
static Noise noiseOf(const Sys &s, const std::vector<Frame> &prep, const std::vector<Frame> &post) {
    Noise z; const double k = std::sqrt(2 * s.kbt / s.dt);
    for (size_t i = 0; i < prep.size(); i++) for (auto *q : post[i].all) {
        const PRec *p = prep[i].gid.at(q->gid); if (p->imm) continue; Mob m = mobOf(*p, s.visc); V3 d = p->dir(), e = std::fabs(d.z) < 0.6 ? unit(cross(d, V3{0, 0, 1})) : unit(cross(d, V3{1, 0, 0})), g = cross(d, e); const V3 v = q->f[VELBR], w = q->f[OMEGABR]; const double no = std::nan("");
        if (m.para == m.perp) { d = {1, 0, 0}; e = {0, 1, 0}; g = {0, 0, 1}; } // isotropic
        z.x[{(int)i, q->gid}] = {dot(v, d) / (k * std::sqrt(m.para)), dot(v, e) / (k * std::sqrt(m.perp)), s.mono ? no : dot(v, g) / (k * std::sqrt(m.perp)), s.mono ? no : w.x / (k * std::sqrt(m.rot)), s.mono ? no : w.y / (k * std::sqrt(m.rot)), w.z / (k * std::sqrt(m.rot))}; z.owner[{(int)i, q->gid}] = q->owner;
    }
    return z;
}
static void c12(const TestCase &t, Ctx &c) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); size_t n = (size_t)t.i("steps"); JobResult a = c.run(sysJob(t, s)); if (!c.needOk(a)) return;
    auto prep = frames(a, "prep", nr), post = frames(a, "post", nr); if (prep.size() != n || post.size() != n) return c.fail("missing", "a rank stopped reporting"); Noise z = noiseOf(s, prep, post);
    for (auto &f : post) for (auto *q : f.all) if (q->imm && norm(q->f[VELBR]) + norm(q->f[OMEGABR]) != 0) return c.fail("thermal-size", fmt("immovable particle %d has a thermal velocity %s, rotation %s", q->gid, str(q->f[VELBR]).c_str(), str(q->f[OMEGABR]).c_str()));
    static const char *nm[6] = {"motion along the axis", "motion across the axis", "motion across the axis", "rotation about x", "rotation about y", "rotation about z"};
    double n1[6] = {}, m1[6] = {}, m2[6] = {}, nx[6][6] = {}, mx[6][6] = {}, nl[6] = {}, ml[6] = {}; std::map<long long, std::pair<int, int>> seen; const double lim = 6.5;
    for (auto &y : z.x) {
        for (int k = 0; k < 6; k++) { double v = y.second[k]; if (std::isnan(v)) continue; if (!std::isfinite(v) || std::fabs(v) > 12) return c.fail("thermal-size", fmt("step %d: particle %d: %s is %.3g standard deviations", y.first.first, y.first.second, nm[k], v)); n1[k]++; m1[k] += v; m2[k] += v * v; for (int j = 0; j < k; j++) if (!std::isnan(y.second[j])) { nx[k][j]++; mx[k][j] += v * y.second[j]; } }
        auto pr = z.x.find({y.first.first - 1, y.first.second}); if (pr != z.x.end()) for (int k = 0; k < 6; k++) if (!std::isnan(y.second[k])) { nl[k]++; ml[k] += y.second[k] * pr->second[k]; }
        auto id = seen.emplace((long long)std::llround(y.second[5] * 1e12), y.first); if (!id.second) return c.fail("same-noise", fmt("particle %d in step %d and particle %d in step %d get the same random rotation", id.first->second.second, id.first->second.first, y.first.second, y.first.first));
    }
    for (int k = 0; k < 6; k++) if (n1[k] >= 30) {
        double zc = chiZ(m2[k], n1[k]), zm = m1[k] / std::sqrt(n1[k]), zl = nl[k] >= 60 ? ml[k] / std::sqrt(nl[k]) : 0; c.probe("samples tested", n1[k]); c.nontrivial = nr * t.i("nthreads") > 1;
        if (std::fabs(zc) > lim) return c.fail("thermal-size", fmt("%s: variance over %.0f samples is %.4g times 2 kT/dt times the mobility (%.1f sigma)", nm[k], n1[k], m2[k] / n1[k], zc));
        if (std::fabs(zm) > lim) return c.fail("thermal-drift", fmt("%s: mean over %.0f samples is %.4g standard deviations (%.1f sigma)", nm[k], n1[k], m1[k] / n1[k], zm));
        if (std::fabs(zl) > 9) return c.fail("thermal-memory", fmt("%s: consecutive steps correlate (%.1f sigma over %.0f samples)", nm[k], zl, nl[k]));
        for (int j = 0; j < k; j++) if (nx[k][j] >= 60 && std::fabs(mx[k][j] / std::sqrt(nx[k][j])) > 9) return c.fail("thermal-correlation", fmt("%s and %s correlate: %.3f over %.0f samples", nm[k], nm[j], mx[k][j] / nx[k][j], nx[k][j]));
    }
    // again: the same seed gives the same motion whatever the schedule, another seed gives another
    TestCase u = t; u.seti("jseed", (long)(mix((uint64_t)t.i("jseed"), 5) >> 2)); u.seti("entropy", (long)(mix((uint64_t)t.i("entropy"), 6) >> 2)); u.seti("sched", (t.i("sched") + 1 + t.i("jseed") % 3) % 5); bool other = t.i("otherSeed"); if (other) u.seti("rngSeed", t.i("rngSeed") + 1);
    Sys su = sysOf(u); JobResult b = c.run(sysJob(u, su)); if (!c.needOk(b)) return; auto PB = frames(b, "prep", nr), QB = frames(b, "post", nr); if (PB.size() != n || QB.size() != n) return c.fail("missing", "a rank stopped reporting"); Noise w = noiseOf(su, PB, QB);
    for (auto &y : z.x) {
        auto o = w.x.find(y.first); if (o == w.x.end()) return c.fail("lost", "a particle is missing in the second run"); if (z.owner[y.first] != w.owner[y.first]) { c.probe("ownership differs between runs"); return; }
        double d = 0; for (int k = 0; k < 6; k++) if (!std::isnan(y.second[k])) d = std::max(d, std::fabs(y.second[k] - o->second[k]));
        if (!other && !s.fixed && (y.first.first > 0 || s.presteps > 0)) continue; // states differ by the solver tolerance
        if (!other && d > 1e-6) return c.fail("not-repeatable", fmt("step %d: particle %d moves differently in a second run with the same seed, configuration and layout (difference %.3g standard deviations)", y.first.first, y.first.second, d));
        if (other && d < 1e-9) return c.fail("seed-ignored", fmt("step %d: particle %d gets the same random numbers with seeds %ld and %ld", y.first.first, y.first.second, t.i("rngSeed"), u.i("rngSeed")));
    }
    c.probe(other ? "compared with another seed" : "compared with a second run");
}
static PropReg r12(Prop{"C12", "sys", 6, 220, 2500,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 4); GenOpt o; o.maxN = th ? 100 : 50; o.minN = 20; o.colRatio = true; genSystem(r, t, o); t.seti("presteps", r.p(0.2)); t.seti("steps", r.in(2, 6)); t.setd("kbt", std::pow(10, r.u(-10, -6.5))); t.seti("maxite", 60); if (r.p(0.15)) t.seti("mono", 1); if (r.p(0.5)) t.seti("fixed", 1); if (r.p(0.3)) t.seti("otherSeed", 1); if (r.p(0.3)) t.seti("fseed", r.in(1, 1 << 20)), t.setd("vmag", r.u(0.1, 1)); t.seti("rngSeed", r.p(0.2) ? 0 : r.in(1, 1 << 30)); longRun(r, t, 0.05, 6); },
    c12, "random particle set with thermal motion run twice (another schedule, or another seed); size, mean, memory and mutual independence of the thermal velocities, no number used twice. Non-trivial: more than one process or thread and at least 30 samples.",
    {"the random number library is a stand-in with exact stream splitting", "statistical thresholds of 6.5 to 9 standard deviations"}, {{"presteps", "0"}, {"vmag", ""}, {"mono", ""}}});
