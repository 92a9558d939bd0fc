#include "geo.hpp"
static void speed(Rng &r, TestCase &t, double p, double lo, double hi) { Sys s = sysOf(t); t.seti("fseed", r.in(1, 1 << 30)); if (r.p(p)) t.setd("vmag", s.edge(0) / s.dt * r.u(lo, hi)); t.seti("maxite", 40); }
static void c03(const TestCase &t, Ctx &c) { perStep(t, c, [&](const Sys &s, const Frame &f, const std::vector<CRec> &con, const std::string &when) { pairs(c, s, f, con, when); }); }
static void c04(const TestCase &t, Ctx &c) { perStep(t, c, [&](const Sys &s, const Frame &f, const std::vector<CRec> &con, const std::string &when) { walls(c, s, f, con, when); }); }
static void c06(const TestCase &t, Ctx &c) { perStep(t, c, [&](const Sys &s, const Frame &f, const std::vector<CRec> &con, const std::string &when) { links(c, s, s.links, f, con, when); }); }
static std::vector<std::pair<std::string, std::string>> simp() { return {{"presteps", "0"}, {"vmag", ""}, {"mono", ""}, {"colBuf", "0.3"}, {"dcr", "1"}, {"lcr", "1"}}; }
static PropReg r03(Prop{"C03", "sys", 8, 700, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); GenOpt o; o.maxN = th ? 110 : 60; o.minN = 2; o.maxLenFrac = r.p(0.3) ? 0.45 : 0.25; o.colRatio = true; genSystem(r, t, o); t.seti("steps", r.in(1, 4)); speed(r, t, 0.5, 0.01, 0.3); if (r.p(0.15)) t.seti("mono", 1); longRun(r, t, 0.03); },
    c03, "random particle set (spheres, short and long rods, mixed radii, collision radius ratios, clusters on periodic faces, edges and corners), 1 to 8 ranks, 1 to 4 threads; brute force over all pairs and periodic images. Non-trivial: at least one contact.",
    {"separations within 1e-7 of the recording distance may fall either side", "axes of the two particles do not intersect"}, simp()});
static PropReg r04(Prop{"C04", "sys", 6, 700, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 6, 4); GenOpt o; o.maxN = th ? 80 : 40; o.colRatio = true; o.minN = 1; genSystem(r, t, o); genWalls(r, t); if (r.p(0.3)) exactSpots(r, t); t.seti("steps", r.in(1, 4)); speed(r, t, 0.5, 0.01, 0.2); if (r.p(0.1)) t.seti("mono", 1); longRun(r, t, 0.02); },
    c04, "random particle set, one to three boundaries (walls, tubes and spherical shells, particles inside or outside), 1 to 6 ranks, 1 to 4 threads. Non-trivial: at least one wall contact.",
    {"distances within 1e-7 of the recording distance may fall either side"}, simp()});
static PropReg r06(Prop{"C06", "sys", 8, 600, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); GenOpt o; o.maxN = th ? 80 : 40; o.colRatio = true; o.minN = 2; genSystem(r, t, o); genLinks(r, t); if (r.p(0.4)) genLinks(r, t); t.seti("steps", r.p(0.06) ? r.in(50, 53) : r.in(1, 5)); if (t.i("steps") > 20) { t.seti("nranks", std::min(t.i("nranks"), 4L)); t.seti("nthreads", 1); } speed(r, t, 0.7, 0.01, 0.4); t.setd("kappa", r.u(1, 1000)); t.setd("gap", r.u(0, 0.2)); },
    c06, "random particle set with chains and random links (several per particle, across ranks and periodic boundaries), prescribed velocities move linked particles between ranks and around the box. Non-trivial: at least one link constraint.",
    {"linked centres exactly half a period apart may be linked through either image"}, simp()});
