#include "engine.hpp"
#include <array>
#include <sstream>
// ---------------------------------------------------------------- the exchange layer under process schedules and message faults
static uint64_t hmix_(uint64_t a, uint64_t b) { return mix(a, b); }
static uint64_t hat(uint64_t seed, uint64_t tag, uint64_t i) { return hmix_(hmix_(seed, tag), i); }
static double hu(uint64_t seed, uint64_t tag, uint64_t i) { return (hat(seed, tag, i) >> 11) * (1.0 / 9007199254740992.0); }
static std::string pay(int n, uint64_t seed, uint64_t k) { std::string p(n, 0); for (int i = 0; i < n; i++) p[i] = (char)(hat(seed, 900 + i / 8, k) >> 8 * (i % 8)); return p; }
static std::string blob(const TestCase &t) { std::string o; for (auto &k : t.kv) o += k.first + "=" + k.second + "\n"; return o; }
static JobSpec job(const TestCase &t, const char *e) { JobSpec j = jobFrom(t, e); j.blob = blob(t); return j; }
template <class T> static std::vector<T> as(const std::string &d) { std::vector<T> v(d.size() / sizeof(T)); memcpy(v.data(), d.data(), v.size() * sizeof(T)); return v; }
template <class T> static std::vector<std::vector<std::vector<T>>> per(const JobResult &r, const char *tag, int P) { std::vector<std::vector<std::vector<T>>> v(P); for (auto *x : r.get(tag)) v[x->rank].push_back(as<T>(x->data)); return v; }
static std::vector<std::vector<std::string>> raw(const JobResult &r, const char *tag, int P) { std::vector<std::vector<std::string>> v(P); for (auto *x : r.get(tag)) v[x->rank].push_back(x->data); return v; }

static void c15(const TestCase &t, Ctx &c) {
    const int P = (int)t.i("nranks", 1), B = (int)t.i("bytes"), U = (int)t.i("ids"), S = (int)t.i("stride", 1), R = (int)t.i("rounds"); const uint64_t seed = t.i("fseed"); JobResult r = c.run(job(t, "zdd")); if (!c.needOk(r)) return; auto ask = per<int>(r, "ask", P); auto got = raw(r, "got", P); std::map<int, std::string> dir;
    for (int k = 0; k < R; k++) {
        if (t.i("fresh")) dir.clear(); for (int u = 0; u < U; u++) { uint64_t key = (uint64_t)k * 100003 + u; if (hu(seed, 1, key) < t.d("holes")) { if (dir.count(u * S)) c.probe("id kept from an earlier round"); continue; } if (dir.count(u * S)) c.probe("id registered anew"); dir[u * S] = pay(B, seed, key); }
        for (int p = 0; p < P; p++) { if ((int)ask[p].size() != R) return c.fail("missing", fmt("process %d stopped reporting", p)); auto &q = ask[p][k]; auto &g = got[p][k]; if (g.size() < q.size() * B) return c.fail("directory", fmt("round %d process %d: %zu answers for %zu questions", k, p, g.size() / B, q.size()));
            for (size_t i = 0; i < q.size(); i++) { auto d = dir.find(q[i]); if (d == dir.end()) { c.probe("unknown id asked for"); continue; } if (g.compare(i * B, B, d->second)) return c.fail("directory", fmt("round %d: process %d asked for id %d (question %zu of %zu) and got data that was not registered for it last", k, p, q[i], i, q.size())); c.probe("lookup"); }
            if (q.empty()) c.probe("process without questions"); if (t.i("slack")) for (size_t i = q.size(); i < g.size() / B; i++) if (g.compare(i * B, B, pay(B, seed, 7777777))) return c.fail("directory", fmt("round %d process %d: data behind the last question was overwritten", k, p)); }
    }
    c.nontrivial = P > 1;
}
static void c16(const TestCase &t, Ctx &c) {
    const int P = (int)t.i("nranks", 1); const uint64_t seed = t.i("fseed"); const std::string what = t.s("what");
    if (what == "a2a") {
        const int B = (int)t.i("bytes"), R = (int)t.i("rounds"); JobResult r = c.run(job(t, "a2a")); if (!c.needOk(r)) return; auto sent = per<int>(r, "sent", P), src = per<int>(r, "src", P), who = per<int>(r, "who", P); auto got = raw(r, "got", P);
        for (int p = 0; p < P; p++) if ((int)sent[p].size() != R || (int)src[p].size() != R || (int)got[p].size() != R) return c.fail("missing", fmt("process %d stopped reporting", p)); else for (auto &w : who[p]) if (w[0] != p || w[1] != P) return c.fail("exchange", "process number or count is wrong");
        for (int k = 0; k < R; k++) { std::vector<std::multiset<std::pair<int, std::string>>> want(P); for (int p = 0; p < P; p++) for (size_t i = 0; i < sent[p][k].size(); i++) want[sent[p][k][i]].insert({p, pay(B, seed, ((uint64_t)k * 100 + p) * 100000 + i)});
            for (int p = 0; p < P; p++) { if (got[p][k].size() != src[p][k].size() * B || src[p][k].size() != want[p].size()) return c.fail("exchange", fmt("round %d: process %d was sent %zu items, received %zu with %zu sources", k, p, want[p].size(), got[p][k].size() / B, src[p][k].size())); for (size_t i = 0; i < src[p][k].size(); i++) { auto it = want[p].find({src[p][k][i], got[p][k].substr(i * B, B)}); if (it == want[p].end()) return c.fail("exchange", fmt("round %d: process %d received item %zu labelled as from %d, which did not send it", k, p, i, src[p][k][i])); want[p].erase(it); } if (src[p][k].empty()) c.probe("process receives nothing"); c.probe("items exchanged", src[p][k].size()); } }
    } else if (what == "pts") {
        const int R = (int)t.i("rounds"), n = (int)t.i("n"), dim = (int)t.i("dim"); JobResult r = c.run(job(t, "pts")); if (!c.needOk(r)) return; auto part = per<double>(r, "part", P), whole = per<double>(r, "whole", P), all = per<double>(r, "all", P), w2 = per<double>(r, "whole2", P), a2 = per<double>(r, "all2", P), m2 = per<double>(r, "mine2", P);
        for (int p = 0; p < P; p++) if ((int)a2[p].size() != R) return c.fail("missing", fmt("process %d stopped reporting", p));
        for (int k = 0; k < R; k++) { std::vector<double> want, cat, cat2; for (int i = 0; i < n * dim; i++) want.push_back(hu(seed, 1 + k, i)); for (int p = 0; p < P; p++) { if (part[p][k].size() % dim) return c.fail("points", fmt("round %d: process %d got part of a point", k, p)); if (std::fabs((double)part[p][k].size() / dim - (double)n / P) > 1 + 1e-9) return c.fail("points", fmt("round %d: process %d got %zu of %d points", k, p, part[p][k].size() / dim, n)); cat.insert(cat.end(), part[p][k].begin(), part[p][k].end()); cat2.insert(cat2.end(), m2[p][k].begin(), m2[p][k].end()); }
            if (cat != want) return c.fail("points", fmt("round %d: the distributed points are not the points given (%zu numbers, %zu given)", k, cat.size(), want.size())); if (whole[0][k] != want || w2[0][k] != cat2) return c.fail("points", fmt("round %d: collected points differ from the points of the processes", k)); for (int p = 0; p < P; p++) if (all[p][k] != want || a2[p][k] != cat2) return c.fail("points", fmt("round %d: points collected on process %d differ from the points of the processes", k, p)); for (int p = 0; p < P; p++) if (part[p][k].empty()) c.probe("process without points"); c.probe("points distributed and collected"); }
        if (t.i("dump")) { auto dx = per<double>(r, "dx", P), dv = per<double>(r, "dv", P); const int D = (int)t.i("dumpDim", 1); for (int k = 0; k < R; k++) { std::string want; for (int p = 0; p < P; p++) { auto &x = dx[p][k], &v = dv[p][k]; for (size_t i = 0; i < x.size() / 3; i++) { want += fmt("%6f %6f %6f;", x[3 * i], x[3 * i + 1], x[3 * i + 2]); for (int j = 0; j < D; j++) want += fmt(" %6f", v[D * i + j]); want += " \n"; } } auto it = r.fs.files.find(fmt("points%d.txt", k)); if (it == r.fs.files.end()) return c.fail("point-dump", fmt("round %d: no file was written", k)); auto words = [](const std::string &s) { std::vector<std::string> w; std::istringstream in(s); std::string l; while (std::getline(in, l)) { for (auto &ch : l) if (ch == ';') ch = ' '; std::istringstream q(l); std::string x, y; while (q >> x) y += x + " "; if (!y.empty()) w.push_back(y); } return w; }; if (words(it->second) != words(want)) return c.fail("point-dump", fmt("round %d: the file holds %zu lines that are not the %zu points of all processes in order", k, words(it->second).size(), words(want).size())); c.probe("points dumped"); } for (auto &x : r.rec) if (x.tag == "dumpchanged") return c.fail("point-dump", "dumping changed the points"); }
    } else {
        JobResult r = c.run(job(t, "sort")); if (!c.needOk(r)) return; for (int p = 0; p < P; p++) { auto t0 = per<int>(r, "tag0", P)[p][0], t1 = per<int>(r, "tag", P)[p][0]; auto d0 = raw(r, "data0", P)[p][0], d1 = raw(r, "data", P)[p][0]; if (t0.size() != t1.size() || d0.size() != d1.size() || d1.size() != 12 * t1.size()) return c.fail("sort", fmt("process %d: sizes change", p)); std::multiset<std::pair<int, std::string>> a, b; for (size_t i = 0; i < t0.size(); i++) a.insert({t0[i], d0.substr(12 * i, 12)}), b.insert({t1[i], d1.substr(12 * i, 12)}); if (a != b) return c.fail("sort", fmt("process %d: a tag lost its data", p)); for (size_t i = 1; i < t1.size(); i++) if (t1[i - 1] > t1[i]) return c.fail("sort", fmt("process %d: tags are not ascending", p)); c.probe("array sorted"); }
    }
    c.nontrivial = P > 1 || t.i("nthreads") > 1;
}
static void c18(const TestCase &t, Ctx &c) {
    const int P = (int)t.i("nranks", 1), T = (int)t.i("nthreads", 1), k = (int)t.i("draws"), kinds = (int)t.i("kinds"); const int per1 = 1 + (kinds & 1) + (kinds >> 1 & 1); JobResult r = c.run(job(t, "rng")); if (!c.needOk(r)) return; std::vector<std::vector<double>> s; for (int p = 0; p < P; p++) for (int i = 0; i < T; i++) { auto v = r.get(fmt("t%d", i), p); if (v.size() != 1) return c.fail("missing", fmt("process %d stopped reporting", p)); s.push_back(as<double>(v[0]->data)); if ((int)s.back().size() != k * per1) return c.fail("streams", fmt("process %d thread %d drew %zu numbers instead of %d", p, i, s.back().size(), k * per1)); }
    std::map<std::pair<double, double>, std::pair<int, int>> seen; double n = 0, su = 0, su2 = 0, sn = 0, sn2 = 0, sl = 0, sl2 = 0; const double mu = t.d("mu"), sg = t.d("sigma", 1);
    for (size_t a = 0; a < s.size(); a++) for (int i = 0; i < k; i++) { double u = s[a][i * per1]; if (!(u >= 0 && u < 1)) return c.fail("range", fmt("a uniform number is %.17g", u)); n++; su += u - 0.5; su2 += (u - 0.5) * (u - 0.5) - 1.0 / 12; if (kinds & 1) { double x = s[a][i * per1 + 1]; sn += x; sn2 += x * x - 1; } if (kinds & 2) { double x = s[a][i * per1 + per1 - 1]; if (!(x > 0)) return c.fail("range", fmt("a log-normal number is %.17g", x)); x = (std::log(x) - mu) / sg; sl += x; sl2 += x * x - 1; }
        if (i + 1 < k) { auto ins = seen.insert({{u, s[a][(i + 1) * per1]}, {(int)a, i}}); if (!ins.second) return c.fail("overlap", fmt("process %d thread %d draw %d: the same two numbers as process %zu thread %zu draw %d", ins.first->second.first / T, ins.first->second.first % T, ins.first->second.second, a / T, a % T, i)); } }
    auto z = [&](double sum, double var, const char *what) { if (std::fabs(sum) > 6.5 * std::sqrt(var * n)) c.fail("distribution", fmt("%s is off by %.1f standard deviations over %g numbers", what, sum / std::sqrt(var * n), n)); }; z(su, 1.0 / 12, "mean of the uniform numbers"); z(su2, 1.0 / 180, "variance of the uniform numbers"); if (kinds & 1) { z(sn, 1, "mean of the normal numbers"); if (n > 100) z(sn2, 2, "variance of the normal numbers"); } if (kinds & 2) { z(sl, 1, "logarithmic mean of the log-normal numbers"); if (n > 100) z(sl2, 2, "logarithmic variance of the log-normal numbers"); } if (c.bad()) return;
    for (size_t a = 0; a < s.size(); a++) for (size_t b = a + 1; b < s.size() && k >= 30; b++) { double x = 0; for (int i = 0; i < k; i++) x += (s[a][i * per1] - 0.5) * (s[b][i * per1] - 0.5); if (std::fabs(x) * 12 > 7.5 * std::sqrt((double)k)) return c.fail("correlated", fmt("streams %zu and %zu are correlated", a, b)); }
    TestCase u = t; u.seti("jseed", t.i("jseed") ^ 0x5555); u.seti("sched", (t.i("sched") + 1) % 5); JobResult r2 = c.run(job(u, "rng")); if (!c.needOk(r2)) return; for (int p = 0; p < P; p++) for (int i = 0; i < T; i++) if (r2.get(fmt("t%d", i), p)[0]->data != r.get(fmt("t%d", i), p)[0]->data) return c.fail("repeat", fmt("process %d thread %d draws other numbers on another schedule", p, i)); u.seti("rngSeed", t.i("rngSeed") + 1); JobResult r3 = c.run(job(u, "rng")); if (!c.needOk(r3)) return;
    for (int p = 0; p < P; p++) for (int i = 0; i < T; i++) { auto v = as<double>(r3.get(fmt("t%d", i), p)[0]->data); for (int j = 0; j + 1 < k; j++) if (seen.count({v[j * per1], v[(j + 1) * per1]})) return c.fail("overlap", fmt("seed %ld and the next share numbers", t.i("rngSeed"))); } c.probe("streams drawn", P * T); c.nontrivial = P * T > 1;
}
static bool readMM(const std::string &f, std::vector<std::vector<double>> &rows) { std::istringstream in(f); std::string l; if (!std::getline(in, l) || l.compare(0, 14, "%%MatrixMarket")) return false; while (std::getline(in, l)) { if (l.empty() || l[0] == '%') continue; std::istringstream q(l); std::vector<double> v; double x; while (q >> x) v.push_back(x); rows.push_back(v); } return !rows.empty(); }
static void c19(const TestCase &t, Ctx &c) {
    const int P = (int)t.i("nranks", 1); const uint64_t seed = t.i("fseed"); JobResult r = c.run(job(t, "tpetra")); if (!c.needOk(r)) return; std::vector<int> na(P), nb(P); int A = 0, B = 0; for (int p = 0; p < P; p++) { na[p] = (int)t.i(fmt("a%d", p)); nb[p] = (int)t.i(fmt("b%d", p)); A += na[p]; B += nb[p]; }
    auto m1 = per<int>(r, "map1", P), m2 = per<int>(r, "map2", P), m12 = per<int>(r, "map12", P), m3 = per<int>(r, "map3", P), who = per<int>(r, "who", P); auto va = per<double>(r, "va", P), vb = per<double>(r, "vb", P), vab = per<double>(r, "vab", P), nr = per<double>(r, "norm", P); double s1 = 0, s2 = 0; int ba = 0, bb = 0; for (int p = 0; p < P; p++) if (m3[p].size() != 1 || nr[p].size() != 1) return c.fail("missing", fmt("process %d stopped reporting", p));
    std::vector<double> fullA, fullAB;
    for (int p = 0; p < P; p++) {
        if (who[p][0][0] != p || who[p][0][1] != P) return c.fail("communicator", fmt("process %d of %d is numbered %d of %d", p, P, who[p][0][0], who[p][0][1])); std::vector<int> w1{A, 1, 0}, w2{B, 1, 0}, w3{A + B, 0, 0}; for (int i = 0; i < na[p]; i++) w1.push_back(ba + i), w3.push_back(ba + i); for (int i = 0; i < nb[p]; i++) w2.push_back(bb + i), w3.push_back(A + bb + i); ba += na[p]; bb += nb[p];
        if (m1[p][0] != w1 || m2[p][0] != w2) return c.fail("map", fmt("process %d: a map of local sizes is not contiguous in process order", p)); auto g = m12[p][0]; g[1] = 0; if (g != w3) return c.fail("map", fmt("process %d: the two-block map is not block one followed by block two", p));
        std::vector<double> a, b; for (int i = 0; i < na[p]; i++) a.push_back(2 * hu(seed, 1, p * 100000 + i) - 1), s1 += a.back() * a.back(); for (int i = 0; i < nb[p]; i++) b.push_back(2 * hu(seed, 2, p * 100000 + i) - 1), s2 += b.back() * b.back(); fullA.insert(fullA.end(), a.begin(), a.end()); if (va[p][0] != a || vb[p][0] != b) return c.fail("vector", fmt("process %d: the vector does not hold the numbers given", p)); a.insert(a.end(), b.begin(), b.end()); if (vab[p][0] != a) return c.fail("vector", fmt("process %d: the joined vector does not hold both blocks", p));
        std::multiset<int> own, have(m3[p][0].begin() + 3, m3[p][0].end()); for (int g = 0; g < A; g++) if ((int)(hat(seed, 3, g) % P) == p) own.insert(g); if (own != have || m3[p][0][0] != A) return c.fail("map", fmt("process %d: the map does not hold the indices given", p)); }
    for (int p = 0; p < P; p++) { const double w[3] = {std::sqrt(s1), std::sqrt(s2), std::sqrt(s1 + s2)}; for (int k = 0; k < 3; k++) if (std::fabs(nr[p][0][k] - w[k]) > 1e-12 * (1 + w[k])) return c.fail("vector", fmt("process %d: the norm is %.17g, it is %.17g", p, nr[p][0][k], w[k])); }
    if (t.i("dump") && A) {
        auto get = [&](const char *n, std::vector<std::vector<double>> &rows) { auto it = r.fs.files.find(n); if (it == r.fs.files.end() || !readMM(it->second, rows)) { c.fail("dump", std::string(n) + " was not written"); return false; } return true; }; std::vector<std::vector<double>> x;
        for (int p = 0, q = 0; q < 2; q++) for (p = 0; p < P; p++) (void)p; auto cmp = [&](const char *n, const std::vector<double> &w) { x.clear(); if (!get(n, x)) return false; if (x.size() != w.size() + 1 || x[0][0] != w.size()) { c.fail("dump", fmt("%s holds %zu of %zu rows", n, x.size() - 1, w.size())); return false; } for (size_t i = 0; i < w.size(); i++) if (std::fabs(x[i + 1][0] - w[i]) > 1e-9) { c.fail("dump", fmt("%s row %zu is %.12g, it is %.12g", n, i, x[i + 1][0], w[i])); return false; } return true; };
        std::vector<double> w3, wab = fullA; for (int g = 0; g < A; g++) w3.push_back(2 * hu(seed, 5, g) - 1); for (int p = 0; p < P; p++) for (int i = 0; i < nb[p]; i++) wab.push_back(2 * hu(seed, 2, p * 100000 + i) - 1); if (!cmp("va_TV.mtx", fullA) || !cmp("v3_TV.mtx", w3) || !cmp("vv_TV.mtx", wab)) return;
        x.clear(); if (!get("A3_TCMAT.mtx", x)) return; std::map<std::pair<int, int>, double> e; for (int row = 0; row < A; row++) for (int k = 0; k < 4; k++) e[{row, (int)(hat(seed, 6, row * 8 + k) % A)}] = 2 * hu(seed, 7, row * 8 + k) - 1; if (x.size() != e.size() + 1) return c.fail("dump", fmt("the matrix has %zu of %zu entries", x.size() - 1, e.size())); for (size_t i = 1; i < x.size(); i++) { auto it = e.find({(int)x[i][0] - 1, (int)x[i][1] - 1}); if (it == e.end() || std::fabs(it->second - x[i][2]) > 1e-9) return c.fail("dump", fmt("matrix entry %g %g is wrong", x[i][0], x[i][1])); } c.probe("dump read back");
    }
    for (int p = 0; p < P; p++) if (!na[p]) c.probe("process without rows"); c.nontrivial = P > 1;
}
static void small(Rng &r, TestCase &t) { t.seti("fseed", r.in(1, 1 << 30)); t.seti("rounds", r.in(1, 3)); static const int B[] = {1, 4, 12, 40}; t.seti("bytes", B[r.below(4)]); if (r.p(0.3)) t.seti("fresh", 1); if (r.p(0.4)) t.seti("dirty", 1); }
static PropReg r15(Prop{"C15", "exch", 8, 1500, 15000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 2); small(r, t); t.seti("ids", r.in(1, th ? 200 : 60)); t.seti("asks", r.in(0, 40)); t.setd("holes", r.p(0.5) ? 0 : r.u(0, 0.5)); t.seti("est", r.in(1, 100)); t.seti("stride", r.p(0.7) ? 1 : r.in(2, 1000003)); if (r.p(0.2)) t.set("skew", "one"); if (r.p(0.3)) t.seti("slack", 1); else if (r.p(0.3)) t.seti("short", 1); },
    c15, "random ids registered by random processes over several rounds (moving owners, changing data, ids missing), random questions with repetitions; answers compared with what was registered last. Non-trivial: more than one process.", {"an id is registered by one process per round"}, {{"rounds", "1"}, {"dirty", ""}, {"slack", ""}, {"short", ""}, {"holes", "0"}, {"stride", "1"}}});
static PropReg r16(Prop{"C16", "exch", 8, 2000, 20000,
    [](Rng &r, TestCase &t, int k, bool th) { genSched(r, t, 8, 4); small(r, t); static const char *W[] = {"a2a", "a2a", "pts", "sort"}; t.set("what", W[k % 4]); t.seti("most", r.p(0.2) ? r.in(0, 3) : r.in(1, th ? 300 : 80)); t.seti("n", r.p(0.3) ? r.in(0, 6) : r.in(1, 60)); t.seti("dim", r.in(1, 5)); if (r.p(0.5)) { t.seti("dump", 1); t.seti("dumpDim", r.in(1, 3)); if (r.p(0.3)) t.setd("shortWrite", r.u(0.05, 0.5)); } t.seti("vals", r.in(1, 40)); if (r.p(0.2)) t.set("skew", r.p(0.5) ? "one" : "to"); },
    c16, "random items with random destinations exchanged between all processes, points distributed and collected, arrays sorted by tag; compared with the serial result. Non-trivial: more than one process or thread.", {}, {{"rounds", "1"}, {"dirty", ""}, {"fresh", ""}}});
static PropReg r18(Prop{"C18", "exch", 8, 500, 5000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 4); t.seti("rngSeed", r.p(0.2) ? r.in(0, 2) : r.in(1, 1 << 30)); t.seti("draws", r.in(2, th ? 600 : 200)); t.seti("kinds", r.below(4)); t.seti("implicit", r.p(0.5)); t.setd("mu", r.u(-2, 2)); t.setd("sigma", r.u(0.1, 2)); },
    c18, "random numbers drawn by every thread of every process; ranges, moments, cross-correlation, shared subsequences, repetition on another schedule and with the next seed. Non-trivial: more than one stream.", {"TRNG is replaced by a stand-in with exact stream splitting", "thresholds of 6.5 standard deviations or more"}, {{"kinds", "0"}, {"implicit", "0"}}});
static PropReg r19(Prop{"C19", "exch", 8, 600, 6000,
    [](Rng &r, TestCase &t, int, bool th) { genSched(r, t, 8, 3); t.seti("fseed", r.in(1, 1 << 30)); for (int p = 0; p < 8; p++) { t.seti(fmt("a%d", p), r.p(0.25) ? 0 : r.in(1, th ? 60 : 20)); t.seti(fmt("b%d", p), r.p(0.25) ? 0 : r.in(1, 20)); } if (r.p(0.5)) t.seti("dump", 1); if (r.p(0.3)) t.setd("shortWrite", r.u(0.05, 0.5)); },
    c19, "maps, joined maps and vectors built from random local sizes (some zero), norms and dumped files compared with the serial result. Non-trivial: more than one process.", {}, {{"dump", ""}, {"shortWrite", ""}}});
