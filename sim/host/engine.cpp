#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
std::string fmt(const char *f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void Stats::add(const Stats &o) {
    for (auto &p : o.probe) probe[p.first] += p.second; for (auto &p : o.fault) fault[p.first] += p.second; for (auto &p : o.count) count[p.first] += p.second;
    orders.insert(o.orders.begin(), o.orders.end()); vtime += o.vtime;
}
void genSched(Rng &r, TestCase &t, int maxRanks, int maxThreads) {
    static const int rk[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8}; int n; do n = rk[r.below(12)]; while (n > maxRanks);
    static const int th[] = {1, 1, 2, 2, 3, 4}; int k; do k = th[r.below(6)]; while (k > maxThreads);
    t.seti("nranks", n); t.seti("nthreads", k); t.seti("sched", (long)r.below(5)); t.seti("jseed", (long)(r.next() >> 1)); t.seti("entropy", (long)(r.next() >> 20));
    if (k > 1 && r.p(0.5)) t.seti("preempt", r.in(20, 3000));
    if (k > 1 && r.p(0.35)) t.seti("races", 1);
    if (r.p(0.5)) t.seti("poison", r.in(1, 255));
    if (n > 1 && r.p(0.5)) { t.setd("delay", r.u(0.02, 0.4)); t.seti("maxDelay", r.in(3, 60)); }
    if (n > 1 && r.p(0.4)) t.setd("rendezvous", r.p(0.5) ? 1.0 : r.u(0.05, 0.6));
    if (r.p(0.15)) t.setd("clockJump", 0.01);
}
JobSpec jobFrom(const TestCase &t, const std::string &entry) {
    JobSpec s; s.entry = entry; s.nranks = (int)t.i("nranks", 1); s.nthreads = (int)t.i("nthreads", 1); s.sched = (int)t.i("sched"); s.preempt = (int)t.i("preempt");
    s.races = t.i("races"); s.poison = (int)t.i("poison", -1); s.seed = (uint64_t)t.i("jseed", 1); s.entropySeed = (uint64_t)t.i("entropy", 7);
    s.faults.delay = t.d("delay"); s.faults.maxDelay = (int)t.i("maxDelay", 10); s.faults.rendezvous = t.d("rendezvous"); s.faults.clockJump = t.d("clockJump");
    s.faults.shortWrite = t.d("shortWrite"); s.faults.eintr = t.d("eintr"); s.faults.ioErr = t.d("ioErr"); s.faults.openErr = t.d("openErr"); s.faults.diskBytes = t.i("diskBytes", -1);
    return s;
}
JobResult Ctx::run(JobSpec s) {
    int j = jobs++;
    if (replaying && j < (int)forced.size() && haveForced[j]) { s.replay = true; s.forced = forced[j]; }
    JobResult r = runJob(s);
    traces.push_back(r.trace); traced.push_back(r.status != J_SIGNAL && r.status != J_HANG);
    hash = mix(hash, mix(r.hash, (uint64_t)r.status)); st.orders.insert(r.orderHash); st.vtime += (double)r.vtime * 1e-9;
    st.count["jobs"]++; st.count["scheduler_steps"] += (double)r.steps; st.count["decisions"] += (double)r.decisions;
    for (auto &c : r.counters) if (!c.first.compare(0, 6, "fault.")) st.fault[c.first.substr(6)] += c.second; else st.count[c.first] += c.second;
    if (r.status == J_HARNESS && harness.empty()) harness = r.message;
    if (s.races) st.count["jobs_with_race_detection"]++;
    if (s.preempt) st.count["jobs_with_preemption"]++;
    st.count[fmt("jobs_with_%d_ranks", s.nranks)]++; st.count[fmt("jobs_with_%d_threads", s.nthreads)]++; st.count[fmt("jobs_with_policy_%d", s.sched)]++;
    return r;
}
bool Ctx::needOk(const JobResult &r) {
    if (r.status == J_OK) return true;
    if (r.status == J_HARNESS) { if (harness.empty()) harness = r.message; return false; }
    if (r.status == J_FAIL) fail(r.cls, r.message); else fail(std::string("run-") + statusName(r.status), r.message);
    return false;
}

// ---------------------------------------------------------------- text form
static std::string caseText(const TestCase &t) {
    std::string o = "property " + t.prop + "\n" + fmt("seed %llu\n", (unsigned long long)t.seed);
    for (auto &k : t.kv) o += "kv " + k.first + "=" + k.second + "\n";
    for (auto &i : t.items) o += "item " + i + "\n"; return o;
}
struct ReplayFile { TestCase t; std::vector<Trace> forced; std::vector<char> have; std::string cls, msg; uint64_t hash = 0; };
static std::string replayText(const ReplayFile &f) {
    std::string o = "# deterministic-simulation replay: run `/verif/check --replay <this file>`\n# " + f.msg + "\n" + caseText(f.t) + "class " + f.cls + "\n" + fmt("hash %llx\n", (unsigned long long)f.hash);
    for (size_t j = 0; j < f.forced.size(); j++) { if (!f.have[j]) { o += fmt("job %zu seeded\n", j); continue; } o += fmt("job %zu", j); for (auto &d : f.forced[j]) o += fmt(" %u:%u", d.first, d.second); o += "\n"; }
    return o;
}
static bool loadReplay(const std::string &path, ReplayFile &f) {
    std::ifstream in(path); if (!in) return false; std::string l;
    while (std::getline(in, l)) {
        if (l.empty() || l[0] == '#') continue; auto sp = l.find(' '); std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "property") f.t.prop = v; else if (k == "seed") f.t.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "kv") { auto e = v.find('='); f.t.kv[v.substr(0, e)] = v.substr(e + 1); } else if (k == "item") f.t.items.push_back(v);
        else if (k == "class") f.cls = v; else if (k == "hash") f.hash = strtoull(v.c_str(), 0, 16);
        else if (k == "job") { Trace t; std::istringstream s(v); std::string w; s >> w; bool have = true; while (s >> w) { if (w == "seeded") { have = false; break; } auto c = w.find(':'); t.push_back({(uint32_t)strtoul(w.c_str(), 0, 10), (uint32_t)strtoul(w.c_str() + c + 1, 0, 10)}); } f.forced.push_back(t); f.have.push_back(have); }
    }
    return true;
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

// ---------------------------------------------------------------- execution helpers
static Ctx execCase(const Prop &p, const TestCase &t, const std::vector<Trace> *forced = nullptr, const std::vector<char> *have = nullptr) {
    Ctx c; if (forced) { c.replaying = true; c.forced = *forced; c.haveForced = *have; }
    p.check(t, c); if (!c.harness.empty()) { c.cls.clear(); } return c;
}
struct Found { bool any = false; TestCase t; std::string cls, msg; int k = 0; };
static std::string wire(const TestCase &t, const std::string &cls, const std::string &msg, int k) { return fmt("%d\n", k) + cls + "\n" + jesc(msg) + "\n" + caseText(t); }

// ---------------------------------------------------------------- minimisation
static void minimise(const Prop &p, ReplayFile &f, double budget) {
    double end = nowS() + budget; int tries = 0; const std::string cls = f.cls;
    auto fails = [&](const TestCase &t) { if (nowS() > end) return false; tries++; Ctx c = execCase(p, t); return c.harness.empty() && c.cls == cls; };
    // 1. the case: drop items, simplify knobs
    for (size_t chunk = std::max<size_t>(1, f.t.items.size() / 2); chunk >= 1 && !f.t.items.empty(); chunk /= 2) {
        for (size_t i = 0; i < f.t.items.size() && nowS() < end;) {
            TestCase t = f.t; t.items.erase(t.items.begin() + i, t.items.begin() + std::min(i + chunk, t.items.size()));
            if (fails(t)) f.t = t; else i += chunk;
        }
        if (chunk == 1) break;
    }
    static const std::vector<std::pair<std::string, std::string>> common = {{"delay", ""}, {"rendezvous", ""}, {"clockJump", ""}, {"poison", ""}, {"preempt", ""}, {"shortWrite", ""}, {"eintr", ""}, {"nthreads", "1"}, {"nthreads", "2"}, {"nranks", "1"}, {"nranks", "2"}, {"nranks", "3"}, {"steps", "1"}, {"steps", "2"}, {"sched", "2"}};
    auto simp = common; simp.insert(simp.end(), p.simpler.begin(), p.simpler.end());
    for (auto &s : simp) {
        if (!f.t.has(s.first) || f.t.s(s.first) == s.second) continue;
        if (!s.second.empty() && atof(f.t.s(s.first).c_str()) <= atof(s.second.c_str()) && (s.first == "nranks" || s.first == "nthreads" || s.first == "steps")) continue;
        TestCase t = f.t; if (s.second.empty()) t.kv.erase(s.first); else t.kv[s.first] = s.second;
        if (fails(t)) f.t = t;
    }
    // 2. the schedule and fault decisions
    Ctx c = execCase(p, f.t); f.forced = c.traces; f.have = c.traced;
    auto failsT = [&](const std::vector<Trace> &tr) { if (nowS() > end) return false; tries++; Ctx c = execCase(p, f.t, &tr, &f.have); return c.harness.empty() && c.cls == cls; };
    for (size_t j = 0; j < f.forced.size(); j++) {
        if (!f.have[j]) continue;
        { auto tr = f.forced; tr[j].clear(); if (failsT(tr)) { f.forced = tr; continue; } }
        for (size_t chunk = std::max<size_t>(1, f.forced[j].size() / 2); nowS() < end; chunk /= 2) {
            for (size_t i = 0; i < f.forced[j].size() && nowS() < end;) {
                auto tr = f.forced; tr[j].erase(tr[j].begin() + i, tr[j].begin() + std::min(i + chunk, tr[j].size()));
                if (failsT(tr)) f.forced = tr; else i += chunk;
            }
            if (chunk <= 1) break;
        }
    }
    // a replay file must hold the complete decision list for the minimised case
    Ctx d = execCase(p, f.t, &f.forced, &f.have);
    if (d.cls == cls) { f.hash = d.hash; f.msg = d.msg; for (size_t j = 0; j < d.traces.size(); j++) if (j >= f.forced.size()) { f.forced.push_back(d.traces[j]); f.have.push_back(d.traced[j]); } Ctx e = execCase(p, f.t, &f.forced, &f.have); f.hash = e.hash; f.msg = e.msg; }
    fprintf(stderr, "minimised with %d executions\n", tries);
}

// ---------------------------------------------------------------- known findings
struct Known { std::string prop, cls, match, what; };
static std::vector<Known> loadKnown(const std::string &file) { // lines: "finding: property=<id> class=<cls> match=<text> :: <what fails>"
    std::vector<Known> v; std::ifstream in(file); std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 8, "finding:")) continue; Known k; auto get = [&](const char *key) { auto a = l.find(key); if (a == std::string::npos) return std::string(); a += strlen(key); auto b = l.find(' ', a); return l.substr(a, b - a); };
        k.prop = get("property="); k.cls = get("class="); k.match = get("match="); auto w = l.find(" :: "); if (w != std::string::npos) k.what = l.substr(w + 4); if (!k.prop.empty()) v.push_back(k);
    }
    return v;
}
static std::set<int> g_knownHit;

// ---------------------------------------------------------------- main
static std::string g_root, g_out;
static int doReplay(const std::string &path) {
    ReplayFile f; if (!loadReplay(path, f)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    for (auto &p : props()) if (p.id == f.t.prop) {
        std::string err; if (!simLoad(g_out + "/lib" + p.lib + ".so", p.maxRanks, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 2; }
        Ctx c = execCase(p, f.t, &f.forced, &f.have); if (!c.harness.empty()) { fprintf(stderr, "harness: %s\n", c.harness.c_str()); return 2; }
        if (c.cls.empty()) { printf("the property held on this replay\n"); return 0; }
        printf("class %s\nhash %llx\n%s\n", c.cls.c_str(), (unsigned long long)c.hash, c.msg.c_str());
        if (c.cls == f.cls && (c.hash == f.hash || !f.hash)) { printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str()); return 1; }
        printf("DIFFERENT from the recorded failure (class %s hash %llx)\n", f.cls.c_str(), (unsigned long long)f.hash); return 3;
    }
    return 2;
}
static void putStats(std::string &o, const Stats &s) {
    for (auto &p : s.probe) o += fmt("p %.17g ", p.second) + p.first + "\n"; for (auto &p : s.fault) o += fmt("f %.17g ", p.second) + p.first + "\n"; for (auto &p : s.count) o += fmt("c %.17g ", p.second) + p.first + "\n";
    for (auto v : s.orders) o += fmt("o %llx\n", (unsigned long long)v); o += fmt("v %.17g\n", s.vtime);
}
int main(int argc, char **argv) {
    char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl] = 0; g_out = self; g_out = g_out.substr(0, g_out.rfind('/')); g_root = getenv("SIM_ROOT") ? getenv("SIM_ROOT") : g_out.substr(0, g_out.rfind('/'));
    if (!getenv("SIMREEXEC")) { // one fixed environment: same addresses, same library search path, one VTK backend
        std::vector<std::string> env = {"SIMREEXEC=1", "GLIBC_TUNABLES=glibc.rtld.nns=16:glibc.rtld.optional_static_tls=40000", "LD_LIBRARY_PATH=" + g_out + "/lib:/opt/vp/compat", "VTK_SMP_BACKEND_IN_USE=Sequential", "PATH=/usr/bin:/bin", "HOME=/tmp", "LC_ALL=C", "SIM_ROOT=" + g_root};
        for (const char *k : {"VERIF_SEED", "VERIF_TIER", "SIM_V", "SIM_CASES", "SIM_WORKERS", "SIM_FIRST", "SIM_CAP", "SIM_KEEP", "SIM_BT", "SIM_CONSOLE", "SIM_CAL"}) if (getenv(k)) env.push_back(std::string(k) + "=" + getenv(k));
        std::vector<char *> e; for (auto &x : env) e.push_back(&x[0]); e.push_back(nullptr);
        personality(ADDR_NO_RANDOMIZE); execve(self, argv, e.data()); perror("execve"); return 2;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0); signal(SIGPIPE, SIG_IGN); simStart();
    if (argc > 2 && !strcmp(argv[1], "--replay")) return doReplay(argv[2]);
    if (argc < 2) { for (auto &p : props()) printf("%s %s\n", p.id.c_str(), p.lib.c_str()); return 0; }
    std::string id = argv[1]; const char *ts = getenv("VERIF_TIER"); std::string tier = argc > 2 ? argv[2] : ts && *ts ? ts : "quick"; bool thorough = tier == "thorough";
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1; g_verbose = false;
    Prop *pp = nullptr; for (auto &p : props()) if (p.id == id) pp = &p; if (!pp) { fprintf(stderr, "no such property %s\n", id.c_str()); return 2; } Prop &P = *pp;
    double t0 = nowS(); std::string err;
    if (!simLoad(g_out + "/lib" + P.lib + ".so", P.maxRanks, err)) { fprintf(stderr, "load: %s\n", err.c_str()); return 2; }
    int total = getenv("SIM_CASES") ? atoi(getenv("SIM_CASES")) : thorough ? P.thorough : P.quick, W = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8, first = getenv("SIM_FIRST") ? atoi(getenv("SIM_FIRST")) : 0;
    double cap = getenv("SIM_CAP") ? atof(getenv("SIM_CAP")) : thorough ? 7200 : 240; bool V = getenv("SIM_V"), keep = getenv("SIM_KEEP");
    auto known = loadKnown(g_root + "/known_findings.txt");
    printf("property %s, tier %s, VERIF_SEED=%llu, %d cases\n", id.c_str(), tier.c_str(), (unsigned long long)seed, total);
    struct Wk { pid_t pid; int fd; std::string buf; }; std::vector<Wk> ws;
    for (int w = 0; w < W; w++) {
        int fd[2]; if (pipe(fd)) return 2; pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]); for (auto &o : ws) close(o.fd); Stats tot; int n = 0, nt = 0; std::set<uint64_t> sigs; std::string samples;
            auto send = [&](const std::string &kind, const std::string &body) { std::string m = kind + fmt(" %zu\n", body.size()) + body; size_t d = 0; while (d < m.size()) { ssize_t k = write(fd[1], m.data() + d, m.size() - d); if (k <= 0) _exit(1); d += (size_t)k; } };
            for (int k = first + w; k < first + total; k += W) {
                if (nowS() - t0 > cap) break;
                TestCase t; t.prop = id; t.seed = mix(mix(seed, hashStr(id)), (uint64_t)k); Rng r(t.seed); P.gen(r, t, k, thorough);
                double c0 = nowS(); Ctx c = execCase(P, t); n++; tot.add(c.st); if (c.nontrivial && sigs.insert(c.sig ? c.sig : c.hash).second) nt++;
                if (V) fprintf(stderr, "case %d: %s %s (%.2fs) %s\n", k, c.cls.c_str(), c.msg.c_str(), nowS() - c0, c.harness.c_str());
                if ((k - first) < 2) { std::string s = caseText(t); send("S", s); }
                if (!c.harness.empty()) { send("H", c.harness + "\n" + caseText(t)); continue; }
                if (!c.cls.empty()) {
                    int kn = -1; for (size_t i = 0; i < known.size(); i++) if (known[i].prop == id && known[i].cls == c.cls && c.msg.find(known[i].match) != std::string::npos) kn = (int)i;
                    if (kn >= 0) send("K", fmt("%d", kn)); else { send("F", wire(t, c.cls, c.msg, k)); }
                }
                if (tot.orders.size() > 200000) tot.orders.clear();
            }
            std::string s; putStats(s, tot); send("T", fmt("%d %d\n", n, nt) + s); _exit(0);
        }
        close(fd[1]); ws.push_back({pid, fd[0], ""});
    }
    Stats tot; long evals = 0, nontriv = 0; std::vector<Found> found; std::vector<std::string> samples, harness; int live = W; bool stopping = false; int finishedWorkers = 0;
    while (live > 0) {
        std::vector<pollfd> pf; std::vector<int> ix; for (size_t i = 0; i < ws.size(); i++) if (ws[i].fd >= 0) { pf.push_back({ws[i].fd, POLLIN, 0}); ix.push_back((int)i); }
        poll(pf.data(), pf.size(), 1000);
        for (size_t q = 0; q < pf.size(); q++) if (pf[q].revents) {
            Wk &w = ws[ix[q]]; char b[65536]; ssize_t k = read(w.fd, b, sizeof b); if (k <= 0) { close(w.fd); w.fd = -1; live--; continue; } w.buf.append(b, (size_t)k);
            for (;;) {
                auto nl = w.buf.find('\n'); if (nl == std::string::npos) break; char kind = w.buf[0]; size_t len = strtoull(w.buf.c_str() + 2, 0, 10); if (w.buf.size() < nl + 1 + len) break;
                std::string body = w.buf.substr(nl + 1, len); w.buf.erase(0, nl + 1 + len); std::istringstream in(body); std::string l;
                if (kind == 'S') samples.push_back(body); else if (kind == 'H') harness.push_back(body); else if (kind == 'K') g_knownHit.insert(atoi(body.c_str()));
                else if (kind == 'F') { Found f; f.any = true; std::getline(in, l); f.k = atoi(l.c_str()); std::getline(in, f.cls); std::getline(in, f.msg); while (std::getline(in, l)) { if (!l.compare(0, 5, "seed ")) f.t.seed = strtoull(l.c_str() + 5, 0, 10); else if (!l.compare(0, 3, "kv ")) { auto e = l.find('='); f.t.kv[l.substr(3, e - 3)] = l.substr(e + 1); } else if (!l.compare(0, 5, "item ")) f.t.items.push_back(l.substr(5)); } f.t.prop = id; found.push_back(f); if (keep) { std::ofstream(fmt("/tmp/found-%s-%d.txt", id.c_str(), f.k)) << caseText(f.t); } if (keep) printf("FOUND case %d class %s: %s\n", f.k, f.cls.c_str(), f.msg.c_str()); }
                else if (kind == 'T') { std::getline(in, l); int a, c; sscanf(l.c_str(), "%d %d", &a, &c); evals += a; nontriv += c; finishedWorkers++; while (std::getline(in, l)) { if (l[0] == 'o') { tot.orders.insert(strtoull(l.c_str() + 2, 0, 16)); continue; } if (l[0] == 'v') { tot.vtime += atof(l.c_str() + 2); continue; } char *e; double v = strtod(l.c_str() + 2, &e); std::string key = e + 1; (l[0] == 'p' ? tot.probe : l[0] == 'f' ? tot.fault : tot.count)[key] += v; } }
            }
        }
        if (!found.empty() && !keep && !stopping) { stopping = true; for (auto &w : ws) if (w.fd >= 0) kill(w.pid, SIGKILL); }
    }
    for (auto &w : ws) waitpid(w.pid, nullptr, 0);
    int rc = 0; long violations = 0;
    if (!stopping && finishedWorkers < W) { fprintf(stderr, "error: a worker died\n"); rc = 2; }
    if (!harness.empty()) { fprintf(stderr, "harness error: %s\n", harness[0].c_str()); if (found.empty()) rc = 2; }
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.k < b.k; });
    std::string confirmedMsg;
    for (size_t i = 0; i < found.size() && i < 4 && !violations && !(keep && !strcmp(getenv("SIM_KEEP"), "2")); i++) {
        Found &f = found[i]; fprintf(stderr, "candidate: case %d class %s: %s\n", f.k, f.cls.c_str(), f.msg.c_str());
        Ctx a = execCase(P, f.t), b = execCase(P, f.t);
        if (a.cls == b.cls && !a.cls.empty() && a.harness.empty()) f.cls = a.cls;
        const bool exact = a.hash == b.hash; // code that reads uninitialised memory may differ in bytes between executions
        if (a.cls != f.cls || b.cls != f.cls) { fprintf(stderr, "not reproducible (%s/%s, hash %llx/%llx)\n", a.cls.c_str(), b.cls.c_str(), (unsigned long long)a.hash, (unsigned long long)b.hash); rc = 2; continue; }
        ReplayFile R; R.t = f.t; R.cls = f.cls; R.msg = a.msg; R.hash = a.hash; R.forced = a.traces; R.have = a.traced; { Ctx c = execCase(P, R.t, &R.forced, &R.have); R.hash = c.hash; if (c.cls != R.cls) { for (auto &h : R.have) h = 0; R.hash = execCase(P, R.t, &R.forced, &R.have).hash; } }
        if (!exact) R.hash = 0; ReplayFile full = R; minimise(P, R, thorough ? 240 : 60); if (!exact) R.hash = 0;
        mkdir((g_root + "/replays").c_str(), 0755); std::string path = g_root + "/replays/" + id + fmt("-%llu-%d.replay", (unsigned long long)seed, f.k);
        auto confirm = [&](const ReplayFile &X) { std::ofstream(path) << replayText(X); pid_t p = fork(); if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); unsetenv("SIMREEXEC"); execl(self, self, "--replay", path.c_str(), (char *)nullptr); _exit(9); } int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
        bool ok = confirm(R); if (!ok && R.hash) { uint64_t h = R.hash; R.hash = 0; ok = confirm(R); if (!ok) R.hash = h; }
        if (!ok) { fprintf(stderr, "minimised case does not replay, keeping the full one\n"); ok = confirm(full); if (!ok) { full.hash = 0; ok = confirm(full); } R = full; }
        if (!ok) { fprintf(stderr, "replay in a fresh process differs\n"); rc = 2; continue; }
        violations++; confirmedMsg = R.msg; printf("%s: %s\nVIOLATION property=%s replay=%s\n", R.cls.c_str(), R.msg.c_str(), id.c_str(), path.c_str()); rc = 1;
    }
    for (size_t i = 0; i < known.size(); i++) if (known[i].prop == id) { if (g_knownHit.count((int)i) || found.empty()) printf("KNOWN-FINDING: property=%s %s%s\n", id.c_str(), known[i].what.c_str(), g_knownHit.count((int)i) ? "" : " (not reached in this run)"); }
    double wall = nowS() - t0; if (stopping && !evals) evals = found.empty() ? 1 : found[0].k - first + 1;
    // evidence
    auto obj = [](const std::map<std::string, double> &m) { std::string o = "{"; for (auto &p : m) o += (o.size() > 1 ? ", " : "") + ("\"" + jesc(p.first) + "\": ") + fmt("%.10g", p.second); return o + "}"; };
    mkdir((g_root + "/evidence").c_str(), 0755); std::ofstream ev(g_root + "/evidence/" + id + ".json");
    ev << "{\n \"property\": \"" << id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"" << P.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << nontriv << ",\n  \"rule\": \"" << jesc(P.rule) << "\",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 2; i++) ev << (i ? ", " : "") << "\"" << jesc(samples[i].substr(0, 3000)) << "\"";
    ev << "],\n  \"simulated_runs\": " << (long)tot.count["jobs"] << ",\n  \"runs_per_hour\": " << (long)(tot.count["jobs"] / std::max(wall, 1e-3) * 3600) << ",\n  \"seeds_per_hour\": " << (long)(evals / std::max(wall, 1e-3) * 3600) << ",\n  \"simulated_seconds\": " << fmt("%.6g", tot.vtime) << ",\n  \"distinct_interleavings\": " << tot.orders.size()
       << ",\n  \"interleaving_measure\": \"hash of the global order of (rank, thread, kind) of every externally visible event of a run\",\n  \"faults_injected\": " << obj(tot.fault) << ",\n  \"reached\": " << obj(tot.probe) << ",\n  \"counts\": " << obj(tot.count)
       << ",\n  \"real_components\": \"every SimToolbox and FDPS source the property runs through, Trilinos (Tpetra, Zoltan, Belos, Teuchos, Kokkos), yaml-cpp, VTK, spdlog, libstdc++ iostreams\",\n  \"stubbed_components\": \"MPI library, OpenMP runtime, file system calls, clocks, std::random_device, TRNG (counter-based stand-in with exact leapfrog)\"\n },\n \"assumptions\": [";
    for (size_t i = 0; i < P.assumptions.size(); i++) ev << (i ? ", " : "") << "\"" << jesc(P.assumptions[i]) << "\""; ev << "],\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"violations\": " << violations << "\n}\n"; ev.close();
    printf("%ld cases (%ld distinct non-trivial), %ld simulated runs, %zu interleavings, %.1f s\n", evals, nontriv, (long)tot.count["jobs"], tot.orders.size(), wall);
    if (V) { for (auto &p : tot.probe) printf("  reached %s: %g\n", p.first.c_str(), p.second); for (auto &p : tot.fault) printf("  fault %s: %g\n", p.first.c_str(), p.second); }
    return rc;
}
