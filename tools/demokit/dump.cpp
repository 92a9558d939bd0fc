// Runs the real particle system from the files in the current directory and writes what it did to out.<rank>.
// usage: dump steps [key=value ...]: restart=1 euler=0 vel=FILE (gid vx vy vz wx wy wz) velUntil=k force=FILE stats=1 addFrom=FILE addStep=k
#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"
#include "spdlog/sinks/base_sink.h"
#include <fstream>
#include <map>
struct Sink : spdlog::sinks::base_sink<std::mutex> { FILE *f = nullptr; void sink_it_(const spdlog::details::log_msg &m) override { if (f) fprintf(f, "LOG %.*s\n", (int)m.payload.size(), m.payload.data()); } void flush_() override {} };
int main(int argc, char **argv) {
    MPI_Init(&argc, &argv); int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    std::map<std::string, std::string> o; for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); o[a.substr(0, e)] = a.substr(e + 1); }
    auto table = [&](const std::string &k) { std::map<int, std::vector<double>> m; if (o.count(k)) { std::ifstream in(o[k]); int g; while (in >> g) { std::vector<double> v(6); for (auto &x : v) in >> x; m[g] = v; } } return m; };
    auto vel = table("vel"), force = table("force");
    int pc = 0; char **pv = nullptr; PS::Initialize(pc, pv); Logger::setup_mpi_spdlog();
    FILE *f = fopen(("out." + std::to_string(rank)).c_str(), "w");
    {
        auto sink = std::make_shared<Sink>(); if (o.count("stats")) { sink->f = f; spdlog::default_logger()->sinks().push_back(sink); }
        SylinderSystem sys;
        if (o.count("restart")) sys.reinitialize(SylinderConfig("RunConfig.yaml"), "TimeStepInfo.txt", pc, pv, o["euler"] != "0"); else sys.initialize(SylinderConfig("RunConfig.yaml"), "SylinderInitial.dat", pc, pv);
        auto P = [&](const char *tag, int k) { const auto &c = sys.getContainer(); for (int i = 0; i < c.getNumberOfParticleLocal(); i++) { const auto &s = c[i]; fprintf(f, "%s %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d %d %.17g %.17g %d %d\n", tag, k, s.gid, s.pos[0], s.pos[1], s.pos[2], s.orientation[0], s.orientation[1], s.orientation[2], s.orientation[3], s.vel[0], s.vel[1], s.vel[2], s.omega[0], s.omega[1], s.omega[2], s.rank, s.globalIndex, s.radius, s.length, (int)s.isImmovable, s.group); } };
        fprintf(f, "START %d %d\n", sys.getStepCount(), sys.getSnapID()); P("INIT", 0);
        for (auto &l : sys.getLinkMap()) fprintf(f, "LINK %d %d\n", l.first, l.second);
        for (int k = 0; k < atoi(argv[1]); k++) {
            sys.prepareStep(); P("PREP", k); const auto &c = sys.getContainer(); int n = c.getNumberOfParticleLocal();
            auto fill = [&](std::map<int, std::vector<double>> &m) { std::vector<double> v(6 * n, 0); for (int i = 0; i < n; i++) { auto it = m.find(c[i].gid); if (it != m.end()) std::copy(it->second.begin(), it->second.end(), &v[6 * i]); } return v; };
            if (o.count("vel") && (!o.count("velUntil") || k < atoi(o["velUntil"].c_str()))) sys.setVelocityNonBrown(fill(vel)); if (o.count("force") && (!o.count("forceUntil") || k < atoi(o["forceUntil"].c_str()))) sys.setForceNonBrown(fill(force));
            sys.runStep(); P("POST", k);
            for (auto &q : sys.getConstraintPoolNonConst()) for (auto &b : q) fprintf(f, "CON %d %d %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d %d\n", k, b.gidI, b.gidJ, (int)b.oneSide, (int)b.bilateral, b.delta0, b.gamma, b.normI[0], b.normI[1], b.normI[2], b.posI[0], b.posI[1], b.posI[2], b.posJ[0], b.posJ[1], b.posJ[2], b.globalIndexI, b.globalIndexJ);
            if (o.count("stats")) { sys.calcVolFrac(); sys.calcOrderParameter(); sys.calcConStress(); double v[12]; sys.calcBoundingBox(v, v + 3, v + 6, v + 9); fprintf(f, "BOX %d", k); for (double x : v) fprintf(f, " %.17g", x); fprintf(f, "\n"); }
            if (o.count("addFrom") && atoi(o["addStep"].c_str()) == k) { std::ifstream in(o["addFrom"]); std::vector<Sylinder> nw; int r; double x[3], rad, len; while (in >> r >> x[0] >> x[1] >> x[2] >> rad >> len) if (r == rank) { double q[4] = {0, 0, 0, 1}; nw.emplace_back(-1, rad, rad, len, len, x, q); } auto g = sys.addNewSylinder(nw); for (int i : g) fprintf(f, "ADDED %d\n", i); P("AFTERADD", k); }
        }
        fprintf(f, "END %d %d\n", sys.getStepCount(), sys.getSnapID());
    }
    fclose(f); PS::Finalize(); MPI_Finalize();
}
