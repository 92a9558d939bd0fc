// Driver for the interaction of two particle systems of different types.
#include "common.hpp"
#include <algorithm>
#include <fstream>
#include <sstream>
#include "MPI/MixPairInteraction.hpp"
#include "Util/Logger.hpp"
struct Pt { int gid; double rs, pos[3]; double getRSearch() const { return rs; } PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); } void setPos(const PS::F64vec3 &p) { pos[0] = p.x; pos[1] = p.y; pos[2] = p.z; } void copyFromFP(const Pt &o) { *this = o; } };
struct Qt { char pad[5]; double pos[3]; float extra; int gid; double rs; double getRSearch() const { return rs; } PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); } void setPos(const PS::F64vec3 &p) { pos[0] = p.x; pos[1] = p.y; pos[2] = p.z; } void copyFromFP(const Qt &o) { *this = o; } };
struct Sum { int count = 0, trg = -1; double w = 0; void clear() { count = 0; trg = -1; w = 0; } };
struct Pair { int t, s; double a[3], b[3]; };
struct Find { std::vector<Pair> *out;
    void operator()(const MixEPI<Qt> *const tp, const PS::S32 nt, const MixEPJ<Pt> *const sp, const PS::S32 ns, Sum *const f) {
        std::vector<Pair> l; for (int i = 0; i < nt; i++) { f[i].clear(); if (!tp[i].trgFlag) continue; f[i].trg = tp[i].epTrg.gid; const auto a = tp[i].getPos(); for (int j = 0; j < ns; j++) { if (!sp[j].srcFlag) continue; const auto b = sp[j].getPos(); const double r2 = a.getDistanceSQ(b), m = std::max(tp[i].getRSearch(), sp[j].getRSearch()); if (r2 < m * m) { f[i].count++; f[i].w += sp[j].epSrc.gid + 1; l.push_back({tp[i].epTrg.gid, sp[j].epSrc.gid, {a.x, a.y, a.z}, {b.x, b.y, b.z}}); } } }
#pragma omp critical
        out->insert(out->end(), l.begin(), l.end());
    } };
template <class T> static void away(PS::ParticleSystem<T> &s, const Case &C, uint64_t seed) { // periodic images of the positions, which the interaction has to bring back itself
    const double L[3] = {C.d("bx", 1), C.d("by", 1), C.d("bz", 1)}, O[3] = {C.d("ox"), C.d("oy"), C.d("oz")}; for (int i = 0; i < s.getNumberOfParticleLocal(); i++) for (int d = 0; d < 3; d++) if ((C.i("pbc", 7) >> d & 1) && hu(seed, 21 + d, s[i].gid) < C.d("away")) { const double x = s[i].pos[d], y = hat(seed, 24 + d, s[i].gid) & 1 ? x + L[d] : x - L[d]; if ((y > x ? y - L[d] : y + L[d]) == x && (y < O[d] || y >= O[d] + L[d])) s[i].pos[d] = y; } // only where coming back is exact: the interaction does not move particles between processes
}
template <class T> static void put(PS::ParticleSystem<T> &s, const Case &C, uint64_t seed, int which, int round, int n, int P) {
    const double L[3] = {C.d("bx", 1), C.d("by", 1), C.d("bz", 1)}, O[3] = {C.d("ox"), C.d("oy"), C.d("oz")}; const double lo = C.d(which ? "rslo" : "rtlo", 0.1), hi = C.d(which ? "rshi" : "rthi", 0.2), cl = C.d("cluster"); std::vector<T> l; const int pbc = C.i("pbc", 7);
    for (int i = 0; i < n; i++) { uint64_t k = ((uint64_t)round * 2 + which) * 100000 + i; int o = C.s("skew") == "one" ? 0 : (int)(hat(seed, 1, k) % P); if (o != g_rank) continue; T p{}; p.gid = i; p.rs = lo + (hi - lo) * hu(seed, 2, k); for (int d = 0; d < 3; d++) { double u = hu(seed, 3 + d, k); if (hu(seed, 8, k) < cl) u = 0.5 + 0.1 * (u - 0.5); if (hu(seed, 9, k) < C.d("edge")) u = hat(seed, 10 + d, k) & 1 ? 0 : 1 - 1e-9; if ((pbc >> d & 1) && hu(seed, 13, k) < C.d("outside")) u += (int)(hat(seed, 14 + d, k) % 3) - 1; p.pos[d] = O[d] + L[d] * u; } l.push_back(p); }
    s.setNumberOfParticleLocal(l.size()); for (size_t i = 0; i < l.size(); i++) s[i] = l[i];
}
ENTRY(mix) {
    MPI_Init(nullptr, nullptr); Logger::setup_mpi_spdlog(); int argc = 0; char **argv = nullptr; PS::Initialize(argc, argv); { int P; MPI_Comm_size(MPI_COMM_WORLD, &P); const uint64_t seed = C.i("fseed"); PS::ParticleSystem<Qt> st; PS::ParticleSystem<Pt> ss; st.initialize(); ss.initialize(); PS::DomainInfo di; di.initialize(); static const PS::BOUNDARY_CONDITION B[8] = {PS::BOUNDARY_CONDITION_OPEN, PS::BOUNDARY_CONDITION_PERIODIC_X, PS::BOUNDARY_CONDITION_PERIODIC_Y, PS::BOUNDARY_CONDITION_PERIODIC_XY, PS::BOUNDARY_CONDITION_PERIODIC_Z, PS::BOUNDARY_CONDITION_PERIODIC_XZ, PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
    di.setBoundaryCondition(B[C.i("pbc", 7)]); const double L[3] = {C.d("bx", 1), C.d("by", 1), C.d("bz", 1)}, O[3] = {C.d("ox"), C.d("oy"), C.d("oz")}; di.setPosRootDomain(PS::F64vec3(O[0], O[1], O[2]), PS::F64vec3(O[0] + L[0], O[1] + L[1], O[2] + L[2]));
    MixPairInteraction<Qt, Pt, Qt, Pt, Sum> mix; mix.initialize();
    for (int k = 0; k < C.i("rounds", 1); k++) { int nt = C.i(("t" + std::to_string(k)).c_str()), ns = C.i(("s" + std::to_string(k)).c_str()); put(st, C, seed, 0, k, nt, P); put(ss, C, seed, 1, k, ns, P); st.adjustPositionIntoRootDomain(di); ss.adjustPositionIntoRootDomain(di); if (C.i("both") && nt) { di.decomposeDomainAll(st); } else di.decomposeDomainAll(ss); st.exchangeParticle(di); ss.exchangeParticle(di);
        away(st, C, seed); away(ss, C, seed); mix.updateSystem(st, ss, di); mix.updateTree(); std::vector<Pair> prs; Find f{&prs}; mix.computeForce(f, di); const auto &res = mix.getForceResult(); std::vector<double> v; for (int i = 0; i < st.getNumberOfParticleLocal(); i++) { v.push_back(st[i].gid); v.push_back(i < (int)res.size() ? res[i].trg : -2); v.push_back(i < (int)res.size() ? res[i].count : -2); v.push_back(i < (int)res.size() ? res[i].w : -2); } v.push_back(res.size()); v.push_back(ss.getNumberOfParticleLocal()); emitv("trg", v); emitv("pair", prs); } }
    PS::Finalize(); MPI_Finalize();
}
