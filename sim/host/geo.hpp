#pragma once
#include "model.hpp"
// ---------------------------------------------------------------- which constraints a step must contain
struct Want { int kind, a, b; double sep, margin; V3 dir; bool skip; double gap; }; // kind 0 pair, 1 boundary, 2 link; margin: distance from the recording threshold
static void configured(const Sys &s, Frame &f) { for (auto &v : f.by) for (auto &p : v) { p.rc = p.r * s.dcr; p.Lc = p.L * s.lcr; p.colBuf = s.colBuf; } } // the collision size is the configured ratio of the size
static bool sph(const PRec &p) { return p.Lc < 2 * p.rc; }
static double wallDist(const Sys::B &b, V3 q, V3 &n) { // signed distance into the allowed region and inward normal
    if (b.type == "wall") { V3 u = unit(b.a); double d = dot(q - b.c, u); n = u; return d; }
    V3 w = q - b.c; if (b.type == "tube") { V3 u = unit(b.a); w = w - u * dot(w, u); }
    double R = norm(w); n = unit(w) * (b.inside ? -1.0 : 1.0); return b.inside ? b.R - R : R - b.R;
}
static bool samePair(const CRec &c, int a, int b) { return (c.gidI == a && c.gidJ == b) || (c.gidI == b && c.gidJ == a); }
static void checkBlocks(Ctx &c, const std::vector<CRec> &con, const Frame &f, const std::string &when) { // what every recorded constraint must satisfy
    for (auto &b : con) {
        auto i = f.gid.find(b.gidI), j = f.gid.find(b.gidJ); if (i == f.gid.end() || j == f.gid.end()) return c.fail("unknown-particle", when + fmt(": constraint between %d and %d", b.gidI, b.gidJ));
        if (b.gI != i->second->gidx || b.gJ != j->second->gidx) return c.fail("wrong-index", when + fmt(": constraint %d-%d addresses rows %d,%d but the particles have %d,%d", b.gidI, b.gidJ, b.gI, b.gJ, i->second->gidx, j->second->gidx));
        if (norm(b.lI - b.lJ) < 1e-9 && norm(b.nI) == 0) continue; // axes intersect (monolayer rods crossing): no direction
        if (std::fabs(norm(b.nI) - 1) > 1e-9 || (!b.oneSide && norm(b.nI + b.nJ) > 1e-9)) return c.fail("normals", when + fmt(": constraint %d-%d normals %s %s", b.gidI, b.gidJ, str(b.nI).c_str(), str(b.nJ).c_str()));
    }
}
static void pairs(Ctx &c, const Sys &s, const Frame &f, const std::vector<CRec> &con, const std::string &when) {
    std::map<std::pair<int, int>, std::vector<const CRec *>> got; size_t nGot = 0; for (auto &b : con) if (!b.bil && !b.oneSide) { got[{std::min(b.gidI, b.gidJ), std::max(b.gidI, b.gidJ)}].push_back(&b); nGot++; }
    size_t used = 0;
    for (size_t x = 0; x < f.all.size(); x++) for (size_t y = x + 1; y < f.all.size(); y++) {
        const PRec *A = f.all[x], *B = f.all[y]; if (A->gid > B->gid) std::swap(A, B);
        double rA = sph(*A) ? 0.5 * A->Lc + A->rc : A->rc, rB = sph(*B) ? 0.5 * B->Lc + B->rc : B->rc, hA = sph(*A) ? 0 : 0.5 * A->Lc, hB = sph(*B) ? 0 : 0.5 * B->Lc, thr = rA * A->colBuf + rB * B->colBuf;
        auto it = got.find({A->gid, B->gid}); std::vector<const CRec *> left = it == got.end() ? std::vector<const CRec *>() : it->second; used += left.size();
        for (int ix = -s.pbc[0]; ix <= s.pbc[0]; ix++) for (int iy = -s.pbc[1]; iy <= s.pbc[1]; iy++) for (int iz = -s.pbc[2]; iz <= s.pbc[2]; iz++) {
            V3 sh{ix * s.edge(0), iy * s.edge(1), iz * s.edge(2)}, pb = B->pos + sh; if (norm(pb - A->pos) > hA + hB + rA + rB + thr + 1e-6) continue;
            V3 P, Q; double d = segseg(A->pos - A->dir() * hA, A->pos + A->dir() * hA, pb - B->dir() * hB, pb + B->dir() * hB, P, Q), sep = d - rA - rB; double scale = rA + rB + hA + hB;
            bool sure = sep < thr - 1e-7 * scale, maybe = sep < thr + 1e-7 * scale; if (!maybe) continue; if (d < 1e-6 * scale) { left.clear(); continue; } // axes touch: no direction defined
            // recorded from either side: find a record whose separation, points and direction describe this image
            int hit = -1; for (size_t k = 0; k < left.size(); k++) {
                const CRec *r = left[k]; bool sw = r->gidI == B->gid; V3 lA = sw ? r->lJ : r->lI, lB = sw ? r->lI : r->lJ, oA = sw ? r->pJ : r->pI, oB = sw ? r->pI : r->pJ, nA = sw ? r->nJ : r->nI;
                V3 off = (lB - oB) - (lA - oA) - (pb - A->pos); if (norm(off) > 1e-6 * (scale + s.edge(0) + s.edge(1) + s.edge(2))) continue; // another image
                if (std::fabs(r->delta0 - sep) > 1e-6 * scale) return c.fail("wrong-gap", when + fmt(": contact %d-%d has gap %.9g, geometry says %.9g", A->gid, B->gid, r->delta0, sep));
                double tA = ptseg(A->pos + oA, A->pos - A->dir() * hA, A->pos + A->dir() * hA), tB = ptseg(B->pos + oB, B->pos - B->dir() * hB, B->pos + B->dir() * hB), dl = norm(lA - lB);
                if (tA > 1e-6 * scale || tB > 1e-6 * scale || std::fabs(dl - d) > 1e-6 * scale || norm(nA - (lA - lB) * (1 / dl)) > 1e-6) return c.fail("wrong-contact", when + fmt(": contact %d-%d points %s %s normal %s do not lie on the axes at their distance %.9g", A->gid, B->gid, str(lA).c_str(), str(lB).c_str(), str(nA).c_str(), d));
                hit = (int)k; break;
            }
            if (hit < 0 && sure) return c.fail("missed-contact", when + fmt(": particles %d and %d (image %d %d %d) are %.6g apart, below the recording distance %.6g, and no contact is recorded", A->gid, B->gid, ix, iy, iz, sep, thr));
            if (hit >= 0) { left.erase(left.begin() + hit); c.probe("contact"); if (A->owner != B->owner) c.probe("contact across ranks"); if (ix || iy || iz) c.probe("contact across the periodic boundary"); if (sph(*A) != sph(*B)) c.probe("contact sphere-rod"); else if (!sph(*A)) c.probe("contact rod-rod"); c.nontrivial = true; if (sep < 0) c.probe("overlap"); }
        }
        if (!left.empty()) return c.fail("spurious-contact", when + fmt(": contact %d-%d recorded %zu more time(s) than there are close images", A->gid, B->gid, left.size()));
    }
    if (used != nGot) return c.fail("spurious-contact", when + ": a contact of a particle with itself");
}
static void walls(Ctx &c, const Sys &s, const Frame &f, const std::vector<CRec> &con, const std::string &when) {
    std::map<int, std::vector<const CRec *>> got; for (auto &b : con) if (b.oneSide) { if (b.gidI != b.gidJ || b.bil) return c.fail("wall-record", when + ": one-sided constraint between two particles"); got[b.gidI].push_back(&b); }
    for (auto *p : f.all) {
        auto &left = got[p->gid]; double rad = sph(*p) ? 0.5 * p->Lc + p->rc : p->rc;
        for (auto &b : s.bs) for (int e = sph(*p) ? 0 : -1; e <= (sph(*p) ? 0 : 1); e += 2) {
            V3 q = p->pos + p->dir() * (0.5 * e * p->Lc), n; double d = wallDist(b, q, n), thr = (1 + 2 * s.colBuf) * rad, tol = 1e-7 * (std::fabs(d) + rad + b.R); bool any = false; V3 ax{0, 0, 0};
            if (b.type != "wall") { V3 w = q - b.c; if (b.type == "tube") { ax = unit(b.a); w = w - ax * dot(w, ax); } any = norm(w) < 1e-9 * b.R; if (any) d = b.inside ? b.R : -b.R; } // on the axis or in the centre: any direction across will do
            if (std::fabs(d) < 1e-12) c.probe("end exactly on a boundary"); if (any) c.probe("end on a tube axis or shell centre");
            bool sure = d < thr - tol, maybe = d < thr + tol; if (!maybe) continue;
            int hit = -1; for (size_t k = 0; k < left.size(); k++) if (near(left[k]->delta0, d - rad, 1e-6 * (std::fabs(d) + rad)) && (any ? near(norm(left[k]->nI), 1, 1e-6) && std::fabs(dot(left[k]->nI, ax)) < 1e-6 : near(left[k]->nI, n, 1e-6)) && near(left[k]->pI, q - p->pos, 1e-7 * (rad + p->Lc)) && near(left[k]->lI, q, 1e-7 * (norm(q) + 1))) { hit = (int)k; break; }
            if (hit < 0 && sure) return c.fail("missed-wall", when + fmt(": end %d of particle %d is at signed distance %.6g from a %s (radius %.6g, recorded below %.6g) and no matching wall contact is recorded", e, p->gid, d, b.type.c_str(), rad, thr));
            if (hit >= 0) { left.erase(left.begin() + hit); c.probe("wall contact"); c.probe("wall contact with " + b.type); if (d < 0) c.probe("end outside the wall"); c.nontrivial = true; }
        }
        if (!left.empty()) return c.fail("spurious-wall", when + fmt(": particle %d has %zu wall contact(s) that match no boundary (gap %.6g normal %s)", p->gid, left.size(), left[0]->delta0, str(left[0]->nI).c_str()));
    }
}
static void links(Ctx &c, const Sys &s, const std::vector<std::pair<int, int>> &ls, const Frame &f, const std::vector<CRec> &con, const std::string &when) {
    std::vector<const CRec *> left; for (auto &b : con) if (b.bil) left.push_back(&b);
    for (auto &l : ls) {
        const PRec *A = f.gid.at(l.first), *B = f.gid.at(l.second); V3 pb = B->pos; bool amb = false; bool wrapped = false;
        for (int k = 0; k < 3; k++) if (s.pbc[k]) { double w = s.edge(k), m = std::round((A->pos[k] - pb[k]) / w); if (m != 0) wrapped = true; pb[k] += w * m; if (std::fabs(A->pos[k] - pb[k]) > 0.5 * w - 1e-6 * w) amb = true; }
        V3 P = A->end(1), Q = pb - B->dir() * (0.5 * B->L); double d = norm(P - Q), gap = d - A->r - B->r - s.gap; size_t hit = left.size();
        for (size_t k = 0; k < left.size(); k++) if (left[k]->gidI == l.first && left[k]->gidJ == l.second) { hit = k; break; }
        if (hit == left.size()) return c.fail("missed-link", when + fmt(": link %d -> %d has no constraint", l.first, l.second));
        const CRec *r = left[hit]; left.erase(left.begin() + hit); double sc = d + A->L + B->L + 1e-3;
        if (r->oneSide || r->kappa != s.kappa) return c.fail("link-kind", when + fmt(": link %d -> %d one-sided %d stiffness %g, configured %g", l.first, l.second, r->oneSide, r->kappa, s.kappa));
        if (!amb && (!near(r->delta0, gap, 1e-7 * sc) || !near(r->pI, P - A->pos, 1e-7 * sc) || !near(r->pJ, Q - pb, 1e-7 * sc) || (d > 1e-6 && !near(r->nI, (P - Q) * (1 / d), 1e-5)))) return c.fail("wrong-link", when + fmt(": link %d -> %d has gap %.9g at %s %s, the nearest-image plus and minus ends are %.9g apart at %s %s", l.first, l.second, r->delta0, str(r->pI).c_str(), str(r->pJ).c_str(), gap, str(P - A->pos).c_str(), str(Q - pb).c_str()));
        c.probe("link"); if (A->owner != B->owner) c.probe("link across ranks"); if (wrapped) c.probe("link across the periodic boundary"); c.nontrivial = true;
    }
    if (!left.empty()) return c.fail("spurious-link", when + fmt(": bilateral constraint %d -> %d is not one of the links (or is recorded twice)", left[0]->gidI, left[0]->gidJ));
}
template <class F> static void perStep(const TestCase &t, Ctx &c, F fn) {
    Sys s = sysOf(t); int nr = (int)t.i("nranks", 1); JobResult r = c.run(sysJob(t, s)); if (!c.needOk(r)) return;
    auto prep = frames(r, "prep", nr), post = frames(r, "post", nr); auto con = conFrames(r, nr); if (prep.size() != (size_t)t.i("steps") || con.size() != prep.size()) return c.fail("missing", "a rank stopped reporting");
    for (size_t i = 0; i < prep.size() && !c.bad(); i++) { std::string when = fmt("step %zu", i); configured(s, prep[i]); checkBlocks(c, con[i], prep[i], when); if (!c.bad()) fn(s, prep[i], con[i], when); }
}
static void exactSpots(Rng &r, TestCase &t) { // particles placed exactly on a boundary, on a tube axis or in the centre of a shell
    Sys s = sysOf(t); double em = std::min(s.edge(0), std::min(s.edge(1), s.edge(2))); auto q = [](double x) { return std::round(x * 64) / 64; }; int g = 0; for (auto &p : s.ps) g = std::max(g, p.gid + 1);
    V3 mid = (s.lo + s.hi) * 0.5, o; for (int k = 0; k < 3; k++) o[k] = q(mid[k] + r.u(-0.25, 0.25) * em); const int k = (int)r.below(3), kind = (int)r.below(3); V3 a{0, 0, 0}; a[k] = r.p(0.5) ? 1 : -1; const double R = std::max(0.125, q(em * r.u(0.15, 0.4)));
    if (kind == 0) t.items.push_back(fmt("B wall %.17g %.17g %.17g %.17g %.17g %.17g", o.x, o.y, o.z, a.x, a.y, a.z)); else if (kind == 1) t.items.push_back(fmt("B tube %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d", o.x, o.y, o.z, a.x, a.y, a.z, R, (int)r.p(0.7))); else t.items.push_back(fmt("B sphere %.17g %.17g %.17g %.17g %d", o.x, o.y, o.z, R, (int)r.p(0.7)));
    for (int i = 0, n = r.in(1, 3); i < n; i++) { V3 c = o; const int k2 = (k + 1) % 3; const double rad = em * r.u(0.02, 0.05); double L = r.p(0.5) ? 0 : q(em * r.u(0.1, 0.2)) + 0.03125; V3 d{0, 0, 0}; d[r.p(0.6) ? k : k2] = 1;
        if (kind == 0) { c[k2] += q(r.u(-0.15, 0.15) * em); if (L > 0 && d[k] != 0 && r.p(0.7)) c[k] += (r.p(0.5) ? 0.5 : -0.5) * L; } // an end on the wall
        else if (kind == 1) { c[k] += q(r.u(-0.2, 0.2) * em); if (r.p(0.3)) c[k2] += R; } else if (r.p(0.4)) c[k] += R;
        for (int m = 0; m < 3; m++) if (c[m] <= s.lo[m] || c[m] >= s.hi[m]) c[m] = o[m]; t.items.push_back(itemP('C', g++, rad, c, d, L, -1)); }
    t.seti("presteps", 0);
}
static void genWalls(Rng &r, TestCase &t) {
    Sys s = sysOf(t); int n = r.in(1, 3); V3 mid = (s.lo + s.hi) * 0.5; double em = std::min(s.edge(0), std::min(s.edge(1), s.edge(2)));
    for (int i = 0; i < n; i++) { int k = (int)r.below(4); V3 o = mid + V3{r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)} * (0.3 * em);
        if (k < 2) { V3 d = r.p(0.5) ? V3{double(r.in(0, 1) * 2 - 1), 0, 0} : rdir(r); if (r.p(0.4)) d = {0, 0, r.p(0.5) ? 1.0 : -1.0}; t.items.push_back(fmt("B wall %.17g %.17g %.17g %.17g %.17g %.17g", o.x, o.y, o.z, d.x * r.u(0.5, 3), d.y * 1.0, d.z * 1.0)); }
        else if (k == 2) { V3 d = r.p(0.3) ? V3{0, 0, 1} : rdir(r) * r.u(0.5, 3); t.items.push_back(fmt("B tube %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d", o.x, o.y, o.z, d.x, d.y, d.z, em * r.u(0.15, 0.6), (int)r.below(2))); }
        else t.items.push_back(fmt("B sphere %.17g %.17g %.17g %.17g %d", o.x, o.y, o.z, em * r.u(0.15, 0.8), (int)r.below(2))); }
}
