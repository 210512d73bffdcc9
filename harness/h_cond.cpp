// Conditions on surfaces, fictitious domain, invariances, repeatability.
#include "model.h"
#include <omp.h>
#include <iostream>
#include "queso/utilities/mesh_utilities.h"
using namespace model;
using Model = EmbeddedModel;
namespace {
V AreaVec(const geo::Mesh& b) { V s{0,0,0}; for (auto& t : b.t) s = geo::Add(s, geo::Mul(geo::CrossP(geo::Sub(b.v[t[1]], b.v[t[0]]), geo::Sub(b.v[t[2]], b.v[t[0]])), 0.5)); return s; }
Unique<Dict> CondSettings(size_t id) { auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); p->SetValue(ConditionSettings::condition_id, IndexType(id)); p->SetValue(ConditionSettings::condition_type, std::string("X")); p->SetValue(ConditionSettings::input_filename, std::string("none.stl")); p->CheckRequired(); return p; }

/// Surface patch for a condition, together with what it is.
geo::Mesh GenPatch(pbt::Src& s, pbt::Case& c, const geo::Mesh& solid, const Grid& g) {
    geo::Mesh m; int k = int(s.Below(5)); V L = geo::Sub(g.hi, g.lo);
    if (k == 0) { m = solid; c.Tag("patch:whole"); }
    else if (k == 1) { m.v = solid.v; size_t a = s.Below(solid.t.size()), n = 1+s.Below(solid.t.size()); for (size_t i = 0; i < n; ++i) m.t.push_back(solid.t[(a+i) % solid.t.size()]); c.Tag("patch:part"); }
    else if (k == 2) { // flat sheet in a plane of the grid or between two planes, possibly larger than the grid
        int d = int(s.Below(3)), a = (d+1)%3, b = (d+2)%3; double x = s.Chance(0.6) ? Grid::At(g.lo[d], g.hi[d], s.Below(g.n[d]+1), g.n[d]) : s.Real(g.lo[d], g.hi[d]); V q[4]; double u0, u1, v0, v1;
        if (s.Chance(0.4)) { u0 = g.lo[a]; u1 = g.hi[a]; v0 = g.lo[b]; v1 = g.hi[b]; } else { u0 = g.lo[a]+L[a]*s.Real(-0.2, 0.5); u1 = u0+L[a]*s.Real(0.1, 0.9); v0 = g.lo[b]+L[b]*s.Real(-0.2, 0.5); v1 = v0+L[b]*s.Real(0.1, 0.9); }
        double us[4] = {u0,u1,u1,u0}, vs[4] = {v0,v0,v1,v1}; for (int i = 0; i < 4; ++i) { q[i][d] = x; q[i][a] = us[i]; q[i][b] = vs[i]; m.Vtx(q[i]); } m.Quad(0, 1, 2, 3, s.Chance(0.5)); if (s.Chance(0.5)) geo::Invert(m); c.Tag("patch:flat"); }
    else if (k == 3) { int n = int(s.Int(1, 8)); for (int i = 0; i < n; ++i) { int id[3]; for (int j = 0; j < 3; ++j) { V p; for (int d = 0; d < 3; ++d) p[d] = g.lo[d]+L[d]*s.Real(-0.2, 1.2); id[j] = m.Vtx(p); } m.Tri(id[0], id[1], id[2]); } c.Tag("patch:soup"); }
    else { std::ostringstream d; geo::SolidOpt so; so.allowAligned = true; so.allowMulti = false; m = geo::GenSolid(s, d, so); V lo, hi; geo::Bounds(m, lo, hi); double f = s.Real(0.3, 1.1); V ctr; for (int e = 0; e < 3; ++e) ctr[e] = g.lo[e]+L[e]*s.Real(0.2, 0.8); double sz = std::max({hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2]}); for (auto& p : m.v) for (int e = 0; e < 3; ++e) p[e] = ctr[e]+(p[e]-0.5*(lo[e]+hi[e]))/sz*f*L[e]; c.Tag("patch:other-solid"); }
    return m;
}
/// Parts of a surface per cell. A triangle in a plane of the grid belongs to both adjacent cells (listed in `shared`).
struct CellPart { double area = 0, shared = 0; V n{0,0,0}; };
void CheckCondition(pbt::Case& c, const Model& em, const Grid& g, const Model::ConditionType& cond, const geo::Mesh& m, size_t id) {
    double h = 0, a0 = 1e300; for (int d = 0; d < 3; ++d) { double e = (g.hi[d]-g.lo[d])/double(g.n[d]); h = std::max(h, e); a0 = std::min(a0, e); } double scale = h; for (int d = 0; d < 3; ++d) scale = std::max({scale, std::fabs(g.lo[d]), std::fabs(g.hi[d])}); double T = 1e-9*scale+1e-11, tolA = 1e-7*h*h + T*h*20;
    std::vector<CellPart> ex(g.Num()); double inside = 0, total = geo::Area(m);
    for (auto& t : m.t) { const V &p = m.v[t[0]], &q = m.v[t[1]], &r = m.v[t[2]]; bool al = false; for (int d = 0; d < 3; ++d) for (size_t i = 0; i <= g.n[d]; ++i) { double x = Grid::At(g.lo[d], g.hi[d], i, g.n[d]); al = al || (std::fabs(p[d]-x) <= T && std::fabs(q[d]-x) <= T && std::fabs(r[d]-x) <= T); }
        V n = geo::CrossP(geo::Sub(q, p), geo::Sub(r, p)); double l = geo::Len(n); if (l == 0) continue; n = geo::Mul(n, 1/l);
        { V lo = g.lo, hi = g.hi; for (int d = 0; d < 3; ++d) { lo[d] -= T*al; hi[d] += T*al; } inside += geo::PolyArea(geo::ClipBox({p, q, r}, lo, hi)); }
        for (size_t i = 0; i < g.Num(); ++i) { auto k = g.Ijk(i); V lo, hi; g.Cell(k[0], k[1], k[2], lo, hi); bool far = false; for (int d = 0; d < 3; ++d) far = far || std::min({p[d],q[d],r[d]}) > hi[d]+T || std::max({p[d],q[d],r[d]}) < lo[d]-T; if (far) continue;
            V lo2 = lo, hi2 = hi; if (al) for (int d = 0; d < 3; ++d) { lo2[d] -= T; hi2[d] += T; } double a = geo::PolyArea(geo::ClipBox({p, q, r}, lo2, hi2)); if (al) ex[i].shared += a; else { ex[i].area += a; ex[i].n = geo::Add(ex[i].n, geo::Mul(n, a)); } } }
    std::vector<char> act(g.Num(), 0); for (auto e : em.GetElementViews()) act[e.GetId()-1] = 1;
    double sum = 0, inActive = 0; std::vector<int> seen(g.Num(), 0); std::vector<double> got(g.Num(), 0); size_t nseg = 0;
    c.Check(cond.NumberOfSegments() == cond.GetSegments().size(), "segment-count", "number of segments");
    for (auto& seg : cond.GetSegments()) { ++nseg; auto& tm = seg.GetTriangleMesh(); auto b = geo::FromView(tm.View()); double a = geo::Area(b); sum += a; c.Check(!b.t.empty(), "empty-segment", "segment without triangles");
        V lo, hi; geo::Bounds(b, lo, hi); size_t idx = 0, mul = 1; for (int d = 0; d < 3; ++d) { double ctr = 0.5*(lo[d]+hi[d])-(hi[d]-lo[d] < 4*T ? 2*T : 0); double x = (ctr-g.lo[d])/(g.hi[d]-g.lo[d])*double(g.n[d]); size_t i = size_t(std::min<double>(std::max(0.0, std::floor(x)), double(g.n[d]-1))); idx += i*mul; mul *= g.n[d]; }
        auto& par = seg.GetParentElement(); c.Check(par.has_value() == seg.IsInActiveElement(), "parent-flag", "parent and flag disagree");
        if (par) { size_t pid = par->GetId()-1; c.CheckF(pid < g.Num() && act[pid], "parent-inactive", [&]{ return "parent " + std::to_string(pid); }); auto pb = par->GetCellBounds<CoordinateSpace::global>(); for (int d = 0; d < 3; ++d) c.CheckF(lo[d] >= pb.lower[d]-T*4 && hi[d] <= pb.upper[d]+T*4, "outside-parent", [&]{ return "segment " + geo::Str(lo) + geo::Str(hi) + " leaves its parent cell " + std::to_string(pid); }); idx = pid; inActive += a; }
        auto k = g.Ijk(idx); V cl, ch; g.Cell(k[0], k[1], k[2], cl, ch); for (int d = 0; d < 3; ++d) c.CheckF(lo[d] >= cl[d]-T*4 && hi[d] <= ch[d]+T*4, "outside-cell", [&]{ return "segment " + geo::Str(lo) + geo::Str(hi) + " spans more than cell " + std::to_string(idx); });
        double ex_a = ex[idx].area, ex_s = ex[idx].shared; if (a > tolA) c.CheckF(a >= ex_a-tolA && a <= ex_a+ex_s+tolA, "segment-area", [&]{ std::ostringstream o; o.precision(12); o << "cell " << idx << " area " << a << " exact " << ex_a << " (+" << ex_s << " shared)"; return o.str(); });
        if (ex_s == 0 && a > tolA) { V n = AreaVec(b); c.CheckF(geo::Len(geo::Sub(n, ex[idx].n)) <= tolA*2, "segment-normal", [&]{ return "cell " + std::to_string(idx) + " area vector " + geo::Str(n) + " exact " + geo::Str(ex[idx].n); }); }
        if (act[idx] && a > tolA && ex_s == 0) c.CheckF(par.has_value(), "parent-missing", [&]{ return "segment in active cell " + std::to_string(idx) + " without parent"; });
        if (a > tolA) { if (ex_s == 0 || par) ++seen[idx]; got[idx] += a; c.CheckF(seen[idx] <= 1, "two-segments", [&]{ return "cell " + std::to_string(idx); }); } }
    for (size_t i = 0; i < g.Num(); ++i) if (ex[i].area > 3*tolA && ex[i].shared == 0) c.CheckF(seen[i] == 1, "segment-missing", [&]{ std::ostringstream o; o << "cell " << i << " contains area " << ex[i].area << " but no segment"; return o.str(); });
    c.CheckF(std::fabs(sum-inside) <= tolA*(5+double(g.Num())), "partition", [&]{ std::ostringstream o; o.precision(12); o << "segments cover " << sum << " of " << inside << " inside the grid (whole surface " << total << ")"; return o.str(); });
    auto& info = cond.GetInfo(); info.CheckRequired(); c.Check(info.GetRequiredValue<IndexType>(ConditionInfo::condition_id) == id, "info-id", "condition id"); double sa = info.GetRequiredValue<double>(ConditionInfo::surf_area); c.CheckF(std::fabs(sa-total) <= 1e-9*total, "info-area", [&]{ std::ostringstream o; o << sa << " vs " << total; return o.str(); });
    double pc = info.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain); c.CheckF(std::fabs(pc-100*inActive/total) <= 1e-7*100, "info-percentage", [&]{ std::ostringstream o; o << pc << " vs " << 100*inActive/total; return o.str(); });
    c.Count("segments", nseg);
}
void Cond(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 200; if (s.Chance(0.3)) { so.scaleHi = 3000; so.scaleLo = 100; } auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 1; o.maxN = 4; o.maxCells = 48; auto g = GenGrid(s, lo, hi, o); g.minTri = 10; c.desc << g.Str(); c.Tag("solid:" + m.name);
    // The volume is either the solid or (cheap) a box.
    bool cheap = s.Chance(0.7); V bl, bh; for (int d = 0; d < 3; ++d) { double L = g.hi[d]-g.lo[d]; size_t i = s.Below(g.n[d]); bl[d] = g.lo[d]+L*(double(i)+s.Pick(std::vector<double>{0, 0, 0.3}))/double(g.n[d]); bh[d] = std::min(g.hi[d], bl[d]+L*s.Pick(std::vector<double>{1, 1, 2, 0.6, 1.4})/double(g.n[d])); }
    auto vol = cheap ? geo::BoxMesh(bl, bh, 1, 1, 1, 0) : m; c.desc << (cheap ? " volume: box " + geo::Str(bl) + geo::Str(bh) : "");
    auto em = Model::Create(Settings(g)); { auto q = geo::ToQueso(vol); em.CreateVolume(q.View()); }
    size_t n = size_t(s.Int(1, 2)); std::vector<geo::Mesh> ms; std::vector<Unique<Dict>> sets; std::vector<size_t> ids; 
    for (size_t i = 0; i < n; ++i) { auto b = GenPatch(s, c, m, g); double A = geo::Area(b), L = geo::Len(geo::Sub(g.hi, g.lo)); if (A < 1e-4*L*L) throw pbt::Discard{}; bool bad = false; for (auto& t : b.t) bad = bad || geo::TriArea(b.v[t[0]], b.v[t[1]], b.v[t[2]]) < 1e-8*L*L; if (bad) throw pbt::Discard{}; V blo, bhi; geo::Bounds(b, blo, bhi); ms.push_back(b); ids.push_back(s.Below(5)); c.desc << " patch " << b.t.size() << " tris " << geo::Str(blo) << geo::Str(bhi); }
    for (size_t i = 0; i < n; ++i) { sets.push_back(CondSettings(ids[i])); auto q = geo::ToQueso(ms[i]); em.CreateCondition(q.View(), *sets.back()); }
    auto& cs = em.GetConditions(); c.Check(cs.size() == n, "condition-count", "number of conditions"); for (size_t i = 0; i < n; ++i) { c.Check(&cs[i].GetSettings() == sets[i].get() || cs[i].GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id) == ids[i], "settings", "settings of the condition"); CheckCondition(c, em, g, cs[i], ms[i], ids[i]); }
    c.Nontrivial(c.counts["segments"] > 1);
}
PBT_PROP("Q11", "conditions", "at least two segments", 24000, 600000, 60, Cond);

// ---------------------------------------------------------------- common: contents of a model
struct Pt { V x; double w; };
struct Cell { bool trimmed = false; std::vector<Pt> pts; };
std::map<size_t, Cell> Contents(const Model& em) { std::map<size_t, Cell> r; for (auto e : em.GetElementViews()) { auto& c = r[e.GetId()-1]; c.trimmed = e.IsTrimmed(); for (auto& ip : e.GetIntegrationPoints()) c.pts.push_back({V{ip.Point()[0], ip.Point()[1], ip.Point()[2]}, ip.Weight()}); } return r; }
bool Less(const Pt& a, const Pt& b) { return a.x != b.x ? a.x < b.x : a.w < b.w; }

// ---------------------------------------------------------------- fictitious domain
void Fictitious(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 3; o.maxN = 3; o.maxCells = 27; auto g = GenGrid(s, lo, hi, o); g.minTri = 50; c.Tag("solid:" + m.name);
    double alpha = s.Pick(std::vector<double>{1e-4, 1e-8, 0.5, 1, 1e-2}); c.desc << g.Str() << " alpha=" << alpha;
    auto ent = s.Below(1ull << 30); pbt::FixEntropy(ent); auto q = geo::ToQueso(m); auto e0 = Model::Create(Settings(g)); e0.CreateVolume(q.View()); g.alpha = alpha; auto e1 = Model::Create(Settings(g)); e1.CreateVolume(q.View());
    auto a = Contents(e0), b = Contents(e1); double L = 1e300; for (int d = 0; d < 3; ++d) L = std::min(L, (g.hi[d]-g.lo[d])/double(g.n[d])); size_t extraN = 0;
    for (auto& [idx, cell] : a) { auto it = b.find(idx); c.CheckF(it != b.end() && it->second.trimmed == cell.trimmed, "cell-lost", [&]{ return "cell " + std::to_string(idx); });
        auto& other = it->second; if (!cell.trimmed) { c.CheckF(other.pts.size() == cell.pts.size(), "full-cell-changed", [&]{ return "cell " + std::to_string(idx); }); for (size_t i = 0; i < cell.pts.size(); ++i) c.Check(other.pts[i].x == cell.pts[i].x && other.pts[i].w == cell.pts[i].w, "full-cell-changed", "points of a full cell"); continue; }
        // The regular rule is a part of the new one.
        auto p0 = cell.pts, p1 = other.pts; std::sort(p0.begin(), p0.end(), Less); std::sort(p1.begin(), p1.end(), Less); std::vector<Pt> extra; std::set_difference(p1.begin(), p1.end(), p0.begin(), p0.end(), std::back_inserter(extra), Less);
        c.CheckF(extra.size()+p0.size() == p1.size(), "regular-points-changed", [&]{ return "cell " + std::to_string(idx) + ": " + std::to_string(p0.size()) + " regular points, " + std::to_string(p1.size()) + " in total, " + std::to_string(extra.size()) + " new"; });
        auto k = g.Ijk(idx); V ul, uh; g.CellUvw(k[0], k[1], k[2], ul, uh); double vol = (uh[0]-ul[0])*(uh[1]-ul[1])*(uh[2]-ul[2]); std::vector<double> x[3], w[3]; for (int d = 0; d < 3; ++d) geo::GaussLegendre(int(g.p[d])+1, x[d], w[d]);
        std::vector<char> used(extra.size(), 0); double T = 1e-9; for (size_t i = 0; i < x[0].size(); ++i) for (size_t j = 0; j < x[1].size(); ++j) for (size_t l = 0; l < x[2].size(); ++l) { V u{ul[0]+(uh[0]-ul[0])*x[0][i], ul[1]+(uh[1]-ul[1])*x[1][j], ul[2]+(uh[2]-ul[2])*x[2][l]}; double ew = w[0][i]*w[1][j]*w[2][l]*vol*alpha; V gx = ToGlobal(g, idx, u); bool in = geo::Winding(m, gx) > 0.5; bool near = geo::DistToMesh(m, gx) < 1e-6*L; bool hit = false;
            for (size_t n = 0; n < extra.size(); ++n) { bool same = true; for (int d = 0; d < 3; ++d) same = same && std::fabs(extra[n].x[d]-u[d]) < T*(uh[d]-ul[d])+1e-12*std::fabs(u[d]); if (same && !used[n]) { used[n] = 1; hit = true; c.CheckF(std::fabs(extra[n].w-ew) <= 1e-9*ew, "alpha-weight", [&]{ std::ostringstream o; o << "cell " << idx << " weight " << extra[n].w << " expected " << ew; return o.str(); }); break; } }
            if (!near) c.CheckF(hit == !in, in ? "alpha-point-inside" : "alpha-point-missing", [&]{ return "cell " + std::to_string(idx) + " Gauss point " + geo::Str(gx) + (in ? " lies in the material" : " lies outside of the material"); }); }
        for (size_t n = 0; n < extra.size(); ++n) c.CheckF(used[n], "alpha-point-stray", [&]{ return "cell " + std::to_string(idx) + " point " + geo::Str(extra[n].x) + " is not a Gauss point"; }); extraN += extra.size(); }
    for (auto& [idx, cell] : b) if (!a.count(idx)) c.Check(cell.trimmed, "cell-invented", "cell active only with a fictitious domain"); // (a cut cell whose regular rule failed)
    c.Count("fictitious points", extraN); c.Nontrivial(extraN > 0);
}
PBT_PROP("Q36", "fictitious", "at least one point in the fictitious domain", 1500, 60000, 60, Fictitious);

// ---------------------------------------------------------------- invariance
void Invariance(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 250; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 2; o.maxN = 4; o.maxCells = 36; auto g = GenGrid(s, lo, hi, o); g.minTri = 50; g.minVol = 1e-3; c.Tag("solid:" + m.name); c.desc << g.Str();
    auto m2 = m; auto g2 = g; int kind = int(s.Below(6)); std::array<int,3> perm{0,1,2}; V t{0,0,0}; double f = 1; std::array<int,3> flip{0,0,0}; bool soup = false; c.Tag("kind:" + std::to_string(kind));
    double size = std::max({hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2]});
    if (kind == 0) { for (int d = 0; d < 3; ++d) t[d] = size*double(s.Int(-6, 6)); c.desc << " translate " << geo::Str(t); }
    else if (kind == 1) { f = std::ldexp(1.0, int(s.Int(-4, 4))); if (s.Chance(0.5)) f *= s.Real(0.5, 2); c.desc << " scale " << f; }
    else if (kind == 2) { int r = int(s.Below(6)); int ps[6][3] = {{1,2,0},{2,0,1},{1,0,2},{0,2,1},{2,1,0},{1,2,0}}; for (int d = 0; d < 3; ++d) perm[d] = ps[r][d]; c.desc << " permute " << perm[0] << perm[1] << perm[2]; }
    else if (kind == 3) { flip[s.Below(3)] = 1; if (s.Chance(0.5)) flip[s.Below(3)] = 1; c.desc << " mirror " << flip[0] << flip[1] << flip[2]; }
    else if (kind == 4) { soup = s.Chance(0.5); for (size_t i = m2.t.size(); i > 1; --i) std::swap(m2.t[i-1], m2.t[s.Below(i)]); for (auto& tr : m2.t) { int k = int(s.Below(3)); std::rotate(tr.begin(), tr.begin()+k, tr.end()); } c.desc << " reorder" << (soup ? " soup" : ""); }
    else { std::vector<std::array<int,3>> nt; for (auto& tr : m2.t) { if (nt.size() < 400 && s.Chance(0.4)) { double a = s.Real(0.2, 0.6), b = s.Real(0.1, 0.9)*(1-a); V p = geo::Add(m2.v[tr[0]], geo::Add(geo::Mul(geo::Sub(m2.v[tr[1]], m2.v[tr[0]]), a), geo::Mul(geo::Sub(m2.v[tr[2]], m2.v[tr[0]]), b))); int q = m2.Vtx(p); nt.push_back({tr[0], tr[1], q}); nt.push_back({tr[1], tr[2], q}); nt.push_back({tr[2], tr[0], q}); } else nt.push_back(tr); } m2.t = nt; c.desc << " subdivide"; }
    // x2[perm[d]] = +-f*x[d]+t
    int neg = 0; for (int d = 0; d < 3; ++d) neg ^= flip[d]; { int inv = 0; for (int a = 0; a < 3; ++a) for (int b = a+1; b < 3; ++b) inv ^= perm[a] > perm[b]; neg ^= inv; }
    auto map = [&](const V& p) { V q; for (int d = 0; d < 3; ++d) q[perm[d]] = (flip[d] ? -f : f)*p[d]+t[perm[d]]; return q; }; for (auto& p : m2.v) p = map(p); if (neg) geo::Invert(m2);
    { V a = map(g.lo), b = map(g.hi); for (int d = 0; d < 3; ++d) { g2.lo[d] = std::min(a[d], b[d]); g2.hi[d] = std::max(a[d], b[d]); g2.n[perm[d]] = g.n[d]; g2.p[perm[d]] = g.p[d]; g2.ulo[perm[d]] = g.ulo[d]; g2.uhi[perm[d]] = g.uhi[d]; } if (s.Chance(0.3)) for (int d = 0; d < 3; ++d) { g2.ulo[d] = s.Real(-3, 3); g2.uhi[d] = g2.ulo[d]+s.Real(0.5, 4); } } // the parametric box is arbitrary
    auto e1 = Model::Create(Settings(g)); { auto q = geo::ToQueso(m); e1.CreateVolume(q.View()); } auto e2 = Model::Create(Settings(g2)); { auto q = geo::ToQueso(m2, soup); e2.CreateVolume(q.View()); }
    auto a = Contents(e1), b = Contents(e2); size_t active = 0; double cv = g.CellVol(), d1 = DetJ(g), d2 = DetJ(g2);
    for (size_t i = 0; i < g.Num(); ++i) { auto k = g.Ijk(i); std::array<size_t,3> k2; for (int d = 0; d < 3; ++d) k2[perm[d]] = flip[d] ? g.n[d]-1-k[d] : k[d]; size_t j = (k2[2]*g2.n[1]+k2[1])*g2.n[0]+k2[0]; auto x = a.find(i), y = b.find(j);
        double v1 = 0, v2 = 0; V c1{0,0,0}, c2{0,0,0}; if (x != a.end()) { ++active; for (auto& p : x->second.pts) { v1 += p.w*d1; c1 = geo::Add(c1, geo::Mul(map(ToGlobal(g, i, p.x)), p.w*d1*f*f*f)); } } if (y != b.end()) for (auto& p : y->second.pts) { v2 += p.w*d2/(f*f*f); c2 = geo::Add(c2, geo::Mul(ToGlobal(g2, j, p.x), p.w*d2)); }
        double tol = 2e-6*cv; bool slim = (x == a.end() || y == b.end()) && std::max(v1, v2) <= 1.1e-3*cv; if (slim) continue;
        c.CheckF((x == a.end()) == (y == b.end()), "activity", [&]{ std::ostringstream o; o << "cell " << i << "/" << j << " active " << (x != a.end()) << " vs " << (y != b.end()) << ", volume fraction " << v1/cv << " vs " << v2/cv; return o.str(); });
        c.CheckF(std::fabs(v1-v2) <= tol, "volume", [&]{ std::ostringstream o; o << "cell " << i << "/" << j << " volume fraction " << v1/cv << " vs " << v2/cv; return o.str(); });
        if (x != a.end()) { double len = 0; for (int d = 0; d < 3; ++d) len = std::max({len, std::fabs(g2.lo[d]), std::fabs(g2.hi[d])}); for (int d = 0; d < 3; ++d) c.CheckF(std::fabs(c1[d]-c2[d]) <= tol*f*f*f*len*2, "first-moment", [&]{ return "cell " + std::to_string(i) + " " + geo::Str(c1) + " vs " + geo::Str(c2); }); }
        if (x != a.end() && x->second.trimmed == y->second.trimmed && !x->second.trimmed) c.Check(x->second.pts.size() == y->second.pts.size(), "full-points", "number of points of a full cell"); }
    c.Count("active cells", active); c.Nontrivial(active > 1);
}
PBT_PROP("Q29", "invariance", "at least two active cells", 3000, 120000, 60, Invariance);

// ---------------------------------------------------------------- repeatability
void Repeat(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 250; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 2; o.maxN = 5; o.maxCells = 60; o.vary = true; auto g = GenGrid(s, lo, hi, o); g.minTri = std::min<size_t>(g.minTri, 100); c.Tag("solid:" + m.name);
    if (s.Chance(0.25)) { g.method = s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2}); g.fe = false; g.p = {2, 2, 2}; } bool ggq = g.method == IntegrationMethod::ggq_optimal || g.method == IntegrationMethod::ggq_reduced_1 || g.method == IntegrationMethod::ggq_reduced_2;
    c.desc << g.Str(); int threads = int(s.Int(2, 8)); uint64_t e1 = s.Below(1ull << 30), e2 = s.Below(1ull << 30); c.desc << " threads=" << threads; auto q = geo::ToQueso(m); auto patch = GenPatch(s, c, m, g); auto pq = geo::ToQueso(patch); bool degenerate = false; for (auto& t : patch.t) degenerate = degenerate || geo::TriArea(patch.v[t[0]], patch.v[t[1]], patch.v[t[2]]) < 1e-10; auto cs = CondSettings(7);
    using Tris = std::vector<std::array<V,3>>; std::map<size_t, Cell> ref; std::vector<std::pair<size_t, Tris>> refSeg; double refVol = 0; std::string refState;
    for (int run = 0; run < 3; ++run) { omp_set_num_threads(run == 0 ? 1 : threads); pbt::FixEntropy(run == 2 ? e2 : e1); auto em = Model::Create(Settings(g)); em.CreateVolume(q.View()); if (!degenerate) em.CreateCondition(pq.View(), *cs); omp_set_num_threads(1);
        auto cur = Contents(em); std::vector<std::pair<size_t, Tris>> seg; if (!degenerate) for (auto& sg : em.GetConditions()[0].GetSegments()) { auto b = geo::FromView(sg.GetTriangleMesh().View()); Tris ts; for (auto& t : b.t) ts.push_back({b.v[t[0]], b.v[t[1]], b.v[t[2]]}); seg.push_back({sg.IsInActiveElement() ? sg.GetParentElement()->GetId() : 0, ts}); } std::sort(seg.begin(), seg.end());
        auto& info = em.GetModelInfo(); auto& qi = info[MainInfo::quadrature_info]; qi.CheckRequired(); double vol = qi.GetRequiredValue<double>(QuadratureInfo::represented_volume);
        if (run == 0) { ref = cur; refSeg = seg; refVol = vol; continue; }
        c.CheckF(cur.size() == ref.size(), "active-cells", [&]{ return std::to_string(cur.size()) + " active cells instead of " + std::to_string(ref.size()); });
        for (auto& [idx, cell] : ref) { auto it = cur.find(idx); c.CheckF(it != cur.end() && it->second.trimmed == cell.trimmed, "active-cells", [&]{ return "cell " + std::to_string(idx); }); if (ggq && !cell.trimmed) continue; // the merging of full cells may depend on their order
            if (run == 2) { double v1 = 0, v2 = 0; for (auto& p : cell.pts) v1 += p.w; for (auto& p : it->second.pts) v2 += p.w; c.CheckF(std::fabs(v1-v2) <= (1e-6+20*g.residual)*v1 + 1e-8*g.CellVol()/DetJ(g), "cell-volume", [&]{ std::ostringstream o; o << "cell " << idx << " " << v1 << " vs " << v2; return o.str(); }); continue; } // other random numbers: same rule up to accuracy
            c.CheckF(it->second.pts.size() == cell.pts.size(), "points", [&]{ return "cell " + std::to_string(idx) + " has " + std::to_string(it->second.pts.size()) + " points instead of " + std::to_string(cell.pts.size()); });
            for (size_t i = 0; i < cell.pts.size(); ++i) c.CheckF(it->second.pts[i].x == cell.pts[i].x && it->second.pts[i].w == cell.pts[i].w, "points", [&]{ return "cell " + std::to_string(idx) + " point " + std::to_string(i) + " differs between runs"; }); }
        c.CheckF(std::fabs(vol-refVol) <= (run == 2 ? 1e-6+20*g.residual : 1e-10)*std::fabs(refVol) + (run == 2 ? 1e-8*g.CellVol()*g.Num() : 0), "volume", [&]{ std::ostringstream o; o << vol << " vs " << refVol; return o.str(); }); c.CheckF(seg == refSeg, "segments", [&]{ return std::to_string(seg.size()) + " vs " + std::to_string(refSeg.size()) + " condition segments or different triangles"; }); }
    c.Tag(ggq ? "ggq" : "gauss"); c.Nontrivial(ref.size() > 1);
}
PBT_PROP("Q30", "repeat", "at least two active cells", 1500, 60000, 60, Repeat);
} // namespace
