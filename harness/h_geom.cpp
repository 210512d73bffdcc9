// Geometry kernel: point-in-solid, cut domains, clipping, spatial search, overlap tests, octree.
#include "model.h"
#include "queso/embedding/clipper.h"
#include "queso/embedding/aabb_tree.h"
#include "queso/embedding/octree.h"
#include "queso/embedding/geometry_query.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "queso/containers/trimmed_element.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace model;
namespace {
double Size(const V& a, const V& b) { return std::max({b[0]-a[0], b[1]-a[1], b[2]-a[2]}); }
double MaxAbs(const V& a, const V& b) { double m = 0; for (int d = 0; d < 3; ++d) m = std::max({m, std::fabs(a[d]), std::fabs(b[d])}); return m; }
V GenPoint(pbt::Src& s, const geo::Mesh& m, const V& lo, const V& hi) {
    V p; int k = int(s.Below(6)); double L = Size(lo, hi);
    for (int d = 0; d < 3; ++d) p[d] = s.Real(lo[d]-0.1*(hi[d]-lo[d]), hi[d]+0.1*(hi[d]-lo[d]));
    if (k == 1) { auto& v = m.v[s.Below(m.v.size())]; p[s.Below(3)] = v[0]; int d = int(s.Below(3)); p[d] = v[d]; if (s.Chance(0.5)) { d = int(s.Below(3)); p[d] = v[d]; } }  // shares coordinates with a vertex
    if (k == 2) { auto& t = m.t[s.Below(m.t.size())]; const V &a = m.v[t[0]], &b = m.v[t[1]], &c = m.v[t[2]]; double u = s.Unit(), v = s.Unit(); if (u+v > 1) { u = 1-u; v = 1-v; } V n = geo::CrossP(geo::Sub(b,a), geo::Sub(c,a)); double l = geo::Len(n); double off = L*s.LogReal(1e-6, 0.3)*(s.Chance(0.5) ? 1 : -1);
        p = geo::Add(geo::Add(a, geo::Add(geo::Mul(geo::Sub(b,a), u), geo::Mul(geo::Sub(c,a), v))), geo::Mul(n, l > 0 ? off/l : 0)); } // close to the surface
    if (k == 3) p = geo::Lerp(m.v[s.Below(m.v.size())], m.v[s.Below(m.v.size())], s.Mixed(0, 1, 4)); // between two vertices
    if (k == 4) for (int d = 0; d < 3; ++d) p[d] = lo[d] + (hi[d]-lo[d])*double(s.Int(0, 8))/8; // on a regular raster
    return p;
}
// ---------------------------------------------------------------- point in solid
void PointInSolid(pbt::Src& s, pbt::Case& c) {
    auto m = geo::GenSolid(s, c.desc); V lo, hi; geo::Bounds(m, lo, hi); double L = Size(lo, hi), T = 1e-8*std::max(L, MaxAbs(lo, hi)); c.Tag("solid:" + m.name);
    bool soup = s.Chance(0.3); auto q = geo::ToQueso(m, soup); BRepOperator op(q); size_t in = 0, out = 0; c.desc << (soup ? " soup" : "");
    for (int k = 0; k < 40; ++k) { V p = GenPoint(s, m, lo, hi); double dist = geo::DistToMesh(m, p); if (dist < T) { c.Count("skipped: on the surface"); continue; }
        bool ex = geo::Winding(m, p) > 0.5, got = op.IsInside(PointType(p)); (ex ? in : out)++;
        c.CheckF(got == ex, ex ? "inside-missed" : "outside-hit", [&]{ std::ostringstream o; o << "point " << geo::Str(p) << " at distance " << dist << " is " << (ex ? "inside" : "outside"); return o.str(); }); }
    c.Count("inside", in); c.Count("outside", out); c.Nontrivial(in > 0 && out > 0);
}
PBT_PROP("Q08", "solid", "points on both sides of the surface", 40000, 800000, 60, PointInSolid);

/// Single rays, also parallel to facets: a ray may be inconclusive but never wrong.
void SingleRay(pbt::Src& s, pbt::Case& c) {
    auto m = geo::GenSolid(s, c.desc); V lo, hi; geo::Bounds(m, lo, hi); double L = Size(lo, hi), M = std::max(L, MaxAbs(lo, hi)); c.Tag("solid:" + m.name); auto q = geo::ToQueso(m, s.Chance(0.3)); GeometryQuery gq(q, true); size_t ok = 0, par = 0;
    for (int k = 0; k < 30; ++k) { V p = GenPoint(s, m, lo, hi), d; int kind = int(s.Below(4));
        if (kind == 0) for (double& x : d) x = s.Real(0.5, 1.5); else if (kind == 1) for (double& x : d) x = s.Real(-1, 1); else if (kind == 2) { d = {0,0,0}; d[s.Below(3)] = s.Chance(0.7) ? 1 : -1; if (s.Chance(0.3)) d[s.Below(3)] = s.Pick(std::vector<double>{1, -1, 0.5}); } else { auto& t = m.t[s.Below(m.t.size())]; double a = s.Real(-1, 1), b = s.Real(-1, 1); d = geo::Add(geo::Mul(geo::Sub(m.v[t[1]], m.v[t[0]]), a), geo::Mul(geo::Sub(m.v[t[2]], m.v[t[0]]), s.Chance(0.5) ? 0 : b)); }
        double l = geo::Len(d); if (!(l > 1e-6*(kind == 3 ? L : 1))) continue; for (double& x : d) x /= l; if (kind == 3 && s.Chance(0.6)) for (double& x : d) x = std::fabs(x); l = geo::Len(d);
        if (geo::DistToMesh(m, p) < 1e-7*M) { c.Count("skipped: on the surface"); continue; }
        bool amb = false, pl = false; // the ray passes an edge or runs inside of a facet
        for (auto& t : m.t) { V e1 = geo::Sub(m.v[t[1]], m.v[t[0]]), e2 = geo::Sub(m.v[t[2]], m.v[t[0]]), pv = geo::CrossP(d, e2); double det = geo::DotP(e1, pv), ar = geo::Len(geo::CrossP(e1, e2)); if (ar < 1e-11) { amb = true; break; } if (std::fabs(det) < 1e-6*ar) { pl = true; V n = geo::Mul(geo::CrossP(e1, e2), 1/ar); if (std::fabs(geo::DotP(n, geo::Sub(p, m.v[t[0]]))) < 1e-5*M) { amb = true; break; } continue; }
            V tv = geo::Sub(p, m.v[t[0]]); double u = geo::DotP(tv, pv)/det; V qv = geo::CrossP(tv, e1); double v = geo::DotP(d, qv)/det, w = geo::DotP(e2, qv)/det, eps = 1e-8*M*M/ar; if (w < -1e-7*M) continue; double mn = std::min({u, v, 1-u-v}); if (std::fabs(mn) < eps) { amb = true; break; } }
        if (amb) { c.Count("skipped: ambiguous ray"); continue; }
        auto [in, good] = gq.IsInside(Ray_AABB_primitive(Vector3d{p[0], p[1], p[2]}, Vector3d{d[0], d[1], d[2]})); par += pl; if (!good) { c.Count("inconclusive"); c.Check(pl, "inconclusive", "ray without reason for being inconclusive"); continue; } ++ok;
        bool ex = geo::Winding(m, p) > 0.5; c.CheckF(in == ex, pl ? "parallel-ray" : "ray", [&]{ return "point " + geo::Str(p) + " direction " + geo::Str(d) + (ex ? " is inside" : " is outside"); }); }
    c.Count("conclusive", ok); c.Count("parallel to a facet", par); c.Nontrivial(ok > 5);
}
PBT_PROP("Q08", "ray", "at least six conclusive rays", 40000, 800000, 60, SingleRay);
/// Plates that are thin compared to their extension: rays graze the surface and, for points at regular positions, hit its edges.
void ThinPlate(pbt::Src& s, pbt::Case& c) {
    double t = s.LogReal(1e-6, 1e-1), sx = s.Pick(std::vector<double>{0, 0.5, 1, -1, s.Real(-1, 1)}), sy = s.Pick(std::vector<double>{0, sx, -0.5, s.Real(-1, 1)}), sc = s.LogReal(0.05, 50), ov = s.Chance(0.6) ? s.Real(0.01, 0.6) : 0; int n = s.Chance(0.6) ? 1 : int(s.Int(2, 5)), rot = int(s.Below(3)); V off{0, 0, 0}; if (s.Chance(0.4)) for (double& x : off) x = s.Real(-3, 3);
    auto m = geo::BoxMesh({-ov, -ov, 0}, {1+ov, 1+ov, t}, n, n, 1, s.Below(1ull<<32)); auto map = [&](V v) { v[2] += 0.5+sx*(v[0]-0.5)+sy*(v[1]-0.5); V q; for (int d = 0; d < 3; ++d) q[(d+rot)%3] = sc*v[d]+off[(d+rot)%3]; return q; }; for (auto& v : m.v) v = map(v); c.desc << "plate t=" << t << " slopes " << sx << "," << sy << " scale " << sc << " overlap " << ov << " n=" << n << " rot " << rot << " off " << geo::Str(off);
    V lo, hi; geo::Bounds(m, lo, hi); double M = std::max(Size(lo, hi), MaxAbs(lo, hi)); auto q = geo::ToQueso(m); BRepOperator op(q); V bl = off, bu = geo::Add(off, {sc, sc, sc}); auto dom = op.pGetTrimmedDomain(PointType(bl), PointType(bu), 0, 10, true); ElementBounds eb{MakeBox(PointType(bl), PointType(bu)), MakeBox(PointType{0,0,0}, PointType{1,1,1})}; if (dom) c.Count("cut domains"); size_t in = 0, out = 0; static const double gp[] = {0.5, 0.21132486540518713, 0.78867513459481287, 0.11270166537925831, 0.88729833462074170, 0.0625, 0.25};
    for (int k = 0; k < 40; ++k) { int e = 1 << s.Below(5); double x = (double(s.Below(e))+gp[s.Below(7)])/e, y = s.Chance(0.4) ? x : s.Chance(0.3) ? 1-x : s.Chance(0.5) ? (double(s.Below(e))+gp[s.Below(7)])/e : s.Unit(), z = s.Chance(0.5) ? t*s.Real(-2, 3) : s.Chance(0.5) ? t*s.Real(0, 1) : s.Real(-0.4, 0.4); V p = map({x, y, z});
        if (geo::DistToMesh(m, p) < 1e-9*M) { c.Count("skipped: on the surface"); continue; } bool ex = geo::Winding(m, p) > 0.5; (ex ? in : out)++; c.CheckF(op.IsInside(PointType(p)) == ex, ex ? "inside-missed" : "outside-hit", [&]{ return "point " + geo::Str(p); });
        bool box = true; for (int d = 0; d < 3; ++d) box = box && p[d] > bl[d]+1e-9*M && p[d] < bu[d]-1e-9*M; if (dom && box) { bool got = dom->IsInside<CoordinateSpace::global>(PointType(p), eb); c.CheckF(got == ex, ex ? "member-missed" : "member-invented", [&]{ return "point " + geo::Str(p) + (ex ? " is in the cut domain" : " is not in the cut domain"); }); } }
    c.Count("inside", in); c.Count("outside", out); c.Nontrivial(in > 0 && out > 0);
}
PBT_PROP("Q08", "thin-plate", "points inside and outside of the plate", 30000, 800000, 60, ThinPlate);

struct Cut { geo::Mesh m; V lo, hi, blo, bhi; };
Cut GenCut(pbt::Src& s, pbt::Case& c, int maxTri = 300, bool anywhere = false) {
    Cut r; geo::SolidOpt so; so.maxTri = maxTri; r.m = geo::GenSolid(s, c.desc, so); geo::Bounds(r.m, r.lo, r.hi); c.Tag("solid:" + r.m.name); int k = anywhere && s.Chance(0.6) ? 4 : int(s.Below(4));
    if (k == 4) for (int d = 0; d < 3; ++d) { double h = (r.hi[d]-r.lo[d])*s.LogReal(0.01, 0.4); r.blo[d] = r.lo[d]+(r.hi[d]-r.lo[d]-h)*s.Real(-0.1, 1.1); r.bhi[d] = r.blo[d]+h; } // anywhere
    else if (k == 0) { auto& v = r.m.v[s.Below(r.m.v.size())]; for (int d = 0; d < 3; ++d) { double h = (r.hi[d]-r.lo[d])*s.LogReal(0.02, 0.8); double a = s.Real(0.05, 0.95); r.blo[d] = v[d]-a*h; r.bhi[d] = r.blo[d]+h; } } // around a vertex
    else if (k == 1) { auto& t = r.m.t[s.Below(r.m.t.size())]; V ctr = geo::Mul(geo::Add(geo::Add(r.m.v[t[0]], r.m.v[t[1]]), r.m.v[t[2]]), 1.0/3); for (int d = 0; d < 3; ++d) { double h = (r.hi[d]-r.lo[d])*s.LogReal(0.02, 0.8); double a = s.Real(0.05, 0.95); r.blo[d] = ctr[d]-a*h; r.bhi[d] = r.blo[d]+h; } } // around a face
    else if (k == 2) for (int d = 0; d < 3; ++d) { int n = int(s.Int(1, 5)), i = int(s.Below(n)); double L = r.hi[d]-r.lo[d]; r.blo[d] = r.lo[d]+L*i/n; r.bhi[d] = r.lo[d]+L*(i+1)/n; } // raster cell of the tight box
    else for (int d = 0; d < 3; ++d) { double L = r.hi[d]-r.lo[d]; double a = s.Real(-0.2, 1), b = s.Real(-0.1, 1.2); if (b < a) std::swap(a, b); if (b-a < 0.05) b = a+0.05; r.blo[d] = r.lo[d]+L*a; r.bhi[d] = r.lo[d]+L*b; }
    c.desc << " box " << geo::Str(r.blo) << geo::Str(r.bhi); return r;
}
bool Cuts(const Cut& r, double tol) { for (auto& t : r.m.t) if (geo::TriBoxGap(r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]], r.blo, r.bhi) < -tol) return true; return false; }

// State of an axis-aligned box.
void BoxState(pbt::Src& s, pbt::Case& c) {
    auto r = GenCut(s, c, 300, true); double T = 1e-9*std::max(Size(r.blo, r.bhi), MaxAbs(r.blo, r.bhi)); auto q = geo::ToQueso(r.m); BRepOperator op(q); double gap = 1e300;
    for (auto& t : r.m.t) gap = std::min(gap, geo::TriBoxGap(r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]], r.blo, r.bhi));
    auto st = op.GetIntersectionState(PointType(r.blo), PointType(r.bhi)); bool trimmed = op.IsTrimmed(PointType(r.blo), PointType(r.bhi)); c.Check(trimmed == (st == IntersectionState::trimmed), "inconsistent", "the two queries disagree");
    if (std::fabs(gap) <= T) { c.Count("touching"); return; }
    c.CheckF(trimmed == (gap < 0), gap < 0 ? "cut-missed" : "cut-invented", [&]{ return "gap " + std::to_string(gap); });
    if (gap > 0) { V ctr = geo::Mul(geo::Add(r.blo, r.bhi), 0.5); bool ex = geo::Winding(r.m, ctr) > 0.5; c.Check((st == IntersectionState::inside) == ex, ex ? "inside-missed" : "outside-hit", "uncut box on the wrong side"); c.Tag(ex ? "inside" : "outside"); } else c.Tag("cut");
    c.Nontrivial();
}
PBT_PROP("Q08", "box-state", "box not merely touched by the surface", 40000, 800000, 60, BoxState);

// ---------------------------------------------------------------- cut domains
void CutDomain(pbt::Src& s, pbt::Case& c) {
    auto r = GenCut(s, c); double ratio = s.Pick(std::vector<double>{0, 1e-3, 1e-2, 0.2}); size_t minTri = s.Pick(std::vector<size_t>{10, 50, 100, 300}); c.desc << " ratio=" << ratio << " minTri=" << minTri;
    V d = geo::Sub(r.bhi, r.blo); double cell = d[0]*d[1]*d[2], h = std::max({d[0], d[1], d[2]}), T = 1e-9*std::max(h, MaxAbs(r.blo, r.bhi)); if (!Cuts(r, T)) throw pbt::Discard{};
    auto q = geo::ToQueso(r.m); BRepOperator op(q); auto dom = op.pGetTrimmedDomain(PointType(r.blo), PointType(r.bhi), ratio, minTri, true);
    double ex = geo::ExactVolume(r.m, r.blo, r.bhi), fr = ex/cell; c.Max("null: fraction-ratio", dom ? -1 : fr-ratio);
    if (!dom) { c.CheckF(fr <= ratio*(1+1e-6)+1e-6, "domain-lost", [&]{ std::ostringstream o; o << "no cut domain although the volume fraction is " << fr; return o.str(); }); c.Tag("neglected"); return; }
    c.CheckF(fr > ratio*(1-1e-6)-1e-6, "domain-too-small", [&]{ std::ostringstream o; o << "volume fraction " << fr << " kept"; return o.str(); });
    // Thin domains: all statements relative to the size of the cell.
    auto view = dom->GetBoundaryMesh(); auto b = geo::FromView(view); ElementBounds eb{MakeBox(PointType(r.blo), PointType(r.bhi)), MakeBox(PointType{0,0,0}, PointType{1,1,1})};
    double vol = geo::Volume(b), area = geo::Area(b); c.Max("volume error/cell", std::fabs(vol-ex)/cell); c.CheckF(std::fabs(vol-ex) <= 1e-6*cell, "volume", [&]{ std::ostringstream o; o << "boundary encloses " << vol << " exact " << ex << " cell " << cell; return o.str(); });
    c.CheckF(view.NumOfTriangles() >= minTri, "too-few-triangles", [&]{ return std::to_string(view.NumOfTriangles()) + " < " + std::to_string(minTri); });
    V sum{0,0,0}; for (auto& t : b.t) sum = geo::Add(sum, geo::Mul(geo::CrossP(geo::Sub(b.v[t[1]], b.v[t[0]]), geo::Sub(b.v[t[2]], b.v[t[0]])), 0.5)); c.Max("open area/cell", geo::Len(sum)/(h*h)); c.CheckF(geo::Len(sum) <= 1e-6*h*h, "not-closed", [&]{ return "area vectors sum to " + geo::Str(sum); });
    V blo, bhi; geo::Bounds(b, blo, bhi); auto bb = dom->GetBounds<CoordinateSpace::global>(eb); for (int k = 0; k < 3; ++k) { c.Check(blo[k] >= r.blo[k]-1e-7*h && bhi[k] <= r.bhi[k]+1e-7*h, "outside-cell", "boundary leaves the cell"); c.Check(bb.lower[k] <= blo[k]+1e-12*h && bb.upper[k] >= bhi[k]-1e-12*h && bb.lower[k] >= r.blo[k]-1e-7*h && bb.upper[k] <= r.bhi[k]+1e-7*h, "bounds", "bounding box does not contain the domain"); }
    // Every boundary triangle lies on the surface or on a side of the cell, and the part on the surface is complete.
    double onSurf = 0; for (auto& t : b.t) { V ctr = geo::Mul(geo::Add(geo::Add(b.v[t[0]], b.v[t[1]]), b.v[t[2]]), 1.0/3); bool side = false; for (int k = 0; k < 3; ++k) for (double pl : {r.blo[k], r.bhi[k]}) { bool all = true; for (int i : t) all = all && std::fabs(b.v[i][k]-pl) < 1e-7*h; side = side || all; }
        if (!side) { onSurf += geo::TriArea(b.v[t[0]], b.v[t[1]], b.v[t[2]]); double ds = geo::DistToMesh(r.m, ctr); c.CheckF(ds < 1e-7*h, "stray-triangle", [&]{ return "boundary triangle at " + geo::Str(ctr) + " is neither on the surface nor on a side of the cell, distance " + std::to_string(ds/h); }); } }
    double exSurf = geo::ClippedArea(r.m, r.blo, r.bhi); double sideAligned = 0; for (auto& t : r.m.t) for (int k = 0; k < 3; ++k) for (double pl : {r.blo[k], r.bhi[k]}) { bool all = true; for (int i : t) all = all && std::fabs(r.m.v[i][k]-pl) < 1e-7*h; if (all) { sideAligned += geo::PolyArea(geo::ClipBox({r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]]}, r.blo, r.bhi)); } }
    c.CheckF(std::fabs(onSurf-(exSurf-sideAligned)) <= 1e-6*h*h, "surface-area", [&]{ std::ostringstream o; o << "part on the surface " << onSurf << " exact " << exSurf-sideAligned; return o.str(); });
    // Boundary integration points.
    auto ips = dom->GetBoundaryIps<BoundaryIntegrationPoint>(eb); double w = 0, gv = 0; for (auto& ip : ips) { w += ip.Weight(); gv += ip.Weight()*geo::DotP(geo::Sub(ip.Point(), r.blo), ip.Normal())/3; c.Check(ip.Weight() > -1e-12*h*h, "bip-weight", "negative weight of a boundary point"); }
    c.CheckF(std::fabs(w-area) <= 1e-7*h*h+1e-9*area, "bip-area", [&]{ std::ostringstream o; o << "boundary points " << w << " area " << area; return o.str(); }); c.CheckF(std::fabs(gv-ex) <= 1e-6*cell+1e-6*h*h*h, "bip-volume", [&]{ std::ostringstream o; o << "divergence theorem gives " << gv << " exact " << ex; return o.str(); });
    // Membership.
    size_t in = 0, out = 0; for (int k = 0; k < 20; ++k) { V p; int st = int(s.Below(3)); for (int e = 0; e < 3; ++e) p[e] = st == 1 ? r.blo[e]+d[e]*double(s.Int(1, 7))/8 : s.Real(r.blo[e], r.bhi[e]); if (st == 2) { V g = GenPoint(s, r.m, r.lo, r.hi); bool ins = true; for (int e = 0; e < 3; ++e) ins = ins && g[e] > r.blo[e] && g[e] < r.bhi[e]; if (ins) p = g; }
        if (geo::DistToMesh(r.m, p) < 1e-8*std::max(h, MaxAbs(r.blo, r.bhi))) continue; bool exi = geo::Winding(r.m, p) > 0.5; (exi ? in : out)++; bool got = dom->IsInside<CoordinateSpace::global>(PointType(p), eb);
        c.CheckF(got == exi, exi ? "member-missed" : "member-invented", [&]{ return "point " + geo::Str(p) + (exi ? " is in the cut domain" : " is not in the cut domain"); }); }
    // Sub-boxes.
    for (int k = 0; k < 5; ++k) { V a, z; for (int e = 0; e < 3; ++e) { double x = s.Unit(), y = s.Unit(); if (y < x) std::swap(x, y); y = std::max(y, x+0.02); a[e] = r.blo[e]+d[e]*std::min(x, 0.97); z[e] = std::min(r.bhi[e], r.blo[e]+d[e]*y); } double gap = 1e300; for (auto& t : r.m.t) gap = std::min(gap, geo::TriBoxGap(r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]], a, z)); if (std::fabs(gap) <= T*10) continue;
        auto st = dom->GetIntersectionState<CoordinateSpace::global>(PointType(a), PointType(z), eb); if (gap < 0) { bool deep = false; for (auto& t : r.m.t) { auto pl = geo::ClipBox({r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]]}, a, z); if (geo::PolyArea(pl) > 1e-6*h*h) deep = true; } if (deep) c.Check(st == IntersectionState::trimmed, "subbox-cut-missed", "sub-box cut by the surface reported as uncut"); }
        else { bool exi = geo::Winding(r.m, geo::Mul(geo::Add(a, z), 0.5)) > 0.5; c.Check(st == (exi ? IntersectionState::inside : IntersectionState::outside), "subbox-state", "uncut sub-box has the wrong state"); } }
    c.Max("fraction", fr); c.Count("inside points", in); c.Count("outside points", out); c.Nontrivial(fr > 1e-3 && fr < 1-1e-9);
}
PBT_PROP("Q09", "cut-domain", "cut domain fills between 0.1 and 100 percent of its cell", 40000, 800000, 60, CutDomain);

// ---------------------------------------------------------------- clipping
V Centroid(const geo::Poly& p, double& area) { V ctr{0,0,0}; area = 0; for (size_t i = 1; i+1 < p.size(); ++i) { double a = geo::TriArea(p[0], p[i], p[i+1]); area += a; ctr = geo::Add(ctr, geo::Mul(geo::Add(geo::Add(p[0], p[i]), p[i+1]), a/3)); } return area > 0 ? geo::Mul(ctr, 1/area) : ctr; }
void Clip(pbt::Src& s, pbt::Case& c) {
    V lo, hi, P[3]; double sc = s.Chance(0.4) ? s.LogReal(1e-2, 1e3) : 1; for (int d = 0; d < 3; ++d) { lo[d] = sc*s.Mixed(-2, 2); hi[d] = lo[d]+sc*s.Mixed(0.25, 3); }
    int style = int(s.Below(4)); for (auto& p : P) for (int d = 0; d < 3; ++d) { double a = lo[d], b = hi[d]; p[d] = style == 0 ? s.Real(a-(b-a), b+(b-a)) : style == 1 ? a+(b-a)*double(s.Int(-2, 4))/2 : style == 2 ? (s.Chance(0.3) ? a : s.Chance(0.3) ? b : s.Real(a-0.2*(b-a), b+0.2*(b-a))) : s.Real(a-4*(b-a), b+4*(b-a)); }
    double area = geo::TriArea(P[0], P[1], P[2]); if (area < 1e-6*sc*sc) throw pbt::Discard{};
    c.desc << "tri " << geo::Str(P[0]) << geo::Str(P[1]) << geo::Str(P[2]) << " box " << geo::Str(lo) << geo::Str(hi); c.Tag("style:" + std::to_string(style));
    if (geo::TriBoxGap(P[0], P[1], P[2], lo, hi) > -1e-9*std::max(Size(lo, hi), MaxAbs(lo, hi))) { bool inPlane = false; for (int d = 0; d < 3; ++d) for (double pl : {lo[d], hi[d]}) inPlane = inPlane || (P[0][d] == pl && P[1][d] == pl && P[2][d] == pl); if (!inPlane) throw pbt::Discard{}; } // precondition: the triangle reaches into the box
    bool aligned = false; for (int d = 0; d < 3; ++d) for (double pl : {lo[d], hi[d]}) aligned = aligned || (P[0][d] == pl && P[1][d] == pl && P[2][d] == pl);
    bool generic = style == 0 || style == 3; for (auto& p : P) for (int d = 0; d < 3; ++d) for (double pl : {lo[d], hi[d]}) generic = generic && std::fabs(p[d]-pl) > 1e-6*std::max(Size(lo, hi), MaxAbs(lo, hi));
    geo::Mesh gm; for (auto& p : P) gm.Vtx(p); gm.Tri(0, 1, 2); auto q = geo::ToQueso(gm); auto poly = Clipper::ClipTriangle(q.Triangle<WithNormals>(0), PointType(lo), PointType(hi));
    if (aligned) { c.Check(!poly, "aligned-kept", "a triangle in the plane of a side must be dropped"); c.Tag("aligned"); return; }
    auto ex = geo::ClipBox({P[0], P[1], P[2]}, lo, hi); double ea; V ec = Centroid(ex, ea); geo::Poly got; double L = std::max({geo::Len(geo::Sub(P[0],P[1])), geo::Len(geo::Sub(P[1],P[2])), geo::Len(geo::Sub(P[2],P[0]))}), t = 1e-10*std::max(L, MaxAbs(lo, hi)); V n = geo::CrossP(geo::Sub(P[1],P[0]), geo::Sub(P[2],P[0])); n = geo::Mul(n, 1/geo::Len(n));
    if (poly) { c.CheckF(poly->NumVertices() <= 9, "too-many-vertices", [&]{ return std::to_string(poly->NumVertices()); });
        for (size_t i = 0; i < poly->NumVertices(); ++i) { auto& v = poly->GetVertex(i); V x{v.first[0], v.first[1], v.first[2]}; got.push_back(x); c.CheckF(geo::DistPointTri(x, P[0], P[1], P[2]) <= t, "off-triangle", [&]{ return geo::Str(x); });
            for (int d = 0; d < 3; ++d) { if (poly->NumVertices() >= 3 && ea > 0) c.CheckF(x[d] >= lo[d]-t && x[d] <= hi[d]+t, "outside-box", [&]{ return geo::Str(x); }); if (v.second[2*d]) c.Check(std::fabs(x[d]-lo[d]) <= t, "flag", "vertex marked as on the lower plane is not on it"); if (v.second[2*d+1]) c.Check(std::fabs(x[d]-hi[d]) <= t, "flag", "vertex marked as on the upper plane is not on it");
                bool vtx = false; for (auto& o : P) { bool in = o == x && (o[d] == lo[d] || o[d] == hi[d]); for (int e = 0; e < 3; ++e) in = in && (e == d || (o[e] > lo[e]+t && o[e] < hi[e]-t)); vtx = vtx || in; } // a corner of the triangle on one side of the box only
                if (vtx && ea > 1e-9*sc*sc) c.Check(v.second[2*d + (x[d] == hi[d])], "flag-missing", "corner of the triangle on a side of the box is not marked"); }
            if (generic && poly->NumVertices() >= 3 && ea > 1e-6*sc*sc) { bool clear = true; for (int d = 0; d < 3; ++d) for (double pl : {lo[d], hi[d]}) { double g = std::fabs(x[d]-pl); clear = clear && (g <= t*1e-3 || g > 1e4*t); } // every vertex made by the clipping of a triangle in general position is marked on each side it lies on
                if (clear) for (int k = 0; k < 6; ++k) { double g = std::fabs(x[k/2]-(k%2 ? hi : lo)[k/2]); if (g <= t*1e-3) c.CheckF(v.second[k], "flag-missing", [&]{ return "clipped vertex " + geo::Str(x) + " is not marked on side " + std::to_string(k); }); } } } }
    double ga; V gc = Centroid(got, ga); double at = 1e-9*(L*L); c.Max("area error", std::fabs(ga-ea)/(L*L));
    c.CheckF(std::fabs(ga-ea) <= at, "area", [&]{ std::ostringstream o; o << "clipped area " << ga << " exact " << ea; return o.str(); });
    if (ea > 1e-5*L*L) { c.CheckF(geo::Len(geo::Sub(gc, ec)) <= 1e-6*L, "centroid", [&]{ return geo::Str(gc) + " vs " + geo::Str(ec); });
        ClippedTriangleMesh cm; cm.Reserve(20); cm.ReserveEdgesOnPlane(20); poly->AddToTriangleMesh(cm); auto fm = geo::FromView(cm.MeshView()); double ta = geo::Area(fm); c.CheckF(std::fabs(ta-ea) <= at, "triangulation", [&]{ std::ostringstream o; o << "triangulated area " << ta << " exact " << ea; return o.str(); });
        for (auto& tr : fm.t) { V m = geo::CrossP(geo::Sub(fm.v[tr[1]], fm.v[tr[0]]), geo::Sub(fm.v[tr[2]], fm.v[tr[0]])); if (geo::Len(m) > 1e-8*L*L) c.Check(geo::DotP(m, n) > 0, "orientation", "triangulation changes the orientation"); } }
    c.Nontrivial(ea > 1e-9*sc*sc && ea < area*(1-1e-9));
}
PBT_PROP("Q10", "clip-triangle", "triangle partly inside the box", 600000, 10000000, 20, Clip);
void ClipMesh(pbt::Src& s, pbt::Case& c) { // whole surface against a box
    auto r = GenCut(s, c); V d = geo::Sub(r.bhi, r.blo); double h = std::max({d[0], d[1], d[2]}); auto q = geo::ToQueso(r.m); BRepOperator op(q); auto cm = op.ClipTriangleMesh(PointType(r.blo), PointType(r.bhi)); auto b = geo::FromView(cm.MeshView());
    double ex = 0, exAl = 0; V exv{0,0,0}; for (auto& t : r.m.t) { auto p = geo::ClipBox({r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]]}, r.blo, r.bhi); double a = geo::PolyArea(p); bool al = false; for (int k = 0; k < 3; ++k) for (double pl : {r.blo[k], r.bhi[k]}) { bool all = true; for (int i : t) all = all && std::fabs(r.m.v[i][k]-pl) < 1e-9*h; al = al || all; } (al ? exAl : ex) += a;
        if (!al && a > 0) { V n = geo::CrossP(geo::Sub(r.m.v[t[1]], r.m.v[t[0]]), geo::Sub(r.m.v[t[2]], r.m.v[t[0]])); exv = geo::Add(exv, geo::Mul(n, a/geo::Len(n))); } }
    V gv{0,0,0}; for (auto& t : b.t) gv = geo::Add(gv, geo::Mul(geo::CrossP(geo::Sub(b.v[t[1]], b.v[t[0]]), geo::Sub(b.v[t[2]], b.v[t[0]])), 0.5));
    double ga = geo::Area(b); c.CheckF(std::fabs(ga-ex) <= 1e-7*h*h, "area", [&]{ std::ostringstream o; o << "clipped area " << ga << " exact " << ex << " (aligned with sides: " << exAl << ")"; return o.str(); }); c.CheckF(geo::Len(geo::Sub(gv, exv)) <= 1e-7*h*h, "normals", [&]{ return "area vector " + geo::Str(gv) + " exact " + geo::Str(exv); });
    c.Nontrivial(ex > 0); if (exAl > 0) c.Tag("side-aligned");
}
PBT_PROP("Q10", "clip-surface", "surface reaches into the box", 20000, 400000, 30, ClipMesh);

// ---------------------------------------------------------------- spatial search
void Search(pbt::Src& s, pbt::Case& c) {
    geo::Mesh m; int style = int(s.Below(3)); double L = s.Chance(0.3) ? s.LogReal(1e-2, 1e3) : 1; if (style == 0) m = geo::GenSolid(s, c.desc);
    else { int n = int(s.Int(1, 120)); for (int i = 0; i < n; ++i) { V o; for (int d = 0; d < 3; ++d) o[d] = L*(style == 1 ? s.Real(-1, 1) : double(s.Int(-3, 3))/3); V p[3]; for (auto& x : p) for (int d = 0; d < 3; ++d) x[d] = o[d] + L*(style == 1 ? s.Real(-0.3, 0.3) : double(s.Int(-1, 1))/3); if (geo::TriArea(p[0], p[1], p[2]) < 1e-6*L*L) continue; int a = m.Vtx(p[0]), b = m.Vtx(p[1]), e = m.Vtx(p[2]); m.Tri(a, b, e); } if (m.t.empty()) throw pbt::Discard{}; c.desc << "soup of " << m.t.size() << " triangles, scale " << L << " style " << style; }
    V lo, hi; geo::Bounds(m, lo, hi); auto q = geo::ToQueso(m); GeometryQuery gq(q, false); AABB_tree tree{TriangleMeshView(q)}; double D = Size(lo, hi), T = 1e-9*std::max(D, MaxAbs(lo, hi)); size_t hits = 0, miss = 0;
    for (int k = 0; k < 10; ++k) { V a, z; bool raster = s.Chance(0.3); for (int d = 0; d < 3; ++d) { double w = std::max(hi[d]-lo[d], 0.05*D); double x = raster ? double(s.Int(0, 5))/6 : s.Real(-0.2, 1.1), y = raster ? double(s.Int(1, 3))/6 : s.LogReal(0.02, 1); a[d] = lo[d]+w*x; z[d] = a[d]+w*y; }
        AABB_primitive bx{PointType(a), PointType(z)}; auto raw = tree.Query(bx); std::multiset<size_t> cand(raw.begin(), raw.end()); auto idv = gq.GetIntersectedTriangleIds(PointType(a), PointType(z), 0.0); std::multiset<size_t> ids(idv.begin(), idv.end()); bool any = false, unclear = false;
        for (size_t i = 0; i < m.t.size(); ++i) { const V &p = m.v[m.t[i][0]], &r = m.v[m.t[i][1]], &u = m.v[m.t[i][2]]; double bg = -1e300; for (int d = 0; d < 3; ++d) bg = std::max({bg, a[d]-std::max({p[d],r[d],u[d]}), std::min({p[d],r[d],u[d]})-z[d]});
            if (bg < -T) c.CheckF(cand.count(i) == 1, "tree-missed", [&]{ return "triangle " + std::to_string(i) + " whose box overlaps was returned " + std::to_string(cand.count(i)) + " times"; }); if (bg > T) c.CheckF(cand.count(i) == 0, "tree-invented", [&]{ return "triangle " + std::to_string(i) + " is far away"; });
            double g = geo::TriBoxGap(p, r, u, a, z); if (g < -T) { any = true; c.CheckF(ids.count(i) == 1, "triangle-missed", [&]{ return "triangle " + std::to_string(i) + " overlaps by " + std::to_string(-g) + " but was returned " + std::to_string(ids.count(i)) + " times"; }); } else if (g > T) c.CheckF(ids.count(i) == 0, "triangle-invented", [&]{ return "triangle " + std::to_string(i) + " does not overlap"; }); else unclear = true; }
        if (!unclear) c.Check(gq.DoIntersect(PointType(a), PointType(z), 0.0) == any, "any", "intersection query disagrees with brute force"); (any ? hits : miss)++;
        V pt; for (int d = 0; d < 3; ++d) pt[d] = s.Real(lo[d]-0.2*D, hi[d]+0.2*D); bool w = true, amb = false; for (int d = 0; d < 3; ++d) { w = w && pt[d] > lo[d] && pt[d] < hi[d]; amb = amb || std::fabs(pt[d]-lo[d]) < T || std::fabs(pt[d]-hi[d]) < T; } if (!amb) c.Check(tree.IsWithinBoundingBox(PointType(pt)) == w, "bounding-box", "point vs bounding box"); }
    c.Tag("style:" + std::to_string(style)); c.Count("queries with hits", hits); c.Count("queries without hits", miss); c.Nontrivial(hits > 0);
}
PBT_PROP("Q17", "search", "at least one query box is hit", 80000, 1600000, 30, Search);
void BoxTri(pbt::Src& s, pbt::Case& c) {
    V lo, hi, P[3]; double sc = s.Chance(0.4) ? s.LogReal(1e-2, 1e3) : 1; for (int d = 0; d < 3; ++d) { lo[d] = sc*s.Mixed(-2, 2); hi[d] = lo[d]+sc*s.Mixed(0.25, 3); } int style = int(s.Below(4));
    for (auto& p : P) for (int d = 0; d < 3; ++d) { double a = lo[d], b = hi[d]; p[d] = style == 0 ? s.Real(a-(b-a), b+(b-a)) : style == 1 ? a+(b-a)*double(s.Int(-2, 4))/2 : style == 2 ? s.Real(a-5*(b-a), b+5*(b-a)) : 0; }
    if (style == 3) { // triangle close to an edge or corner of the box: decides between the axes
        V e; for (int d = 0; d < 3; ++d) e[d] = s.Chance(0.5) ? (s.Chance(0.5) ? lo[d] : hi[d]) : s.Real(lo[d], hi[d]); V n; for (int d = 0; d < 3; ++d) n[d] = s.Real(-1, 1); double l = geo::Len(n); if (l < 0.1) throw pbt::Discard{}; n = geo::Mul(n, 1/l); V u = geo::CrossP(n, std::fabs(n[0]) < 0.8 ? V{1,0,0} : V{0,1,0}); u = geo::Mul(u, 1/geo::Len(u)); V v = geo::CrossP(n, u); double off = sc*s.Real(-0.05, 0.05); e = geo::Add(e, geo::Mul(n, off)); for (auto& p : P) { double x = sc*s.Real(-3, 3), y = sc*s.Real(-3, 3); p = geo::Add(e, geo::Add(geo::Mul(u, x), geo::Mul(v, y))); } }
    if (geo::TriArea(P[0], P[1], P[2]) < 1e-6*sc*sc) throw pbt::Discard{};
    c.desc << "tri " << geo::Str(P[0]) << geo::Str(P[1]) << geo::Str(P[2]) << " box " << geo::Str(lo) << geo::Str(hi); c.Tag("style:" + std::to_string(style)); double g = geo::TriBoxGap(P[0], P[1], P[2], lo, hi), T = 1e-9*std::max(Size(lo, hi), MaxAbs(lo, hi)); if (std::fabs(g) <= T) { c.Count("touching"); throw pbt::Discard{}; }
    AABB_primitive b{PointType(lo), PointType(hi)}; bool got = b.intersect(PointType(P[0]), PointType(P[1]), PointType(P[2]), 0.0); c.CheckF(got == (g < 0), g < 0 ? "overlap-missed" : "overlap-invented", [&]{ std::ostringstream o; o << "gap " << g; return o.str(); });
    double shrink = s.Real(0.01, 0.2)*std::min({hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2]}); V l2, h2; for (int d = 0; d < 3; ++d) { l2[d] = lo[d]+shrink; h2[d] = hi[d]-shrink; } double g2 = geo::TriBoxGap(P[0], P[1], P[2], l2, h2); if (std::fabs(g2) > T) c.Check(b.intersect(PointType(P[0]), PointType(P[1]), PointType(P[2]), shrink) == (g2 < 0), "tolerance", "tolerance must shrink the box");
    V ol, oh; for (int d = 0; d < 3; ++d) { ol[d] = s.Mixed(lo[d]-sc, hi[d]); oh[d] = ol[d]+sc*s.Mixed(0.25, 3); } double bg = -1e300; for (int d = 0; d < 3; ++d) bg = std::max({bg, ol[d]-hi[d], lo[d]-oh[d]}); if (std::fabs(bg) > T) { AABB_primitive o{PointType(ol), PointType(oh)}; c.Check(b.intersect(o) == (bg < 0) && o.intersect(b) == (bg < 0), "box-box", "overlap of two boxes"); }
    c.Tag(g < 0 ? "overlap" : "separate"); c.Nontrivial();
}
PBT_PROP("Q18", "box-triangle", "not merely touching", 500000, 12000000, 20, BoxTri);

// ---------------------------------------------------------------- octree
void Oct(pbt::Src& s, pbt::Case& c) {
    auto r = GenCut(s, c, 200); V d = geo::Sub(r.bhi, r.blo); double cell = d[0]*d[1]*d[2], h = std::max({d[0], d[1], d[2]}), T = 1e-9*std::max(h, MaxAbs(r.blo, r.bhi)); if (!Cuts(r, T)) throw pbt::Discard{};
    double ex = geo::ExactVolume(r.m, r.blo, r.bhi), fr = ex/cell; if (fr < 1e-2) throw pbt::Discard{};
    auto q = geo::ToQueso(r.m); BRepOperator op(q); auto dom = op.pGetTrimmedDomain(PointType(r.blo), PointType(r.bhi), 0.0, 50, true); if (!dom) throw pbt::Discard{};
    V ul, uh; bool unit = s.Chance(0.4); for (int k = 0; k < 3; ++k) { ul[k] = unit ? r.blo[k] : s.Real(-2, 2); uh[k] = unit ? r.bhi[k] : ul[k]+s.Real(0.5, 3); }
    using El = TrimmedElement<IntegrationPoint, BoundaryIntegrationPoint>; El el(1, ElementBounds{MakeBox(PointType(r.blo), PointType(r.bhi)), MakeBox(PointType(ul), PointType(uh))}, std::move(*dom));
    // The octree covers the cell (as in the library) or the bounding box of the cut domain.
    bool tight = s.Chance(0.5); auto bx = tight ? el.GetActiveDomainBounds<CoordinateSpace::global>() : el.GetCellBounds<CoordinateSpace::global>(); auto bu = tight ? el.GetActiveDomainBounds<CoordinateSpace::parametric>() : el.GetCellBounds<CoordinateSpace::parametric>();
    Octree<El> oct(&el, bx, bu); size_t lmin = s.Below(3), lmax = lmin+s.Below(3); std::array<size_t,3> p{s.Below(3), s.Below(3), s.Below(3)}; c.desc << " levels " << lmin << ".." << lmax << " order " << p[0] << p[1] << p[2] << (tight ? " tight" : "");
    bool steps = s.Chance(0.3); if (steps) for (size_t l = 0; l <= lmax; ++l) oct.Refine(std::min(l, lmin), l); else oct.Refine(lmin, lmax);
    V olo = V{bx.lower[0], bx.lower[1], bx.lower[2]}, ohi = V{bx.upper[0], bx.upper[1], bx.upper[2]};
    // Reference octree by brute force: states of all boxes.
    size_t leafs = 0, nodes = 0; bool sharp = true; double lower = 0, upper = 0; double detU = 1; for (int k = 0; k < 3; ++k) detU *= (uh[k]-ul[k])/d[k];
    size_t npg = (p[0]+1)*(p[1]+1)*(p[2]+1); size_t pmin = 0, pmax = 0; 
    std::function<void(V, V, int, size_t)> rec = [&](V a, V z, int state, size_t lev) { ++nodes; // state: 1 inside, 2 cut
        bool split = lev < lmin || (lev < lmax && state == 2); size_t kids = 0;
        if (split) for (int i = 0; i < 8; ++i) { V x, y; for (int k = 0; k < 3; ++k) { double mid = 0.5*(a[k]+z[k]); bool up = (i >> k) & 1; x[k] = up ? mid : a[k]; y[k] = up ? z[k] : mid; } double gap = 1e300; for (auto& t : r.m.t) { bool far = false; for (int k = 0; k < 3; ++k) { double mn = std::min({r.m.v[t[0]][k], r.m.v[t[1]][k], r.m.v[t[2]][k]}), mx = std::max({r.m.v[t[0]][k], r.m.v[t[1]][k], r.m.v[t[2]][k]}); far = far || mn > y[k]+h*1e-3 || mx < x[k]-h*1e-3; } if (far) continue; gap = std::min(gap, geo::TriBoxGap(r.m.v[t[0]], r.m.v[t[1]], r.m.v[t[2]], x, y)); }
            if (std::fabs(gap) < 1e-6*h) { sharp = false; } int st = gap < 0 ? 2 : (geo::Winding(r.m, geo::Mul(geo::Add(x, y), 0.5)) > 0.5 ? 1 : 0); if (st == 0) continue; ++kids; rec(x, y, st, lev+1); }
        if (kids == 0) { ++leafs; double v = 1; for (int k = 0; k < 3; ++k) v *= z[k]-a[k]; if (state == 1) { lower += v; upper += v; pmin += npg; pmax += npg; } else { upper += v; pmax += npg; } } };
    rec(olo, ohi, 2, 0);
    size_t gl = oct.NumberOfLeafs(), gn = oct.NumberOfNodes(); if (sharp) { c.CheckF(gn == nodes && gl == leafs, "structure", [&]{ std::ostringstream o; o << gn << " nodes / " << gl << " leafs, expected " << nodes << " / " << leafs; return o.str(); }); }
    auto pts = oct.pGetIntegrationPoints<El>(Vector3i{p[0], p[1], p[2]}); double w = 0; for (auto& ip : *pts) { w += ip.Weight(); c.Check(ip.Weight() > 0, "weight", "non-positive weight"); V x; for (int k = 0; k < 3; ++k) x[k] = r.blo[k] + (ip.Point()[k]-ul[k])/(uh[k]-ul[k])*d[k]; for (int k = 0; k < 3; ++k) c.Check(x[k] >= olo[k]-1e-9*h && x[k] <= ohi[k]+1e-9*h, "outside-box", "point outside of the octree"); if (geo::DistToMesh(r.m, x) > 1e-7*h) c.CheckF(geo::Winding(r.m, x) > 0.5, "outside-solid", [&]{ return "point " + geo::Str(x) + " is outside of the solid"; }); }
    w /= detU; c.Max("points", double(pts->size())); if (sharp) { c.CheckF(w >= lower-1e-9*cell && w <= upper+1e-9*cell, "volume", [&]{ std::ostringstream o; o << "weights " << w << " not within [" << lower << "," << upper << "]"; return o.str(); }); c.Check(pts->size() >= pmin && pts->size() <= pmax, "count", "number of points"); }
    c.Tag(sharp ? "sharp" : "touching"); c.Nontrivial(leafs > 1 && sharp);
}
PBT_PROP("Q20", "octree", "more than one leaf and no box merely touched", 8000, 160000, 60, Oct);
} // namespace
