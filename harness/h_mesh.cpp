// Measures and modifications of triangle meshes, histories of edits, views.
#include "geo.h"
#include <omp.h>
#include "queso/containers/clipped_triangle_mesh.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"
using namespace queso;
using geo::V;
namespace {
V A(std::span<const double, 3> p) { return {p[0], p[1], p[2]}; }

// ---------------------------------------------------------------- Q15
void Measures(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 500; auto m = geo::GenSolid(s, c.desc, so); bool open = s.Chance(0.25); if (open) { std::vector<std::array<int,3>> t; for (auto& x : m.t) if (s.Chance(0.6)) t.push_back(x); if (t.empty()) t.push_back(m.t[0]); m.t = t; }
    double sc = s.Chance(0.5) ? s.LogReal(1e-3, 1e3) : 1; for (auto& p : m.v) p = geo::Mul(p, sc); V lo, hi; geo::Bounds(m, lo, hi); double L = geo::Len(geo::Sub(hi, lo)), R = L; for (int d = 0; d < 3; ++d) R = std::max({R, std::fabs(lo[d]), std::fabs(hi[d])});
    bool soup = s.Chance(0.3); auto q = geo::ToQueso(m, soup); q.Check(); auto v = q.View(); int th = int(s.Int(1, 6)); double area = geo::Area(m), vol = geo::Volume(m), T = 1e-10*area*R; c.desc << " scale " << sc << (open ? " open" : "") << " tris " << m.t.size(); omp_set_num_threads(th);
    c.Near(MeshUtilities::Area(v), area, 1e-11*area, "area", "area"); c.Near(MeshUtilities::AreaOMP(v), area, 1e-11*area, "area-parallel", "area with threads");
    // directional integrals of x_d n_d over the surface
    V dv{0,0,0}, an{0,0,0}; double ar = 0, arm = 0; for (auto& t : m.t) { V a = m.v[t[0]], b = m.v[t[1]], e = m.v[t[2]]; V n = geo::Mul(geo::CrossP(geo::Sub(b, a), geo::Sub(e, a)), 0.5); an = geo::Add(an, n); for (int d = 0; d < 3; ++d) dv[d] += n[d]*(a[d]+b[d]+e[d])/3; double l1 = geo::Len(geo::Sub(b, a)), l2 = geo::Len(geo::Sub(e, b)), l3 = geo::Len(geo::Sub(a, e)), at = geo::Len(n); double r = at > 1e-14 ? std::max({l1, l2, l3})*(l1+l2+l3)/(4*std::sqrt(3.0)*at) : 1e10; ar += r; arm = std::max(arm, r); }
    double sum = std::fabs(dv[0]+dv[1]+dv[2])/3; c.Near(MeshUtilities::Volume(v), sum, T, "volume", "volume"); c.Near(MeshUtilities::VolumeOMP(v), sum, T, "volume-parallel", "volume with threads"); for (size_t d = 0; d < 3; ++d) c.Near(MeshUtilities::Volume(v, d), std::fabs(dv[d]), T, "volume-direction", "volume in direction " + std::to_string(d));
    if (!open) { c.Near(MeshUtilities::Volume(v), vol, T, "volume-closed", "volume"); for (size_t d = 0; d < 3; ++d) c.Near(MeshUtilities::Volume(v, d), vol, T, "volume-closed", "volume in direction " + std::to_string(d)); }
    bool threw = false; try { (void)MeshUtilities::Volume(v, 3+s.Below(5)); } catch (const std::exception&) { threw = true; } c.Check(threw, "direction-range", "invalid direction accepted");
    double dn = std::max(sum, 1e-14), qual = std::max({std::fabs(dv[0]-sum), std::fabs(dv[1]-sum), std::fabs(dv[2]-sum)})/dn; qual = std::max(qual, geo::Len(an)/std::max(area, 1e-14)); double got = MeshUtilities::EstimateQuality(v); if (vol >= 0) c.Near(got, qual, 1e-6*qual + 3*T/dn + 1e-9, "quality", "quality estimate"); if (!open) c.Check(got <= 1e-9 + 6*T/dn, "quality-closed", "closed surface has quality " + std::to_string(got));
    auto b = MeshUtilities::BoundingBox(v); for (int d = 0; d < 3; ++d) c.Check(b.first[d] == lo[d] && b.second[d] == hi[d], "bounding-box", "coordinate " + std::to_string(d));
    c.Near(MeshUtilities::MaxAspectRatio(v), arm, 1e-6*arm, "aspect-ratio", "largest aspect ratio"); c.Near(MeshUtilities::AverageAspectRatio(v), ar/double(m.t.size()), 1e-6*ar/double(m.t.size()), "aspect-ratio", "average aspect ratio");
    for (int k = 0; k < 5; ++k) { size_t i = s.Below(m.t.size()); auto& t = m.t[i]; V x = m.v[t[0]], y = m.v[t[1]], z = m.v[t[2]]; auto tr = v.Triangle<WithNormals>(i); double a = geo::TriArea(x, y, z); c.Near(TriangleUtilities::Area(tr), a, 1e-11*R*L, "triangle", "area"); auto ctr = TriangleUtilities::Center(tr); for (int d = 0; d < 3; ++d) c.Near(ctr[d], (x[d]+y[d]+z[d])/3, 1e-13*R, "triangle", "centre"); if (a > 1e-8*L*L && a > 1e-12) { auto n = TriangleUtilities::Normal(tr); V e = geo::CrossP(geo::Sub(y, x), geo::Sub(z, x)); e = geo::Mul(e, 1/geo::Len(e)); for (int d = 0; d < 3; ++d) c.Near(n[d], e[d], 1e-6, "triangle", "normal"); } }
    omp_set_num_threads(1); c.Tag("solid:" + m.name); c.Tag(open ? "open" : "closed"); c.Nontrivial(m.t.size() > 4);
}
PBT_PROP("Q15", "measures", "more than four triangles", 140000, 3000000, 20, Measures);

void RefineAppend(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 120; auto m = geo::GenSolid(s, c.desc, so); double sc = s.Chance(0.5) ? s.LogReal(1e-2, 1e3) : 1; for (auto& p : m.v) p = geo::Mul(p, sc); bool open = s.Chance(0.3); if (open) { std::vector<std::array<int,3>> t; for (auto& x : m.t) if (s.Chance(0.5)) t.push_back(x); if (t.empty()) t.push_back(m.t[0]); m.t = t; }
    if (s.Chance(0.1)) { int a = m.Vtx(m.v[0]); m.Tri(a, 0, 0); c.Tag("degenerate"); } bool soup = s.Chance(0.3); auto q = geo::ToQueso(m, soup); V lo, hi; geo::Bounds(m, lo, hi); double L = geo::Len(geo::Sub(hi, lo)), area = geo::Area(m); size_t n0 = m.t.size(), want = s.Chance(0.2) ? s.Below(n0+2) : s.Below(1200); c.desc << " refine " << n0 << " to " << want << (soup ? " soup" : "");
    // Refinement keeps the surface.
    auto r = q; MeshUtilities::Refine(r, want); r.Check(); auto rm = geo::FromView(r.View()); size_t n1 = rm.t.size(); c.Check(n1 >= want && n1 >= n0, "refine-count", std::to_string(n1) + " triangles"); c.Check(n1 <= std::max(n0, 4*std::max<size_t>(want, 1)), "refine-excess", std::to_string(n1) + " triangles for " + std::to_string(want)); if (want <= n0) c.Check(n1 == n0, "refine-unneeded", std::to_string(n1) + " triangles");
    for (size_t i = 0; i < q.NumOfVertices(); ++i) c.Check(r.Vertex(i) == q.Vertex(i), "refine-vertices", "vertex " + std::to_string(i)); c.Near(geo::Area(rm), area, 1e-10*area, "refine-area", "area");
    { V a{0,0,0}, b{0,0,0}; for (auto& t : m.t) a = geo::Add(a, geo::CrossP(geo::Sub(m.v[t[1]], m.v[t[0]]), geo::Sub(m.v[t[2]], m.v[t[0]]))); for (auto& t : rm.t) b = geo::Add(b, geo::CrossP(geo::Sub(rm.v[t[1]], rm.v[t[0]]), geo::Sub(rm.v[t[2]], rm.v[t[0]]))); c.Check(geo::Len(geo::Sub(a, b)) <= 1e-10*area, "refine-orientation", "sum of the normals"); }
    // every new triangle is a piece of an old one with the same normal; the pieces of every old triangle add up to it
    std::vector<double> part(n0, 0.0); double maxA = 0, minSplit = 1e300; for (size_t i = 0; i < n1; ++i) { auto t = r.Triangle<WithNormals>(i); V x = A(t.P1), y = A(t.P2), z = A(t.P3), n = A(t.Normal), ctr = geo::Mul(geo::Add(x, geo::Add(y, z)), 1.0/3); double a = geo::TriArea(x, y, z); maxA = std::max(maxA, a); if (a < 1e-12*L*L) continue; V e = geo::Mul(geo::CrossP(geo::Sub(y, x), geo::Sub(z, x)), 0.5/a); c.Check(a < 1e-9*L*L || geo::DotP(n, e) > 1-1e-6, "refine-normal", "triangle " + std::to_string(i));
        double best = 1e300; size_t bi = 0; for (size_t j = 0; j < n0; ++j) { V P = m.v[m.t[j][0]], Q = m.v[m.t[j][1]], W = m.v[m.t[j][2]]; double full = geo::TriArea(P, Q, W); if (full < 1e-12*L*L) continue; V fn = geo::Mul(geo::CrossP(geo::Sub(Q, P), geo::Sub(W, P)), 0.5/full); if (geo::DotP(fn, e) < 0.999) continue; double d = geo::TriArea(P, Q, ctr)+geo::TriArea(Q, W, ctr)+geo::TriArea(W, P, ctr)-full + std::fabs(geo::DotP(fn, geo::Sub(ctr, P)))*L; if (d < best) { best = d; bi = j; } }
        c.Check(best <= 1e-6*L*L, "refine-outside", "triangle " + std::to_string(i)); part[bi] += a; }
    if (!soup) { /* overlapping triangles may share pieces: only for simple surfaces */ bool simple = !open || true; if (simple) for (size_t j = 0; j < n0; ++j) { double full = geo::TriArea(m.v[m.t[j][0]], m.v[m.t[j][1]], m.v[m.t[j][2]]); if (full > 1e-6*L*L) c.CheckF(std::fabs(part[j]-full) <= 1e-6*full + 1e-9*area, "refine-cover", [&]{ std::ostringstream o; o << "triangle " << j << " area " << full << " covered by " << part[j]; return o.str(); }); } }
    // Appending concatenates.
    geo::SolidOpt so2; so2.maxTri = 60; std::ostringstream dd; auto m2 = geo::GenSolid(s, dd, so2); auto q2 = geo::ToQueso(m2, s.Chance(0.3)); auto a = q; if (s.Chance(0.1)) a.Clear(); size_t av = a.NumOfVertices(), at = a.NumOfTriangles(); auto before = a; MeshUtilities::Append(a, q2); a.Check(); c.Check(a.NumOfVertices() == av+q2.NumOfVertices() && a.NumOfTriangles() == at+q2.NumOfTriangles(), "append-count", "");
    for (size_t i = 0; i < a.NumOfTriangles(); ++i) { auto t = a.Triangle<WithNormals>(i); auto e = i < at ? before.Triangle<WithNormals>(i) : q2.Triangle<WithNormals>(i-at); c.Check(A(t.P1) == A(e.P1) && A(t.P2) == A(e.P2) && A(t.P3) == A(e.P3) && A(t.Normal) == A(e.Normal), "append-content", "triangle " + std::to_string(i)); }
    // Box
    V bl, bh; for (int d = 0; d < 3; ++d) { bl[d] = s.Mixed(-5, 5); bh[d] = bl[d]+s.LogReal(1e-2, 10); } auto bx = MeshUtilities::MakeMeshBox(PointType{bl[0], bl[1], bl[2]}, PointType{bh[0], bh[1], bh[2]}); bx.Check(); auto bm = geo::FromView(bx.View()); double bv = (bh[0]-bl[0])*(bh[1]-bl[1])*(bh[2]-bl[2]); c.Near(geo::Volume(bm), bv, 1e-11*bv, "box", "volume"); c.Near(geo::Area(bm), 2*bv*(1/(bh[0]-bl[0])+1/(bh[1]-bl[1])+1/(bh[2]-bl[2])), 1e-9*(1+bv)*1e3, "box", "area");
    std::map<std::pair<int,int>, int> edges; for (auto& t : bm.t) for (int k = 0; k < 3; ++k) edges[{t[k], t[(k+1)%3]}]++; auto key = bx.TriangleIndices(); std::map<std::pair<size_t,size_t>, int> eg; for (auto& t : key) for (int k = 0; k < 3; ++k) eg[{t[k], t[(k+1)%3]}]++; for (auto& [e, n] : eg) c.Check(n == 1 && eg.count({e.second, e.first}), "box-closed", "edge not shared by two opposite triangles"); for (size_t i = 0; i < bx.NumOfTriangles(); ++i) { auto t = bx.Triangle<WithNormals>(i); V e = geo::CrossP(geo::Sub(A(t.P2), A(t.P1)), geo::Sub(A(t.P3), A(t.P1))); c.Check(geo::DotP(e, A(t.Normal)) > 0.999*geo::Len(e), "box-normal", "triangle " + std::to_string(i)); }
    c.Tag("solid:" + m.name); c.Nontrivial(n1 > n0);
}
PBT_PROP("Q15", "refine-append", "the refinement splits a triangle", 30000, 700000, 20, RefineAppend);

// ---------------------------------------------------------------- Q16
struct Tri { std::array<size_t,3> id; V n; };
struct Ref { std::vector<V> v; std::vector<Tri> t; };
struct Foreign { std::vector<Vector3d> v; std::vector<Vector3i> t; };
template<class VW> void CheckView(pbt::Case& c, const VW& view, const Ref& r, bool stored, pbt::Src& s, const std::string& what) {
    size_t n = r.t.size(); c.Check(view.NumOfTriangles() == n, "view-count", what); auto ok = [&](auto& t, size_t i) { auto& e = r.t[i]; return A(t.P1) == r.v[e.id[0]] && A(t.P2) == r.v[e.id[1]] && A(t.P3) == r.v[e.id[2]]; };
    auto nrm = [&](auto& t, size_t i) { V e; if (stored) e = r.t[i].n; else { auto& q = r.t[i].id; V x = r.v[q[0]], y = r.v[q[1]], z = r.v[q[2]]; V w = geo::CrossP(geo::Sub(y, x), geo::Sub(z, x)); double l = geo::Len(w); if (l < 1e-6) return true; e = geo::Mul(w, 1/l); } V g = A(t.Normal); for (int d = 0; d < 3; ++d) if (std::fabs(g[d]-e[d]) > (stored ? 0 : 1e-6)) return false; return true; };
    size_t i = 0; for (auto t : view.template Triangles<WithNormals>()) { c.Check(i < n && ok(t, i) && nrm(t, i), "triangles", what + " " + std::to_string(i)); ++i; } c.Check(i == n, "triangles", what); i = 0; for (auto t : view.template Triangles<WithoutNormals>()) { c.Check(i < n && ok(t, i), "triangles-plain", what); ++i; } c.Check(i == n, "triangles-plain", what);
    for (size_t k = 0; k < n; ++k) { auto t = view.template Triangle<WithNormals>(k); auto p = view.template Triangle<WithoutNormals>(k); c.Check(ok(t, k) && nrm(t, k) && ok(p, k), "triangle", what + " " + std::to_string(k)); }
    if (!n) return; std::vector<IndexType> ids; size_t m = s.Below(2*n)+1; for (size_t k = 0; k < m; ++k) ids.push_back(s.Below(n)); i = 0; for (auto t : view.template Triangles<WithNormals>(ids)) { c.Check(i < m && ok(t, ids[i]) && nrm(t, ids[i]), "subset", what); ++i; } c.Check(i == m, "subset", what);
    if constexpr (std::is_same_v<VW, TriangleMeshView>) { i = 0; view.template VisitEachTriangle<WithNormals>([&](const auto& t) { c.Check(i < n && ok(t, i) && nrm(t, i), "visit", what); ++i; }); c.Check(i == n, "visit", what); i = 0; view.template VisitEachTriangle<WithoutNormals>(ids, [&](const auto& t) { c.Check(i < m && ok(t, ids[i]), "visit-subset", what); ++i; }); c.Check(i == m, "visit-subset", what);
        size_t stop = 1+s.Below(m); i = 0; view.template VisitEachTriangle<WithNormals>(ids, [&](const auto& t) { c.Check(ok(t, ids[i]) && nrm(t, ids[i]), "visit-stop", what); ++i; return i == stop ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop; }); c.Check(i == stop, "visit-stop", what + ": visited " + std::to_string(i) + " instead of " + std::to_string(stop));
        i = 0; size_t got = view.template Visit<WithNormals>([&](const auto& ts) { for (auto t : ts) { c.Check(i < n && ok(t, i) && nrm(t, i), "visit-all", what); ++i; } return i; }); c.Check(got == n, "visit-all", what); i = 0; view.template Visit<WithoutNormals>(ids, [&](const auto& ts) { for (auto t : ts) { c.Check(ok(t, ids[i]), "visit-range", what); ++i; } }); c.Check(i == m, "visit-range", what); }
}
void History(pbt::Src& s, pbt::Case& c) {
    TriangleMesh m; Ref r; int nops = int(s.Int(1, 60)); std::ostringstream h; std::vector<Tri> edges[6]; size_t nt = 0; auto vec = [&] { return V{s.Mixed(-2, 2), s.Mixed(-2, 2), s.Mixed(-2, 2)}; };
    auto same = [&](const std::string& w) { c.CheckF(m.NumOfVertices() == r.v.size() && m.NumOfTriangles() == r.t.size() && m.Vertices().size() == r.v.size() && m.Normals().size() == r.t.size() && m.TriangleIndices().size() == r.t.size(), "counts", [&]{ return w + ":" + h.str(); }); };
    for (int q = 0; q < nops; ++q) { int op = int(s.Below(12));
        if (op < 4 || r.v.empty()) { V p = vec(); auto id = m.AddVertex(Vector3d{p[0], p[1], p[2]}); c.Check(id == r.v.size(), "vertex-index", h.str()); r.v.push_back(p); h << " v"; }
        else if (op < 8) { Tri t; for (auto& i : t.id) i = s.Below(r.v.size()); t.n = vec(); m.AddTriangle(Vector3i{t.id[0], t.id[1], t.id[2]}, Vector3d{t.n[0], t.n[1], t.n[2]}); r.t.push_back(t); ++nt; h << " t"; }
        else if (op == 8 && !r.t.empty()) { size_t i = s.Below(r.t.size()); m.RemoveTriangle(i); std::vector<Tri> left; r.t[i] = r.t.back(); r.t.pop_back(); h << " -" << i; }
        else if (op == 9) { m.Reserve(s.Below(100)); h << " R"; }
        else if (op == 10) { if (s.Chance(0.3)) { m.Clear(); r = Ref{}; h << " clear"; } else if (s.Chance(0.5)) { TriangleMesh n(m); TriangleMesh k; k = n; n.Clear(); m = std::move(k); h << " copy"; } else { TriangleMesh n(std::move(m)); m = TriangleMesh(); m = std::move(n); h << " move"; } }
        else { TriangleMesh o; size_t nv = 1+s.Below(4); size_t base = r.v.size(); for (size_t i = 0; i < nv; ++i) { V p = vec(); o.AddVertex(Vector3d{p[0], p[1], p[2]}); r.v.push_back(p); } size_t k = s.Below(4); for (size_t i = 0; i < k; ++i) { Tri t; std::array<size_t,3> l; for (auto& x : l) x = s.Below(nv); t.n = vec(); o.AddTriangle(Vector3i{l[0], l[1], l[2]}, Vector3d{t.n[0], t.n[1], t.n[2]}); t.id = {l[0]+base, l[1]+base, l[2]+base}; r.t.push_back(t); } MeshUtilities::Append(m, o); h << " A" << nv << "," << k; }
        same("after"); }
    c.desc << "history:" << h.str(); m.Check(); for (size_t i = 0; i < r.v.size(); ++i) c.Check(V{m.Vertex(i)[0], m.Vertex(i)[1], m.Vertex(i)[2]} == r.v[i], "vertex", h.str()); for (size_t i = 0; i < r.t.size(); ++i) { auto& n = m.Normal(i); c.Check(V{n[0], n[1], n[2]} == r.t[i].n, "normal", h.str()); auto ix = m.TriangleIndices()[i]; for (int k = 0; k < 3; ++k) c.Check(ix[k] == r.t[i].id[k], "indices", h.str()); }
    CheckView(c, m, r, true, s, "mesh"); CheckView(c, m.View(), r, true, s, "view"); Foreign f; for (auto& p : r.v) f.v.push_back({p[0], p[1], p[2]}); for (auto& t : r.t) f.t.push_back({t.id[0], t.id[1], t.id[2]});
    std::optional<TriangleMeshView> fv(TriangleMeshView(f, [](const Foreign& x) { return x.t.size(); }, [](const Foreign& x, IndexType i) { const auto& t = x.t[i]; return TriangleProxy<WithoutNormals>{x.v[t[0]], x.v[t[1]], x.v[t[2]]}; })); TriangleMeshView copy = *fv; fv.reset(); CheckView(c, copy, r, false, s, "foreign");
    // A broken connectivity is reported.
    { TriangleMesh b = m; size_t bad = r.v.size()+s.Below(3); Vector3i t{0, 0, 0}; t[s.Below(3)] = bad; b.AddTriangle(t, Vector3d{0, 0, 1}); bool threw = false; try { b.Check(); } catch (const std::exception&) { threw = true; } c.Check(threw, "check", "index " + std::to_string(bad) + " of " + std::to_string(r.v.size()) + " vertices accepted"); }
    // Edges on planes
    if (!r.t.empty()) { ClippedTriangleMesh cm(std::move(m)); if (s.Chance(0.5)) cm.ReserveEdgesOnPlane(s.Below(20)); int ne = int(s.Below(30)); for (int i = 0; i < ne; ++i) { int pl = int(s.Below(6)); Tri e; e.id = {s.Below(r.v.size()), s.Below(r.v.size()), s.Below(r.t.size())}; cm.AddEdgeOnPlane(static_cast<SignedAxis>(pl), e.id[0], e.id[1], e.id[2]); edges[pl].push_back(e); if (s.Chance(0.2)) { V p = vec(); cm.AddVertex(Vector3d{p[0], p[1], p[2]}); r.v.push_back(p); } if (s.Chance(0.2)) { Tri t; for (auto& x : t.id) x = s.Below(r.v.size()); t.n = vec(); cm.AddTriangle(Vector3i{t.id[0], t.id[1], t.id[2]}, Vector3d{t.n[0], t.n[1], t.n[2]}); r.t.push_back(t); } }
        ClippedTriangleMesh mv(std::move(cm)); for (int pl = 0; pl < 6; ++pl) { auto ax = static_cast<SignedAxis>(pl); c.Check(mv.NumberOfEdges(ax) == edges[pl].size(), "edge-count", "plane " + std::to_string(pl)); size_t i = 0; for (auto e : mv.Edges(ax)) { auto& x = edges[pl][i++]; c.Check(A(e.mP1) == r.v[x.id[0]] && A(e.mP2) == r.v[x.id[1]] && A(e.mNormal) == r.t[x.id[2]].n, "edge", "plane " + std::to_string(pl)); } c.Check(i == edges[pl].size(), "edge-count", "plane " + std::to_string(pl)); } CheckView(c, mv.MeshView(), r, true, s, "clipped"); }
    c.Nontrivial(r.t.size() > 1 && nops > 5);
}
PBT_PROP("Q16", "history", "more than five edits and one triangle", 700000, 15000000, 20, History);
} // namespace
