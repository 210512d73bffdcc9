// Robustness of the whole pipeline on arbitrary, also defective, input.
#include "model.h"
#include <sys/stat.h>
#include "queso/utilities/mesh_utilities.h"
using namespace model;
namespace {
/// Damages a surface. Returns a description of what was done.
std::string Damage(pbt::Src& s, geo::Mesh& m) {
    std::string d; int n = int(s.Int(1, 3));
    for (int i = 0; i < n; ++i) { if (m.t.empty()) return d + " empty"; size_t a = s.Below(m.t.size()); switch (s.Below(9)) {
        case 0: m.t.erase(m.t.begin()+long(a)); d += " hole"; break;
        case 1: { size_t k = std::min<size_t>(m.t.size()-a, 1+s.Below(m.t.size())); m.t.erase(m.t.begin()+long(a), m.t.begin()+long(a+k)); d += " large-hole"; break; }
        case 2: std::swap(m.t[a][0], m.t[a][1]); d += " flipped"; break;
        case 3: m.t.push_back(m.t[a]); d += " duplicate"; break;
        case 4: { auto t = m.t[a]; t[1] = t[0]; m.t.push_back(t); d += " degenerate"; break; }
        case 5: { auto t = m.t[a]; int v = m.Vtx(geo::Mul(geo::Add(m.v[t[0]], m.v[t[1]]), 0.5)); m.t.push_back({t[0], v, t[1]}); d += " collinear"; break; }
        case 6: { V lo, hi; geo::Bounds(m, lo, hi); for (int k = 0; k < 3; ++k) m.v[m.t[a][0]][k] += (hi[k]-lo[k])*s.Real(-1, 1); d += " moved-vertex"; break; }
        case 7: { V lo, hi; geo::Bounds(m, lo, hi); int t[3]; for (int j = 0; j < 3; ++j) { V p; for (int k = 0; k < 3; ++k) p[k] = lo[k]+(hi[k]-lo[k])*s.Real(-0.2, 1.2); t[j] = m.Vtx(p); } m.Tri(t[0], t[1], t[2]); d += " stray"; break; }
        default: { for (auto& t : m.t) std::swap(t[0], t[1]); d += " inside-out"; break; } } }
    return d;
}
void Pipeline(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 80; so.scaleLo = 0.02; so.scaleHi = 200; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); int kind = int(s.Below(9)); std::string what = "intact";
    if (kind == 1 || kind == 2 || kind == 3) { what = "damaged"; c.desc << Damage(s, m); }
    else if (kind == 4) { what = "soup"; geo::Mesh x; int n = int(s.Below(12)); for (int i = 0; i < n; ++i) { int t[3]; for (int j = 0; j < 3; ++j) { V p; for (int k = 0; k < 3; ++k) p[k] = lo[k]+(hi[k]-lo[k])*s.Mixed(0, 1, 4); t[j] = x.Vtx(p); } x.Tri(t[0], t[1], t[2]); } m = x; c.desc << " replaced by a soup of " << n; }
    else if (kind >= 7) { what = "flat"; int d = int(s.Below(3)); double f = s.LogReal(1e-7, 1e-1); if (s.Chance(0.1)) f = 0; double z = lo[d]+(hi[d]-lo[d])*s.Mixed(0, 1, 4); for (auto& p : m.v) p[d] = z+(p[d]-z)*f; c.desc << " flattened by " << f << " along " << d; if (s.Chance(0.6)) { int e = (d+1)%3; double k = s.Real(-1, 1)*(hi[d]-lo[d])/(hi[e]-lo[e]); double k2 = s.Real(-1, 1)*(hi[d]-lo[d])/(hi[3-d-e]-lo[3-d-e]); for (auto& p : m.v) p[d] += k*(p[e]-lo[e])+k2*(p[3-d-e]-lo[3-d-e]); c.desc << " and sheared"; c.Tag("sliver"); geo::Bounds(m, lo, hi); } }
    GridOpt o; o.maxN = 4; o.maxP = 2+int(s.Chance(0.2)); o.maxCells = 20; o.vary = true; auto g = GenGrid(s, lo, hi, o); if (s.Chance(0.15)) for (int d = 0; d < 3; ++d) { double L = hi[d]-lo[d]; double sh = L*s.Real(-2, 2); g.lo[d] += sh; g.hi[d] += sh; }
    if (what == "flat" || s.Chance(0.5)) g.minVol = s.LogReal(what == "flat" ? 1e-5 : 1e-3, 1);  if (what == "flat") { g.p = {1, 1, 1}; g.method = IntegrationMethod::gauss; for (int d = 0; d < 3; ++d) g.n[d] = std::min<size_t>(g.n[d], d == 0 ? 2 : 1); } if (s.Chance(0.3)) g.residual = s.LogReal(1e-16, 1e3); g.minTri = s.Chance(0.3) ? 0 : s.Below(120); if (s.Chance(0.5)) g.neglect = false; if (s.Chance(0.3)) g.alpha = s.Pick(std::vector<double>{0, 1e-8, 1e-3, 1, 10}); if (what != "flat" && s.Chance(0.2)) { g.method = s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2}); g.fe = false; if (what != "flat") for (auto& p : g.p) p = std::max<size_t>(p, 2); }
    geo::Mesh patch; int pk = int(s.Below(4)); if (pk) { patch = m; if (pk == 2) { std::ostringstream x; patch = geo::GenSolid(s, x, so); } if (pk == 3) c.desc << " patch" << Damage(s, patch); }
    bool files = s.Chance(0.2), write = files || s.Chance(0.1); std::string dir = pbt::ScratchDir() + "/o"; mkdir(dir.c_str(), 0700);
    c.desc << g.Str() << (files ? " files" : ""); c.Tag(what); size_t active = 0, cut = 0; bool threw = false; std::string msg;
    try {
        auto q = geo::ToQueso(m); auto pq = geo::ToQueso(patch); auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); cs->SetValue(ConditionSettings::condition_id, IndexType(2)); cs->SetValue(ConditionSettings::condition_type, std::string("X")); std::string vf = pbt::ScratchDir() + "/v.stl", cf = pbt::ScratchDir() + "/c.stl"; cs->SetValue(ConditionSettings::input_filename, cf); cs->CheckRequired();
        auto set = Settings(g, vf, dir, 0, write); if (files) { IO::WriteMeshToSTL(q, vf, s.Chance(0.5) ? IO::EncodingType::ascii : IO::EncodingType::binary); if (pk) { IO::WriteMeshToSTL(pq, cf, IO::EncodingType::binary); set->GetList(MainSettings::conditions_settings_list).push_back(std::move(cs)); } }
        auto em = EmbeddedModel::Create(std::move(set)); if (files) em.CreateAllFromSettings(); else { em.CreateVolume(q.View()); if (pk) em.CreateCondition(pq.View(), *cs); if (write) em.WriteModelToFile(); }
        size_t N = g.Num(); std::set<size_t> seen;
        for (auto e : em.GetElementViews()) { ++active; cut += e.IsTrimmed(); size_t id = e.GetId(); c.Check(id >= 1 && id <= N && seen.insert(id).second, "element-id", std::to_string(id)); auto qd = g.Ijk(id-1); V ul, uh; g.CellUvw(qd[0], qd[1], qd[2], ul, uh); double vol = 0; for (auto& p : e.GetIntegrationPoints()) { c.CheckF(std::isfinite(p.Weight()) && p.Weight() >= 0, "weight", [&]{ return "element " + std::to_string(id) + " weight " + std::to_string(p.Weight()); }); for (int d = 0; d < 3; ++d) c.CheckF(p[d] >= ul[d]-1e-9*(uh[d]-ul[d])-1e-12*std::fabs(ul[d]) && p[d] <= uh[d]+1e-9*(uh[d]-ul[d])+1e-12*std::fabs(uh[d]), "point-outside-cell", [&]{ return "element " + std::to_string(id); }); vol += p.Weight(); }
            double gv = 0; for (auto p : e.GetIntegrationPoints<CoordinateSpace::global>()) gv += p.Weight(); c.Near(gv, vol*DetJ(g), 1e-9*vol*DetJ(g), "global-weights", "sum of weights");
}
        for (const auto& e : em.GetElements<EmbeddedModel::BackgroundGridType::ElementFilter::trimmed>()) { auto mesh = e.GetActiveDomainBoundaryMesh(); c.Check(std::isfinite(MeshUtilities::Area(mesh)) && std::isfinite(MeshUtilities::Volume(mesh)), "boundary-mesh", "not finite"); for (auto& p : e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>()) c.Check(std::isfinite(p.Weight()) && std::isfinite(p[0]+p[1]+p[2]), "boundary-point", "not finite"); }
        for (const auto& e : em.GetElements<EmbeddedModel::BackgroundGridType::ElementFilter::trimmed>()) { auto b = e.GetCellBounds<CoordinateSpace::global>(); auto bm = geo::FromView(e.GetActiveDomainBoundaryMesh()); size_t in = 0;
            for (int k = 0; k < 4; ++k) { PointType p; for (int d = 0; d < 3; ++d) p[d] = b.lower[d]+(b.upper[d]-b.lower[d])*(k == 3 ? s.Unit() : 0.5); if (k && k < 3 && !bm.v.empty()) { auto& w = bm.v[s.Below(bm.v.size())]; p[s.Below(3)] = w[k]; int d = int(s.Below(3)); p[d] = w[d]; } in += e.IsInsideActiveDomain(p); } // also on the planes of its facets
            c.Count("points of cut elements inside", double(in)); }
        if (active && s.Chance(0.3)) { bool rejected = false; try { if (files) em.CreateAllFromSettings(); else em.CreateVolume(q.View()); } catch (const std::exception&) { rejected = true; } c.Check(rejected, "second-volume", "the volume of a model is created twice without an error"); }
        for (auto& cond : em.GetConditions()) for (auto& sg : cond.GetSegments()) { sg.GetTriangleMesh().Check(); if (sg.IsInActiveElement()) c.Check(seen.count(sg.GetParentElement()->GetId()), "parent", "condition segment without element"); for (auto& p : geo::FromView(sg.GetTriangleMesh().View()).v) for (double x : p) c.Check(std::isfinite(x), "segment-vertex", "not finite"); }
        auto& info = em.GetModelInfo(); info.CheckRequired(); c.Check(info[MainInfo::background_grid_info].GetRequiredValue<IndexType>(BackgroundGridInfo::num_active_elements) == active, "info", "active elements");
    } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { threw = true; msg = e.what(); }
    if (threw) { c.Tag("reported-error"); c.CheckF(what != "intact" || pk == 3 || files, "intact-input-rejected", [&]{ return msg; }); }
    c.Count("active elements", double(active)); c.Nontrivial(cut > 0 || what != "intact");
}
PBT_PROP("Q35", "pipeline", "cut elements or a defective surface", 3000, 200000, 60, Pipeline);
} // namespace
