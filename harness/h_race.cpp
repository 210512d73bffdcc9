// Data races: the library compiled with the thread sanitizer on top of the OpenMP runtime in gomp_shim.cpp.
// Without the sanitizer this harness runs on libgomp and only compares the results.
#include "model.h"
#include <omp.h>
#include "queso/embedding/flood_fill.h"
#include "queso/utilities/mesh_utilities.h"
using namespace model;
#ifdef PBT_TSAN
extern "C" void pbt_omp_control(int threads, int shrink, uint64_t seed); extern "C" long pbt_omp_regions();
static void Threads(int n, bool shrink, uint64_t seed) { pbt_omp_control(n, shrink, seed); }
#else
static long pbt_omp_regions() { return 1; }
static void Threads(int n, bool, uint64_t) { omp_set_num_threads(n); }
#endif
namespace {
struct Sched { int threads; bool shrink; uint64_t seed; };
Sched GenSched(pbt::Src& s, pbt::Case& c) { Sched r; r.threads = int(s.Int(2, 6)); r.shrink = s.Chance(0.3); r.seed = s.Below(1ull << 40); c.desc << " threads=" << r.threads << (r.shrink ? " (teams may shrink)" : ""); c.Tag("threads:" + std::to_string(r.threads)); if (r.shrink) c.Tag("shrinking-teams"); return r; }

struct Pt { V x; double w; bool operator==(const Pt& o) const { return x == o.x && w == o.w; } };
struct State { std::map<size_t, std::pair<bool, std::vector<Pt>>> cells; std::vector<std::pair<size_t, std::vector<V>>> segments; double volume = 0, area = 0; };
State Build(const Grid& g, const TriangleMesh& q, const TriangleMesh* cond) {
    State r; auto em = EmbeddedModel::Create(Settings(g)); em.CreateVolume(q.View());
    if (cond) { auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); cs->SetValue(ConditionSettings::condition_id, IndexType(3)); cs->SetValue(ConditionSettings::condition_type, std::string("X")); cs->SetValue(ConditionSettings::input_filename, std::string("c.stl")); cs->CheckRequired(); em.CreateCondition(cond->View(), *cs);
        for (auto& sg : em.GetConditions()[0].GetSegments()) { std::vector<V> t; auto b = geo::FromView(sg.GetTriangleMesh().View()); for (auto& x : b.t) for (int i : x) t.push_back(b.v[i]); r.segments.push_back({sg.IsInActiveElement() ? sg.GetParentElement()->GetId() : 0, t}); } std::sort(r.segments.begin(), r.segments.end());
        auto& info = em.GetConditions()[0].GetInfo(); info.CheckRequired(); r.area = info.GetRequiredValue<double>(ConditionInfo::perc_surf_area_in_active_domain); }
    for (auto e : em.GetElementViews()) { auto& cell = r.cells[e.GetId()]; cell.first = e.IsTrimmed(); for (auto& p : e.GetIntegrationPoints()) cell.second.push_back({{p.Point()[0], p.Point()[1], p.Point()[2]}, p.Weight()}); }
    auto& qi = em.GetModelInfo()[MainInfo::quadrature_info]; qi.CheckRequired(); r.volume = qi.GetRequiredValue<double>(QuadratureInfo::represented_volume); return r;
}
void ModelCase(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 150; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 2; o.maxN = 5; o.maxCells = 40; auto g = GenGrid(s, lo, hi, o); g.minTri = size_t(s.Int(1, 30)); g.residual = s.Pick(std::vector<double>{1e-6, 1e-8}); if (s.Chance(0.3)) g.alpha = 1e-3;
    bool ggq = false; if (s.Chance(0.2)) { g.method = s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1}); g.fe = false; g.p = {2, 2, 2}; ggq = true; }
    c.desc << g.Str(); auto sch = GenSched(s, c); auto e = s.Below(1ull << 30); auto q = geo::ToQueso(m); std::optional<TriangleMesh> patch; if (s.Chance(0.6)) { geo::Mesh p; p.v = m.v; size_t a = s.Below(m.t.size()), n = 1+s.Below(m.t.size()); for (size_t i = 0; i < n; ++i) p.t.push_back(m.t[(a+i) % m.t.size()]); bool bad = false; for (auto& t : p.t) bad = bad || geo::TriArea(p.v[t[0]], p.v[t[1]], p.v[t[2]]) < 1e-10; if (!bad) patch = geo::ToQueso(p); }
    Threads(1, false, 0); pbt::FixEntropy(e); auto a = Build(g, q, patch ? &*patch : nullptr); Threads(sch.threads, sch.shrink, sch.seed); pbt::FixEntropy(e); auto b = Build(g, q, patch ? &*patch : nullptr); c.Count("parallel regions", double(pbt_omp_regions())); Threads(1, false, 0);
    c.Check(a.cells.size() == b.cells.size(), "active-cells", std::to_string(a.cells.size()) + " vs " + std::to_string(b.cells.size()));
    for (auto& [id, cell] : a.cells) { auto it = b.cells.find(id); c.CheckF(it != b.cells.end() && it->second.first == cell.first, "active-cells", [&]{ return "cell " + std::to_string(id); }); if (ggq && !cell.first) continue; c.CheckF(it->second.second == cell.second, "points", [&]{ return "points of cell " + std::to_string(id) + " differ between the serial and the threaded run"; }); }
    c.Check(a.segments == b.segments, "segments", std::to_string(a.segments.size()) + " vs " + std::to_string(b.segments.size())); c.Near(b.area, a.area, 1e-9*(1+a.area), "area", "percentage of the condition"); c.Near(b.volume, a.volume, 1e-9*std::fabs(a.volume), "volume", "represented volume");
    c.Tag(ggq ? "ggq" : "gauss"); if (patch) c.Tag("condition"); c.Nontrivial(a.cells.size() > 2);
}
PBT_PROP("Q38", "model", "more than two active cells", 240, 20000, 60, ModelCase);

void ClassifyCase(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 250; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxP = 1; o.maxN = 12; o.maxCells = 500; auto g = GenGrid(s, lo, hi, o); c.desc << g.Str(); auto sch = GenSched(s, c); auto e = s.Below(1ull << 30); auto q = geo::ToQueso(m);
    std::vector<IntersectionState> ref; double a0 = 0, v0 = 0; for (int run = 0; run < 2; ++run) { Threads(run ? sch.threads : 1, run && sch.shrink, sch.seed); pbt::FixEntropy(e); BRepOperator op(q); auto p = op.pGetElementClassifications(*CheckedSettings(g)); double a = MeshUtilities::AreaOMP(q.View()), v = MeshUtilities::VolumeOMP(q.View()); if (!run) { ref = *p; a0 = a; v0 = v; continue; } c.Count("parallel regions", double(pbt_omp_regions())); Threads(1, false, 0);
        for (size_t i = 0; i < ref.size(); ++i) c.CheckF((*p)[i] == ref[i], "classification", [&]{ return "cell " + std::to_string(i); }); c.Near(a, a0, 1e-10*a0, "area", "AreaOMP"); c.Near(v, v0, 1e-9*(std::fabs(v0)+1e-3*a0), "volume", "VolumeOMP"); }
    size_t k[3] = {0, 0, 0}; for (auto x : ref) ++k[x == IntersectionState::inside ? 0 : x == IntersectionState::outside ? 1 : 2]; c.Nontrivial(k[2] > 0 && k[0]+k[1] > 0);
}
PBT_PROP("Q38", "classification", "cut and uncut cells", 500, 40000, 60, ClassifyCase);
} // namespace
