// Grid indexing, the container of elements and conditions, mapping between the coordinate spaces.
#include "geo.h"
#include <omp.h>
#include <deque>
#include <optional>
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/embedding/trimmed_domain.h"
#include "queso/embedding/brep_operator.h"
#include "queso/includes/dictionary_factory.hpp"
#include "queso/utilities/mapping_utilities.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace queso;
using geo::V;
namespace {
using Dict = Dictionary<key::MainValuesTypeTag>;
using BG = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using Filter = BG::ElementFilter;
using Dir = GridIndexer::Direction;
using Info = GridIndexer::IndexInfo;
using N3 = std::array<size_t, 3>;

struct G { V lo, hi, ulo, uhi; N3 n; bool fe; size_t Num() const { return n[0]*n[1]*n[2]; } };
Unique<Dict> MakeSettings(const G& g) {
    auto p = DictionaryFactory<queso::key::MainValuesTypeTag>::Create("Settings"); auto& b = (*p)[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, g.fe ? GridType::hexahedral_fe_grid : GridType::b_spline_grid);
    b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i{g.n[0], g.n[1], g.n[2]}); b.SetValue(BackgroundGridSettings::polynomial_order, Vector3i{2, 2, 2});
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, PointType{g.lo[0], g.lo[1], g.lo[2]}); b.SetValue(BackgroundGridSettings::upper_bound_xyz, PointType{g.hi[0], g.hi[1], g.hi[2]});
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, PointType{g.ulo[0], g.ulo[1], g.ulo[2]}); b.SetValue(BackgroundGridSettings::upper_bound_uvw, PointType{g.uhi[0], g.uhi[1], g.uhi[2]});
    b.CheckRequired(); return p;
}
G GenG(pbt::Src& s, std::ostream& desc, size_t maxN, size_t maxCells) {
    G g; double S = s.Chance(0.3) ? s.LogReal(1e-3, 1e4) : 1;
    for (int d = 0; d < 3; ++d) { g.lo[d] = S*s.Mixed(-10, 10); g.hi[d] = g.lo[d]+S*s.Mixed(0.1, 12.1); g.ulo[d] = s.Mixed(-4, 4); g.uhi[d] = g.ulo[d]+s.Mixed(0.1, 4.1); g.n[d] = size_t(s.Int(1, long(maxN))); }
    while (g.Num() > maxCells) { int d = int(std::max_element(g.n.begin(), g.n.end())-g.n.begin()); g.n[d] = g.n[d]/2+g.n[d]%2; }
    g.fe = s.Chance(0.4); desc << "grid " << geo::Str(g.lo) << geo::Str(g.hi) << " uvw " << geo::Str(g.ulo) << geo::Str(g.uhi) << " n=" << g.n[0] << "," << g.n[1] << "," << g.n[2] << (g.fe ? " fe" : " spline"); return g;
}
const Dir kDirs[6] = {Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward};
int Axis(Dir d) { return int(d)/2; }
bool Fwd(Dir d) { return int(d)%2 == 0; }

// ---------------------------------------------------------------- Q12 indexer
void Indexer(pbt::Src& s, pbt::Case& c) {
    bool big = s.Chance(0.1); G g = GenG(s, c.desc, big ? 400 : 7, big ? 40000 : 150); auto set = MakeSettings(g); GridIndexer ix(*set);
    c.Check(ix.NumberOfElements() == g.Num(), "number", "number of elements");
    // Numbering: x runs fastest, then y, then z.
    size_t idx = 0; for (size_t k = 0; k < g.n[2]; ++k) for (size_t j = 0; j < g.n[1]; ++j) for (size_t i = 0; i < g.n[0]; ++i, ++idx) {
        auto m = ix.GetMatrixIndicesFromVectorIndex(idx); if (m[0] != i || m[1] != j || m[2] != k) c.Fail("index-to-ijk", "index " + std::to_string(idx));
        if (ix.GetVectorIndexFromMatrixIndices(i, j, k) != idx || ix.GetVectorIndexFromMatrixIndices(Vector3i{i, j, k}) != idx) c.Fail("ijk-to-index", "index " + std::to_string(idx)); }
    // Boxes of the cells tile the bounds of the grid.
    for (int q = 0; q < (big ? 60 : 40); ++q) { size_t id = s.Below(g.Num()); N3 k{id % g.n[0], id/g.n[0] % g.n[1], id/(g.n[0]*g.n[1])};
        for (int sp = 0; sp < 2; ++sp) { const V &lo = sp ? g.ulo : g.lo, &hi = sp ? g.uhi : g.hi; bool whole = sp && g.fe;
            auto b = sp ? ix.GetBoundingBoxUVWFromIndex(id) : ix.GetBoundingBoxXYZFromIndex(id), b2 = sp ? ix.GetBoundingBoxUVWFromIndex(Vector3i{k[0], k[1], k[2]}) : ix.GetBoundingBoxXYZFromIndex(Vector3i{k[0], k[1], k[2]}), b3 = sp ? ix.GetBoundingBoxUVWFromIndex(k[0], k[1], k[2]) : ix.GetBoundingBoxXYZFromIndex(k[0], k[1], k[2]);
            for (int d = 0; d < 3; ++d) { double L = hi[d]-lo[d], T = 1e-13*(L+std::fabs(lo[d])+std::fabs(hi[d])); double a = whole ? lo[d] : lo[d]+L*double(k[d])/double(g.n[d]), e = whole ? hi[d] : lo[d]+L*double(k[d]+1)/double(g.n[d]);
                c.Near(b.lower[d], a, T, sp ? "box-uvw" : "box-xyz", "lower bound " + std::to_string(d) + " of cell " + std::to_string(id)); c.Near(b.upper[d], e, T, sp ? "box-uvw" : "box-xyz", "upper bound " + std::to_string(d) + " of cell " + std::to_string(id));
                c.Check(b2.lower[d] == b.lower[d] && b2.upper[d] == b.upper[d] && b3.lower[d] == b.lower[d] && b3.upper[d] == b.upper[d], "box-overloads", "cell " + std::to_string(id)); } } }
    // Partitions: a walk in any direction visits every cell of the partition once, in lines.
    int np = big ? 1 : 3; for (int q = 0; q < np; ++q) { N3 a, b; bool global = q == 0 && !big; for (int d = 0; d < 3; ++d) { a[d] = global ? 0 : s.Below(g.n[d]); b[d] = global ? g.n[d]-1 : a[d]+s.Below(g.n[d]-a[d]); }
        if (big) for (int d = 0; d < 3; ++d) b[d] = std::min(b[d], a[d]+12); PartitionBoxType part = std::make_pair(Vector3i{a[0], a[1], a[2]}, Vector3i{b[0], b[1], b[2]}); size_t total = 1; for (int d = 0; d < 3; ++d) total *= b[d]-a[d]+1;
        for (Dir dir : kDirs) { int ax = Axis(dir); bool f = Fwd(dir); N3 st = f ? a : b; size_t cur = (st[2]*g.n[1]+st[1])*g.n[0]+st[0]; std::set<size_t> seen; size_t line = b[ax]-a[ax]+1;
            for (size_t step = 0; step < total; ++step) { std::ostringstream w; w << "dir " << int(dir) << " cell " << cur << " partition " << a[0] << a[1] << a[2] << "-" << b[0] << b[1] << b[2];
                c.Check(seen.insert(cur).second, "visited-twice", w.str()); N3 k{cur % g.n[0], cur/g.n[0] % g.n[1], cur/(g.n[0]*g.n[1])}; for (int d = 0; d < 3; ++d) c.Check(k[d] >= a[d] && k[d] <= b[d], "left-partition", w.str());
                auto [nx, info] = ix.GetNextIndex(cur, dir, part); bool lineEnd = (step+1) % line == 0, last = step+1 == total; Info want = last ? Info::global_end : lineEnd ? Info::local_end : Info::middle;
                c.Check(info == want, "end-info", w.str() + " reported end " + std::to_string(int(info)) + " expected " + std::to_string(int(want))); c.Check(ix.IsEnd(cur, dir, part) == (want != Info::middle), "is-end", w.str());
                if (global) { auto g2 = ix.GetNextIndex(cur, dir); c.Check(g2.first == nx && g2.second == info && ix.IsEnd(cur, dir) == (want != Info::middle), "global-overload", w.str()); }
                if (last) { c.Check(nx == cur, "after-end", w.str()); break; }
                N3 e{nx % g.n[0], nx/g.n[0] % g.n[1], nx/(g.n[0]*g.n[1])}; if (!lineEnd) { for (int d = 0; d < 3; ++d) c.Check(e[d] == k[d]+(d == ax ? (f ? 1 : -1) : 0), "neighbour", w.str() + " next " + std::to_string(nx)); } else c.Check(e[ax] == (f ? a[ax] : b[ax]), "line-start", w.str() + " next " + std::to_string(nx));
                if (!lineEnd) { auto back = ix.GetNextIndex(nx, GridIndexer::ReverseDirection(dir), part); c.Check(back.first == cur, "reverse", w.str()); }
                cur = nx; }
            c.Check(seen.size() == total, "not-visited", "direction " + std::to_string(int(dir))); }
        c.Count("walks", 6); }
    for (Dir d : kDirs) { Dir r = GridIndexer::ReverseDirection(d); c.Check(r != d && Axis(r) == Axis(d) && GridIndexer::ReverseDirection(r) == d, "reverse-direction", std::to_string(int(d))); }
    { auto ds = GridIndexer::GetDirections(); c.Check(std::set<Dir>(ds.begin(), ds.end()).size() == 6, "directions", "list of directions"); }
    c.Tag(g.fe ? "fe" : "spline"); c.Nontrivial(g.Num() > 1);
}
PBT_PROP("Q12", "indexer", "more than one cell", 80000, 1000000, 20, Indexer);

// ---------------------------------------------------------------- Q13 container histories
struct UB { static constexpr Filter Builds = Filter::untrimmed; bool none = false; int pts = 0; std::optional<BG::UntrimmedElementType> Build(IndexType Id, const ElementBounds& b) { if (none) return std::nullopt; std::vector<IntegrationPoint> v; for (int i = 0; i < pts; ++i) v.emplace_back(double(Id), double(i), 0.0, 1.0); return BG::UntrimmedElementType(Id, b, v); } };
struct TB { static constexpr Filter Builds = Filter::trimmed; bool none = false; int pts = 0; std::optional<BG::TrimmedElementType> Build(IndexType Id, const ElementBounds& b) { if (none) return std::nullopt; std::vector<IntegrationPoint> v; for (int i = 0; i < pts; ++i) v.emplace_back(double(Id), double(i), 1.0, 1.0); ClippedTriangleMesh m{}; return BG::TrimmedElementType(Id, b, TrimmedDomain(std::move(m), b.global.lower, b.global.upper, nullptr, 0), v); } };
struct Rec { bool trimmed; int pts; };

void CheckGrid(pbt::Case& c, BG& bg, const G& g, const GridIndexer& ix, const std::map<size_t, Rec>& ref, pbt::Src& s) {
    size_t nt = 0, nu = 0; for (auto& [id, r] : ref) (r.trimmed ? nt : nu)++;
    c.CheckF(bg.NumberOfActiveElements() == ref.size() && bg.NumberOfTrimmedElements() == nt && bg.NumberOfUntrimmedElements() == nu, "counts", [&]{ return std::to_string(bg.NumberOfActiveElements()) + "/" + std::to_string(bg.NumberOfTrimmedElements()) + "/" + std::to_string(bg.NumberOfUntrimmedElements()) + " instead of " + std::to_string(ref.size()) + "/" + std::to_string(nt) + "/" + std::to_string(nu); });
    std::set<size_t> all, tr, un; size_t na = 0, n1 = 0, n2 = 0; for (auto e : bg.GetElementViews()) { all.insert(e.GetId()); ++na; auto it = ref.find(e.GetId()); c.Check(it != ref.end() && it->second.trimmed == e.IsTrimmed() && e.GetIntegrationPoints().size() == size_t(it->second.pts), "views", "element " + std::to_string(e.GetId())); }
    for (auto e : bg.GetElementViews<Filter::trimmed>()) { c.Check(e.IsTrimmed(), "views-filter", ""); tr.insert(e.GetId()); ++n1; } for (auto e : bg.GetElementViews<Filter::untrimmed>()) { c.Check(!e.IsTrimmed(), "views-filter", ""); un.insert(e.GetId()); ++n2; }
    c.Check(all.size() == ref.size() && na == ref.size(), "views-all", "elements missing or repeated"); c.Check(tr.size() == nt && n1 == nt && un.size() == nu && n2 == nu, "views-filter", "elements missing or repeated");
    { std::set<size_t> a, b; for (auto& e : bg.GetElements<Filter::trimmed>()) a.insert(e.GetId()); for (auto& e : std::as_const(bg).GetElements<Filter::untrimmed>()) b.insert(e.GetId()); c.Check(a == tr && b == un && bg.GetElements<Filter::trimmed>().size() == nt, "elements", "spans"); }
    for (size_t id = 0; id <= g.Num()+2; ++id) { auto it = ref.find(id); bool has = it != ref.end(), t = has && it->second.trimmed; auto v = bg.GetElementView(id), vt = bg.GetElementView<Filter::trimmed>(id), vu = bg.GetElementView<Filter::untrimmed>(id); auto pt = bg.pGetElement<Filter::trimmed>(id); auto pu = bg.pGetElement<Filter::untrimmed>(id);
        std::string w = "element " + std::to_string(id); c.Check(v.has_value() == has && vt.has_value() == (has && t) && vu.has_value() == (has && !t) && (pt != nullptr) == (has && t) && (pu != nullptr) == (has && !t), "lookup", w);
        if (has) { auto b = ix.GetBoundingBoxXYZFromIndex(id-1); c.Check(v->GetId() == id && v->IsTrimmed() == t && v->GetCellBounds<CoordinateSpace::global>().lower == b.lower && (t ? vt->GetId() : vu->GetId()) == id && (t ? pt->GetId() : pu->GetId()) == id && v->GetIntegrationPoints().size() == size_t(it->second.pts), "lookup-content", w);
            for (auto& p : v->GetIntegrationPoints()) c.Check(p[0] == double(id) && p[2] == (t ? 1.0 : 0.0), "lookup-content", w); } }
    for (int q = 0; q < 40; ++q) { size_t id = 1+s.Below(g.Num()); Dir d = kDirs[s.Below(6)]; auto [nx, info] = ix.GetNextIndex(id-1, d); size_t nid = nx+1; auto it = ref.find(nid); bool has = it != ref.end(); std::string w = "from " + std::to_string(id) + " dir " + std::to_string(int(d)); bool end = info != Info::middle;
        auto r = bg.GetNextElementView(id, d); c.Check(r.next_id == nid && r.element.has_value() == has && r.is_end == (end || !has) && (!has || r.element->GetId() == nid), "next", w);
        auto rt = bg.GetNextElementView<Filter::trimmed>(id, d); bool ht = has && it->second.trimmed; c.Check(rt.next_id == nid && rt.element.has_value() == ht && rt.is_end == (end || !ht), "next-trimmed", w);
        auto ru = bg.GetNextElement<Filter::untrimmed>(id, d); bool hu = has && !it->second.trimmed; c.Check(ru.next_id == nid && (ru.p_element != nullptr) == hu && ru.is_end == (end || !hu) && (!hu || ru.p_element == bg.pGetElement<Filter::untrimmed>(nid)), "next-untrimmed", w);
        auto rp = bg.GetNextElement<Filter::trimmed>(id, d); c.Check((rp.p_element != nullptr) == ht && rp.is_end == (end || !ht), "next-trimmed", w);
        c.Check(bg.IsEnd(id, d) == end, "is-end", w); }
}
void Container(pbt::Src& s, pbt::Case& c) {
    G g = GenG(s, c.desc, 6, 100); auto set = MakeSettings(g); GridIndexer ix(*set); auto bg = std::make_unique<BG>(*set); std::map<size_t, Rec> ref; std::vector<size_t> conds; std::deque<Unique<Dict>> keep; int dup = 0;
    auto bounds = [&](size_t id) { return ElementBounds{ix.GetBoundingBoxXYZFromIndex(id-1), ix.GetBoundingBoxUVWFromIndex(id-1)}; };
    int nops = int(s.Int(1, 40)); std::ostringstream h;
    for (int q = 0; q < nops; ++q) { int op = int(s.Below(10)); size_t id = 1+s.Below(g.Num());
        if (op < 6) { bool t = s.Chance(0.5), none = s.Chance(0.15); int pts = int(s.Below(4)); h << (t ? " T" : " U") << id << (none ? "-" : ""); UB u; u.none = none; u.pts = pts; TB tb; tb.none = none; tb.pts = pts; bool threw = false, res = false; bool exists = ref.count(id);
            if (exists && !none) { // adding twice is an error; the state must not change
                try { res = t ? bg->MakeElement(tb, id, bounds(id)) : bg->MakeElement(u, id, bounds(id)); } catch (const std::exception&) { threw = true; } c.Check(threw, "duplicate", "element " + std::to_string(id) + " added twice"); ++dup; }
            else { res = t ? bg->MakeElement(tb, id, bounds(id)) : bg->MakeElement(u, id, bounds(id)); c.Check(res == !none, "built-flag", "element " + std::to_string(id)); if (!none) ref[id] = {t, pts}; } }
        else if (op == 6) { bg->ReserveElements(s.Below(200), s.Below(200)); h << " R"; }
        else if (op == 7) { auto cs = DictionaryFactory<queso::key::MainValuesTypeTag>::Create("ConditionSettings"); size_t cid = s.Below(1000); cs->SetValue(ConditionSettings::condition_id, IndexType(cid)); cs->SetValue(ConditionSettings::condition_type, std::string("T")); cs->SetValue(ConditionSettings::input_filename, std::string("f")); cs->CheckRequired(); keep.push_back(std::move(cs)); auto info = DictionaryFactory<queso::key::MainValuesTypeTag>::Create("ConditionInfo"); keep.push_back(std::move(info)); BG::ConditionType cond(*keep[keep.size()-2], *keep.back()); bg->AddCondition(std::move(cond)); conds.push_back(cid); h << " C" << cid; }
        else if (op == 8) { auto nb = std::make_unique<BG>(std::move(*bg)); bg = std::move(nb); h << " M"; }
        else { // a batch in parallel, as the model does it
            std::vector<size_t> ids; for (size_t i = 1; i <= g.Num(); ++i) if (!ref.count(i) && s.Chance(0.4)) ids.push_back(i); int th = int(s.Int(1, 8)); uint64_t mask = s.Bits(); h << " P" << ids.size() << "x" << th;
            #pragma omp parallel for schedule(dynamic) num_threads(th)
            for (int i = 0; i < int(ids.size()); ++i) { bool t = (mask >> (ids[i] % 64)) & 1; int pts = int(ids[i] % 3); if (t) { TB b; b.pts = pts; bg->MakeElement(b, ids[i], bounds(ids[i])); } else { UB b; b.pts = pts; bg->MakeElement(b, ids[i], bounds(ids[i])); } }
            for (size_t i : ids) ref[i] = {bool((mask >> (i % 64)) & 1), int(i % 3)}; }
        c.Check(bg->NumberOfActiveElements() == ref.size() && bg->NumberOfConditions() == conds.size(), "counts", "after" + h.str()); }
    c.desc << " history:" << h.str(); bg->LockElements(); std::map<size_t, const void*> addr; for (auto& [id, r] : ref) addr[id] = r.trimmed ? (const void*)bg->pGetElement<Filter::trimmed>(id) : (const void*)bg->pGetElement<Filter::untrimmed>(id);
    CheckGrid(c, *bg, g, ix, ref, s); bg->ReserveConditions(s.Below(50)); for (size_t i = 0; i < conds.size(); ++i) c.Check(bg->GetConditions()[i].GetSettings().GetRequiredValue<IndexType>(ConditionSettings::condition_id) == conds[i], "conditions", "condition " + std::to_string(i));
    if (s.Chance(0.5)) { G g2 = g; std::swap(g2.n[0], g2.n[2]); auto set2 = MakeSettings(g2); BG other(*set2); other = std::move(*bg); for (auto& [id, r] : ref) c.Check(addr[id] == (r.trimmed ? (const void*)other.pGetElement<Filter::trimmed>(id) : (const void*)other.pGetElement<Filter::untrimmed>(id)), "address-after-move", "element " + std::to_string(id)); CheckGrid(c, other, g, ix, ref, s); }
    c.Count("duplicates", dup); c.Nontrivial(ref.size() > 1 && nops > 3);
}
PBT_PROP("Q13", "container", "at least four operations and two elements", 100000, 3000000, 20, Container);

// ---------------------------------------------------------------- Q14 mapping and elements
V A(const PointType& p) { return {p[0], p[1], p[2]}; }
template<class E> auto PointsOfTemporaryView(const E& e) { return e.View().template GetIntegrationPoints<CoordinateSpace::global>(); }
__attribute__((noinline)) double Clobber(double x) { volatile double a[256]; for (int i = 0; i < 256; ++i) a[i] = x+i; return a[17]; }
void Mapping(pbt::Src& s, pbt::Case& c) {
    double S = s.LogReal(1e-3, 1e4), U = s.LogReal(1e-2, 1e2); V lo, hi, ulo, uhi; for (int d = 0; d < 3; ++d) { lo[d] = S*s.Mixed(-10, 10); hi[d] = lo[d]+S*s.LogReal(0.01, 5); ulo[d] = U*s.Mixed(-4, 4); uhi[d] = ulo[d]+U*s.LogReal(0.01, 5); }
    ElementBounds b{MakeBox(PointType{lo[0], lo[1], lo[2]}, PointType{hi[0], hi[1], hi[2]}), MakeBox(PointType{ulo[0], ulo[1], ulo[2]}, PointType{uhi[0], uhi[1], uhi[2]})}; c.desc << "xyz " << geo::Str(lo) << geo::Str(hi) << " uvw " << geo::Str(ulo) << geo::Str(uhi);
    double det = 1; V sc; for (int d = 0; d < 3; ++d) { sc[d] = (hi[d]-lo[d])/(uhi[d]-ulo[d]); det *= sc[d]; } auto tg = [&](const V& u) { V x; for (int d = 0; d < 3; ++d) x[d] = lo[d]+(u[d]-ulo[d])*sc[d]; return x; };
    for (int d = 0; d < 3; ++d) { double a = sc[(d+1)%3]*sc[(d+2)%3]; if (a < 1e-9 || a > 1e9) throw pbt::Discard{}; } // (area ratios beyond this fall below the library's absolute zero)
    double Lx = 0, Lu = 0; for (int d = 0; d < 3; ++d) { Lx = std::max({Lx, std::fabs(lo[d]), std::fabs(hi[d])}); Lu = std::max({Lu, std::fabs(ulo[d]), std::fabs(uhi[d])}); } double Tx[3], Tu[3]; for (int d = 0; d < 3; ++d) { Tx[d] = 1e-12*(Lx+sc[d]*Lu); Tu[d] = 1e-12*(Lu+Lx/sc[d]); }
    c.Near(mapping::DetJ(b), det, 1e-11*det*(1+Lx/S+Lu/U), "detj", "DetJ");
    std::vector<IntegrationPoint> ips; size_t n = size_t(s.Int(1, 6)); for (size_t i = 0; i < n; ++i) { V u; for (int d = 0; d < 3; ++d) u[d] = s.Chance(0.2) ? ulo[d]+(uhi[d]-ulo[d])*s.Real(-1, 2) : ulo[d]+(uhi[d]-ulo[d])*s.Unit(); double w = s.LogReal(1e-8, 10); ips.emplace_back(PointType{u[0], u[1], u[2]}, w);
        V x = tg(u); PointType up{u[0], u[1], u[2]}, xp{x[0], x[1], x[2]}; auto gx = mapping::ToGlobal(up, b); auto gu = mapping::ToParametric(xp, b); auto rt = mapping::ToParametric(gx, b); for (int d = 0; d < 3; ++d) { c.Near(gx[d], x[d], Tx[d], "to-global", "coordinate"); c.Near(gu[d], u[d], Tu[d], "to-parametric", "coordinate"); c.Near(rt[d], u[d], 2*Tu[d], "round-trip", "coordinate"); }
        IntegrationPoint ip(up, w); auto gi = mapping::ToGlobal(ip, b); auto bi = mapping::ToParametric(gi, b); c.Near(gi.Weight(), w*det, 1e-10*w*det, "weight", "weight in global space"); c.Near(bi.Weight(), w, 1e-10*w, "weight", "weight after a round trip"); for (int d = 0; d < 3; ++d) { c.Near(gi[d], x[d], Tx[d], "to-global", "point"); c.Near(bi[d], u[d], 2*Tu[d], "round-trip", "point"); }
        // boundary points: the area vector of a parallelogram maps with the cofactor of the Jacobian
        V e1, e2; for (int d = 0; d < 3; ++d) { e1[d] = s.Real(-1, 1); e2[d] = s.Real(-1, 1); } if (s.Chance(0.2)) { int d = int(s.Below(3)); e1 = e2 = V{0,0,0}; e1[(d+1)%3] = 1; e2[(d+2)%3] = 1; } V au = geo::CrossP(e1, e2); double la = geo::Len(au); if (la < 1e-3) continue; V E1, E2; for (int d = 0; d < 3; ++d) { E1[d] = e1[d]*sc[d]; E2[d] = e2[d]*sc[d]; } V ax = geo::CrossP(E1, E2); double lx = geo::Len(ax); V nu = geo::Mul(au, 1/la), nx = geo::Mul(ax, 1/lx);
        BoundaryIntegrationPoint bu(up, la, Vector3d{nu[0], nu[1], nu[2]}); auto bg = mapping::ToGlobal(bu, b); auto bb = mapping::ToParametric(bg, b); c.Near(bg.Weight(), lx, 1e-9*lx, "area-weight", "weight of a boundary point in global space"); c.Near(bb.Weight(), la, 1e-9*la, "area-weight", "weight after a round trip"); for (int d = 0; d < 3; ++d) { c.Near(bg.Normal()[d], nx[d], 1e-9, "normal", "normal in global space"); c.Near(bb.Normal()[d], nu[d], 1e-9, "normal", "normal after a round trip"); c.Near(bg[d], x[d], Tx[d], "to-global", "boundary point"); } }
    // Elements and their views agree.
    size_t id = 1+s.Below(1000); BG::UntrimmedElementType e(id, b, ips); auto v = e.View(); c.Check(e.GetId() == id && v.GetId() == id && !v.IsTrimmed() && !e.IsTrimmed(), "element", "id or type"); c.Near(v.DetJ(), det, 1e-11*det*(1+Lx/S+Lu/U), "detj", "view"); c.Near(e.DetJ(), det, 1e-11*det*(1+Lx/S+Lu/U), "detj", "element");
    auto tmp = PointsOfTemporaryView(e); Clobber(1e300); size_t i = 0; auto it2 = tmp.begin(); auto vg = v.GetIntegrationPoints<CoordinateSpace::global>(); auto itv = vg.begin(); for (const auto& p : std::as_const(e).GetIntegrationPoints<CoordinateSpace::global>()) { c.Check(i < n, "points", "too many"); auto w = mapping::ToGlobal(ips[i], b); auto pv = *itv; auto pt = *it2; c.Near(p.Weight(), w.Weight(), 1e-12*w.Weight(), "points-global", "weight of the element"); c.Near(pv.Weight(), w.Weight(), 1e-12*w.Weight(), "points-global", "weight of the view"); c.Near(pt.Weight(), w.Weight(), 1e-12*w.Weight(), "points-temporary-view", "weight of the points of a temporary view"); for (int d = 0; d < 3; ++d) c.Check(p[d] == w[d] && pv[d] == w[d] && pt[d] == w[d], "points-global", "coordinate"); ++i; ++it2; ++itv; }
    c.Check(i == n && v.GetIntegrationPoints().size() == n && std::as_const(e).GetIntegrationPoints().size() == n, "points", "number of points");
    // The domain of an uncut element is its cell.
    auto ab = e.GetActiveDomainBounds<CoordinateSpace::global>(); auto pb = e.GetActiveDomainBounds<CoordinateSpace::parametric>(); c.Check(ab.lower == b.global.lower && ab.upper == b.global.upper && pb.lower == b.parametric.lower && pb.upper == b.parametric.upper && v.GetCellBounds<CoordinateSpace::parametric>().upper == b.parametric.upper, "bounds", "bounds of the domain");
    double vol = 1, uvol = 1; V A3, U3; for (int d = 0; d < 3; ++d) { vol *= hi[d]-lo[d]; uvol *= uhi[d]-ulo[d]; } for (int d = 0; d < 3; ++d) { A3[d] = vol/(hi[d]-lo[d]); U3[d] = uvol/(uhi[d]-ulo[d]); } double ar = 2*(A3[0]+A3[1]+A3[2]);
    auto mesh = e.GetActiveDomainBoundaryMesh(); c.Near(MeshUtilities::Area(mesh), ar, 1e-9*ar, "cell-mesh", "area"); { auto m = geo::FromView(mesh); for (auto& p : m.v) for (int d = 0; d < 3; ++d) p[d] -= lo[d]; c.Near(geo::Volume(m), vol, 1e-9*vol, "cell-mesh", "volume"); }
    for (int sp = 0; sp < 2; ++sp) { auto bips = sp ? e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>() : e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>(); V pos{0,0,0}, neg{0,0,0}; double dv = 0; const V &L = sp ? ulo : lo, &H = sp ? uhi : hi; for (auto& p : bips) { bool on = false; for (int d = 0; d < 3; ++d) { double T = (sp ? Tu[d] : Tx[d]) * 100; c.Check(p[d] >= L[d]-T && p[d] <= H[d]+T, "boundary-points", "outside of the cell"); on = on || (std::fabs(p.Normal()[d]-1) < 1e-9 && std::fabs(p[d]-H[d]) <= T) || (std::fabs(p.Normal()[d]+1) < 1e-9 && std::fabs(p[d]-L[d]) <= T); (p.Normal()[d] > 0 ? pos : neg)[d] += p.Normal()[d]*p.Weight(); dv += (p[d]-L[d])*p.Normal()[d]*p.Weight()/3; } c.Check(on, "boundary-points", "point not on the side of its normal"); }
        const V& R = sp ? U3 : A3; for (int d = 0; d < 3; ++d) { c.Near(pos[d], R[d], 1e-8*R[d], "boundary-points", "area of a side"); c.Near(neg[d], -R[d], 1e-8*R[d], "boundary-points", "area of a side"); } }
    for (int q = 0; q < 4; ++q) { V x; bool in = true, near = false; for (int d = 0; d < 3; ++d) { double t = s.Chance(0.3) ? s.Pick(std::vector<double>{0, 1, 0.5, -1e-3, 1.001}) : s.Real(-0.5, 1.5); if (s.Chance(0.3)) t = s.Unit(); x[d] = lo[d]+(hi[d]-lo[d])*t; in = in && t >= 0 && t <= 1; near = near || t == 0 || t == 1 || std::fabs(t)*(hi[d]-lo[d]) < 1e-9*Lx || std::fabs(t-1)*(hi[d]-lo[d]) < 1e-9*Lx; } if (near) continue; PointType xp{x[0], x[1], x[2]}; auto up = mapping::ToParametric(xp, b); c.Check(e.IsInsideActiveDomain(xp) == in && e.IsInsideActiveDomain<CoordinateSpace::parametric>(up) == in, "inside", geo::Str(x)); }
    for (int q = 0; q < 3; ++q) { V l, h; bool dis = false, ins = true, amb = false; double tol = s.Chance(0.5) ? 0 : s.Real(0, 0.1)*std::min({hi[0]-lo[0], hi[1]-lo[1], hi[2]-lo[2]}); for (int d = 0; d < 3; ++d) { double a = s.Real(-0.6, 1.2), w = s.Real(0.25, 1), e1 = hi[d]-lo[d]; l[d] = lo[d]+e1*a; h[d] = l[d]+e1*w; double ll = l[d]+tol, hh = h[d]-tol; if (hh < ll) amb = true; dis = dis || hh < lo[d] || ll > hi[d]; ins = ins && ll >= lo[d] && hh <= hi[d]; for (double z : {ll, hh}) for (double y : {lo[d], hi[d]}) amb = amb || std::fabs(z-y) < 1e-9*(Lx+e1); } if (amb) continue; auto st = e.GetIntersectionState(PointType{l[0], l[1], l[2]}, PointType{h[0], h[1], h[2]}, tol); auto want = dis ? IntersectionState::outside : ins ? IntersectionState::inside : IntersectionState::trimmed; c.Check(st == want, "box-state", geo::Str(l) + geo::Str(h)); }
    c.Nontrivial(true);
}
PBT_PROP("Q14", "mapping", "every case", 160000, 3000000, 20, Mapping);

/// Cut elements: the parametric quantities are the images of the global ones.
void CutElement(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 150; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); V cl, ch, ul, uh; for (int d = 0; d < 3; ++d) { double L = hi[d]-lo[d]; cl[d] = lo[d]+L*s.Real(-0.3, 0.6); ch[d] = cl[d]+L*s.Real(0.2, 0.9); ul[d] = s.Mixed(-3, 3); uh[d] = ul[d]+s.LogReal(0.05, 5); }
    auto q = geo::ToQueso(m); BRepOperator op(q); auto p = op.pGetTrimmedDomain(PointType{cl[0], cl[1], cl[2]}, PointType{ch[0], ch[1], ch[2]}, 1e-3, 50); if (!p) throw pbt::Discard{}; if (op.GetIntersectionState(PointType{cl[0], cl[1], cl[2]}, PointType{ch[0], ch[1], ch[2]}) != IntersectionState::trimmed) throw pbt::Discard{};
    ElementBounds b{MakeBox(PointType{cl[0], cl[1], cl[2]}, PointType{ch[0], ch[1], ch[2]}), MakeBox(PointType{ul[0], ul[1], ul[2]}, PointType{uh[0], uh[1], uh[2]})}; BG::TrimmedElementType e(7, b, std::move(*p)); c.Check(e.IsTrimmed() && e.View().IsTrimmed() && e.GetId() == 7, "element", "type");
    double L = 0; for (int d = 0; d < 3; ++d) L = std::max({L, std::fabs(cl[d]), std::fabs(ch[d])}); double Lu = 0, umin = 1e300, cmin = 1e300; for (int d = 0; d < 3; ++d) { Lu = std::max({Lu, std::fabs(ul[d]), std::fabs(uh[d])}); umin = std::min(umin, uh[d]-ul[d]); cmin = std::min(cmin, ch[d]-cl[d]); }
    auto g = e.GetActiveDomainBounds<CoordinateSpace::global>(), u = e.GetActiveDomainBounds<CoordinateSpace::parametric>(); auto gl = mapping::ToParametric(g.lower, b), gh = mapping::ToParametric(g.upper, b); double T = 1e-9*(1+L/cmin)*(Lu+umin); auto bm = geo::FromView(e.GetActiveDomainBoundaryMesh()); V ml, mh; geo::Bounds(bm, ml, mh);
    for (int d = 0; d < 3; ++d) { c.Near(u.lower[d], gl[d], T, "bounds-parametric", "lower"); c.Near(u.upper[d], gh[d], T, "bounds-parametric", "upper"); c.Near(g.lower[d], ml[d], 1e-9*(L+1e-3), "bounds", "lower bound of the domain"); c.Near(g.upper[d], mh[d], 1e-9*(L+1e-3), "bounds", "upper bound of the domain"); }
    auto gp = e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>(), pp = e.GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>(); c.Check(gp.size() == pp.size() && !gp.empty(), "boundary-points", "number of boundary points"); V sum{0,0,0}; double dv = 0, ar = 0;
    for (size_t i = 0; i < gp.size(); ++i) { auto w = mapping::ToParametric(gp[i], b); c.Near(pp[i].Weight(), w.Weight(), 1e-9*w.Weight()+1e-14, "boundary-parametric", "weight"); for (int d = 0; d < 3; ++d) { c.Near(pp[i][d], w[d], T, "boundary-parametric", "point"); if (w.Weight() > 1e-12) c.Near(pp[i].Normal()[d], w.Normal()[d], 1e-7, "boundary-parametric", "normal"); sum[d] += pp[i].Normal()[d]*pp[i].Weight(); dv += (pp[i][d]-ul[d])*pp[i].Normal()[d]*pp[i].Weight()/3; } ar += pp[i].Weight(); }
    double uv = 1, cv = 1; for (int d = 0; d < 3; ++d) { uv *= uh[d]-ul[d]; cv *= ch[d]-cl[d]; } V o{cl[0], cl[1], cl[2]}; for (auto& x : bm.v) x = geo::Sub(x, o); double vol = geo::Volume(bm); c.Near(dv/uv, vol/cv, 1e-6, "volume-parametric", "enclosed volume fraction in parametric space"); c.Check(geo::Len(sum) <= 1e-6*ar, "closed-parametric", "boundary not closed in parametric space");
    for (int k = 0; k < 16; ++k) { V x; for (int d = 0; d < 3; ++d) x[d] = cl[d]+(ch[d]-cl[d])*s.Real(0.01, 0.99); if (k > 10) { auto& w = bm.v[s.Below(bm.v.size())]; int d = int(s.Below(3)); x[d] = w[d]+cl[d]; if (s.Chance(0.5)) { d = int(s.Below(3)); x[d] = w[d]+cl[d]; } if (x[d] <= cl[d] || x[d] >= ch[d]) continue; } bool near = false; for (int d = 0; d < 3; ++d) near = near || x[d] < cl[d]+1e-6*(ch[d]-cl[d]) || x[d] > ch[d]-1e-6*(ch[d]-cl[d]); if (near) continue; if (geo::DistToMesh(m, x) < 1e-4*cmin) continue; bool in = geo::Winding(m, x) > 0.5; PointType xp{x[0], x[1], x[2]}; auto up = mapping::ToParametric(xp, b); c.Check(e.IsInsideActiveDomain(xp) == in, "inside", geo::Str(x)); c.Check(e.IsInsideActiveDomain<CoordinateSpace::parametric>(up) == in, "inside-parametric", geo::Str(x)); }
    for (int k = 0; k < 6; ++k) { V x, y; for (int d = 0; d < 3; ++d) { double a = s.Real(0, 0.9), w = s.Real(0.02, 1-a); x[d] = cl[d]+(ch[d]-cl[d])*a; y[d] = x[d]+(ch[d]-cl[d])*w; } PointType xl{x[0], x[1], x[2]}, xh{y[0], y[1], y[2]}; auto st = e.GetIntersectionState(xl, xh), su = e.GetIntersectionState<CoordinateSpace::parametric>(mapping::ToParametric(xl, b), mapping::ToParametric(xh, b)); c.Check(st == su, "box-parametric", geo::Str(x) + geo::Str(y)); }
    c.Tag("solid:" + m.name); c.Nontrivial(vol > 1e-3*cv && vol < 0.999*cv);
}
PBT_PROP("Q14", "cut-element", "cut volume fraction between 0.1 and 99.9 percent", 18000, 200000, 20, CutElement);
} // namespace
