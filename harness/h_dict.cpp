// Dictionaries (string access, typed access, printing) against a reference model, and the validation of settings.
#include "model.h"
#include "json.h"
#include <fstream>
#include "queso/io/io_utilities.h"
using namespace model;
namespace {
using SA = DictionaryStringAccess<Dict>;
enum T { tDouble, tIndex, tBool, tString, tPoint, tVec3i, tMethod, tGrid };
struct Key { std::string name; T type; bool required; };
struct Schema { std::string name; std::vector<Key> values; std::vector<std::pair<std::string, const Schema*>> subs; std::vector<std::string> lists; };
// The documented schema, written down independently of register_keys.hpp.
const Schema sGeneral{"general_settings", {{"input_filename", tString, true}, {"output_directory_name", tString, true}, {"echo_level", tIndex, true}, {"write_output_to_file", tBool, true}}, {}, {}};
const Schema sGrid{"background_grid_settings", {{"grid_type", tGrid, true}, {"lower_bound_xyz", tPoint, true}, {"upper_bound_xyz", tPoint, true}, {"lower_bound_uvw", tPoint, true}, {"upper_bound_uvw", tPoint, true}, {"polynomial_order", tVec3i, true}, {"number_of_elements", tVec3i, true}}, {}, {}};
const Schema sTrim{"trimmed_quadrature_rule_settings", {{"moment_fitting_residual", tDouble, true}, {"min_element_volume_ratio", tDouble, true}, {"min_num_boundary_triangles", tIndex, true}, {"neglect_elements_if_stl_is_flawed", tBool, true}, {"activate_fictitious_domain_with_alpha", tDouble, false}}, {}, {}};
const Schema sFull{"non_trimmed_quadrature_rule_settings", {{"integration_method", tMethod, true}}, {}, {}};
const Schema sMain{"Settings", {}, {{"general_settings", &sGeneral}, {"background_grid_settings", &sGrid}, {"trimmed_quadrature_rule_settings", &sTrim}, {"non_trimmed_quadrature_rule_settings", &sFull}}, {"conditions_settings_list"}};
const Schema sCond{"ConditionSettings", {{"condition_id", tIndex, true}, {"condition_type", tString, false}, {"input_filename", tString, true}, {"modulus", tDouble, false}, {"direction", tPoint, false}, {"value", tPoint, false}, {"penalty_factor", tDouble, false}}, {}, {}};
const Schema sGeom{"embedded_geometry_info", {{"is_closed", tBool, true}, {"volume", tDouble, true}}, {}, {}};
const Schema sQuad{"quadrature_info", {{"represented_volume", tDouble, true}, {"percentage_of_geometry_volume", tDouble, true}, {"tot_num_points", tIndex, true}, {"num_of_points_per_full_element", tDouble, true}, {"num_of_points_per_trimmed_element", tDouble, true}}, {}, {}};
const Schema sGridInfo{"background_grid_info", {{"num_active_elements", tIndex, true}, {"num_trimmed_elements", tIndex, true}, {"num_full_elements", tIndex, true}, {"num_inactive_elements", tIndex, true}}, {}, {}};
const Schema sVolTime{"volume_time_info", {{"total", tDouble, true}, {"classification_of_elements", tDouble, true}, {"computation_of_intersections", tDouble, true}, {"solution_of_moment_fitting_eqs", tDouble, true}, {"construction_of_ggq_rules", tDouble, true}}, {}, {}};
const Schema sCondTime{"conditions_time_info", {{"total", tDouble, true}}, {}, {}};
const Schema sFileTime{"write_files_time_info", {{"total", tDouble, true}}, {}, {}};
const Schema sTime{"elapsed_time_info", {{"total", tDouble, true}}, {{"volume_time_info", &sVolTime}, {"conditions_time_info", &sCondTime}, {"write_files_time_info", &sFileTime}}, {}};
const Schema sInfo{"ModelInfo", {}, {{"embedded_geometry_info", &sGeom}, {"quadrature_info", &sQuad}, {"background_grid_info", &sGridInfo}, {"elapsed_time_info", &sTime}}, {"conditions_infos_list"}};
const Schema sCondInfo{"ConditionInfo", {{"condition_id", tIndex, true}, {"surf_area", tDouble, true}, {"perc_surf_area_in_active_domain", tDouble, true}}, {}, {}};
const std::vector<const Schema*> kRoots{&sMain, &sCond, &sInfo, &sCondInfo};

struct Val { T type; double d = 0; uint64_t i = 0; bool b = false; std::string s; V p{}; std::array<uint64_t,3> v{}; int e = 0; };
struct Node { const Schema* s; std::map<std::string, Val> values; std::map<std::string, Node> subs; std::map<std::string, std::vector<Node>> lists; };
Node MakeNode(const Schema* s) { Node n; n.s = s; for (auto& x : s->subs) n.subs.emplace(x.first, MakeNode(x.second)); for (auto& l : s->lists) n.lists[l]; return n; }
void Set(Node& n, const char* sub, const char* k, Val v) { n.subs.at(sub).values[k] = v; }
Val D(double d) { Val v; v.type = tDouble; v.d = d; return v; } Val I(uint64_t i) { Val v; v.type = tIndex; v.i = i; return v; } Val B(bool b) { Val v; v.type = tBool; v.b = b; return v; } Val S(std::string s) { Val v; v.type = tString; v.s = s; return v; } Val M(int e) { Val v; v.type = tMethod; v.e = e; return v; } Val G(int e) { Val v; v.type = tGrid; v.e = e; return v; } Val P(V p) { Val v; v.type = tPoint; v.p = p; return v; } Val W(std::array<uint64_t,3> w) { Val v; v.type = tVec3i; v.v = w; return v; }
/// A new dictionary with its documented defaults.
Node Defaults(const Schema* s) { Node n = MakeNode(s); if (s == &sMain) { Set(n, "general_settings", "output_directory_name", S("queso_output")); Set(n, "general_settings", "echo_level", I(1)); Set(n, "general_settings", "write_output_to_file", B(true)); Set(n, "trimmed_quadrature_rule_settings", "moment_fitting_residual", D(1e-10)); Set(n, "trimmed_quadrature_rule_settings", "min_element_volume_ratio", D(1e-3)); Set(n, "trimmed_quadrature_rule_settings", "min_num_boundary_triangles", I(100)); Set(n, "trimmed_quadrature_rule_settings", "neglect_elements_if_stl_is_flawed", B(true)); Set(n, "non_trimmed_quadrature_rule_settings", "integration_method", M(0)); } else if (s == &sInfo) { Node& t = n.subs.at("elapsed_time_info"); t.values["total"] = D(0); for (const char* k : {"total", "classification_of_elements", "computation_of_intersections", "solution_of_moment_fitting_eqs", "construction_of_ggq_rules"}) Set(t, "volume_time_info", k, D(0)); Set(t, "conditions_time_info", "total", D(0)); Set(t, "write_files_time_info", "total", D(0)); } return n; }
const std::vector<IntegrationMethod> kMethods{IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2, IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};
const std::vector<std::string> kMethodNames{"Gauss", "Gauss_Reduced1", "Gauss_Reduced2", "GGQ_Optimal", "GGQ_Reduced1", "GGQ_Reduced2"}; const std::vector<std::string> kGridNames{"b_spline_grid", "hexahedral_fe_grid"};
const std::vector<GridType> kGrids{GridType::b_spline_grid, GridType::hexahedral_fe_grid};
bool Same(const Val& a, const Val& b) { return a.type == b.type && a.d == b.d && a.i == b.i && a.b == b.b && a.s == b.s && a.p == b.p && a.v == b.v && a.e == b.e; }
const Key* Find(const Schema* s, const std::string& k) { for (auto& q : s->values) if (q.name == k) return &q; return nullptr; }

/// Reads a value back as type t; throws what the library throws.
Val Read(const Dict& d, const std::string& k, T t) {
    switch (t) { case tDouble: return D(SA::GetValue<double>(d, k)); case tIndex: return I(SA::GetValue<IndexType>(d, k)); case tBool: return B(SA::GetValue<bool>(d, k)); case tString: return S(SA::GetValue<std::string>(d, k));
        case tPoint: { auto p = SA::GetValue<PointType>(d, k); return P({p[0], p[1], p[2]}); } case tVec3i: { auto p = SA::GetValue<Vector3i>(d, k); return W({p[0], p[1], p[2]}); }
        case tMethod: { auto m = SA::GetValue<IntegrationMethodType>(d, k); return M(int(std::find(kMethods.begin(), kMethods.end(), m)-kMethods.begin())); } default: { auto m = SA::GetValue<GridTypeType>(d, k); return G(int(std::find(kGrids.begin(), kGrids.end(), m)-kGrids.begin())); } }
}
void CheckEqual(pbt::Case& c, Dict& d, const Node& n, const std::string& path) {
    for (auto& k : n.s->values) { auto it = n.values.find(k.name); bool set = it != n.values.end(); c.Check(SA::Has(d, k.name), "has", path + k.name); c.Check(SA::IsSet(d, k.name) == set, "is-set", path + k.name); if (set) c.Check(Same(Read(d, k.name, k.type), it->second), "value", path + k.name); else { bool t = false; try { Read(d, k.name, k.type); } catch (const std::exception&) { t = true; } c.Check(t, "unset-value", path + k.name); } }
    for (auto& s : n.subs) { c.Check(SA::Has(d, s.first), "has", path + s.first); CheckEqual(c, SA::GetSubDictionary(d, s.first), s.second, path + s.first + "."); }
    for (auto& l : n.lists) { c.Check(SA::Has(d, l.first), "has", path + l.first); auto& v = SA::GetList(d, l.first); c.Check(v.size() == l.second.size(), "list-size", path + l.first); for (size_t i = 0; i < v.size(); ++i) CheckEqual(c, *v[i], l.second[i], path + l.first + "[" + std::to_string(i) + "]."); }
}
void CheckNum(pbt::Case& c, const Json& j, double x, const std::string& w) { c.Check(j.t == Json::num, "json-type", w); c.Near(j.n, x, 1e-9*std::fabs(x), "json-value", w); }
void CheckJson(pbt::Case& c, const Json& j, const Node& n, const std::string& path) {
    c.Check(j.t == Json::obj, "json-type", path); c.Check(j.o.size() == n.s->values.size()+n.subs.size()+n.lists.size(), "json-keys", path + ": " + std::to_string(j.o.size()) + " keys");
    auto at = [&](const std::string& k) -> const Json& { auto it = j.o.find(k); if (it == j.o.end()) c.Fail("json-keys", path + k); return it->second; };
    for (auto& k : n.s->values) { auto& x = at(k.name); auto it = n.values.find(k.name); if (it == n.values.end()) { c.Check(x.t == Json::str && x.s == "Not Set.", "json-unset", path + k.name); continue; } auto& v = it->second; switch (k.type) { case tDouble: CheckNum(c, x, v.d, path + k.name); break; case tIndex: CheckNum(c, x, double(v.i), path + k.name); break; case tBool: c.Check(x.t == Json::boolean && x.b == v.b, "json-value", path + k.name); break; case tString: c.Check(x.t == Json::str && x.s == v.s, "json-value", path + k.name + " '" + x.s + "'"); break; case tMethod: c.Check(x.t == Json::str && x.s == kMethodNames[v.e], "json-value", path + k.name); break; case tGrid: c.Check(x.t == Json::str && x.s == kGridNames[v.e], "json-value", path + k.name); break; default: c.Check(x.t == Json::arr && x.a.size() == 3, "json-type", path + k.name); for (int i = 0; i < 3; ++i) CheckNum(c, x.a[i], k.type == tPoint ? v.p[i] : double(v.v[i]), path + k.name); } }
    for (auto& s : n.subs) CheckJson(c, at(s.first), s.second, path + s.first + "."); for (auto& l : n.lists) { auto& x = at(l.first); c.Check(x.t == Json::arr && x.a.size() == l.second.size(), "json-type", path + l.first); for (size_t i = 0; i < x.a.size(); ++i) CheckJson(c, x.a[i], l.second[i], path + l.first + "."); }
}
bool Complete(const Node& n) { for (auto& k : n.s->values) if (k.required && !n.values.count(k.name)) return false; for (auto& s : n.subs) if (!Complete(s.second)) return false; for (auto& l : n.lists) for (auto& x : l.second) if (!Complete(x)) return false; return true; }

std::string RandomText(pbt::Src& s) { static const std::vector<std::string> pool{"", "a.stl", "dir/sub dir/x.stl", "Not Set", "SurfaceLoadCondition", "q\"uote", "back\\slash", "C:\\temp\\new.stl", "tab\there", "line\nbreak", "{\"a\" : 1}", "\x01\x1f", "ümlaut", "100%", "//", "'", "]", ","}; if (s.Chance(0.7)) return s.Pick(pool); std::string r; size_t n = s.Below(12); for (size_t i = 0; i < n; ++i) r += char(1+s.Below(126)); return r; }
double RandomDouble(pbt::Src& s) { switch (s.Below(5)) { case 0: return double(s.Int(-3, 3)); case 1: return s.Real(-10, 10); case 2: return s.LogReal(1e-300, 1e300); case 3: return -s.LogReal(1e-12, 1e12); default: return 0.1*double(s.Int(-20, 20)); } }
uint64_t RandomIndex(pbt::Src& s) { return s.Chance(0.7) ? s.Below(10) : s.Chance(0.5) ? s.Below(1u << 31) : s.Below(1ull << 53); }

/// Sets a random value of a random C++ type; returns whether it was accepted and the value that should be stored.
struct Attempt { bool accepted; bool expected; Val stored; std::string what; };
Attempt TrySet(pbt::Src& s, Dict& d, const std::string& k, const Key* key, T want) {
    Attempt a; a.accepted = false; a.expected = false; T t = key ? key->type : tDouble; T use = s.Chance(0.6) ? want : T(s.Below(8)); bool viaInt = false; long neg = 0;
    auto run = [&](auto v) { try { SA::SetValue(d, k, v); a.accepted = true; } catch (const std::exception&) { a.accepted = false; } };
    switch (use) {
        case tDouble: { double x = RandomDouble(s); run(x); a.expected = t == tDouble; a.stored = D(x); a.what = "double"; break; }
        case tIndex: { if (s.Chance(0.4)) { viaInt = true; neg = s.Int(-5, 50); run(int(neg)); a.what = "int " + std::to_string(neg); if (t == tDouble) { a.expected = true; a.stored = D(double(neg)); } else { a.expected = t == tIndex && neg >= 0; a.stored = I(uint64_t(neg)); } } else { uint64_t x = RandomIndex(s); run(IndexType(x)); a.what = "index"; if (t == tDouble) { a.expected = true; a.stored = D(double(x)); } else { a.expected = t == tIndex; a.stored = I(x); } } break; }
        case tBool: { bool b = s.Chance(0.5); run(b); a.expected = t == tBool; a.stored = B(b); a.what = "bool"; break; }
        case tString: { auto x = RandomText(s); run(x); a.expected = t == tString; a.stored = S(x); a.what = "string '" + x + "'"; break; }
        case tPoint: { V p{RandomDouble(s), RandomDouble(s), RandomDouble(s)}; run(PointType(p)); a.expected = t == tPoint; a.stored = P(p); a.what = "point"; break; }
        case tVec3i: { std::array<uint64_t,3> w{RandomIndex(s), RandomIndex(s), RandomIndex(s)}; run(Vector3i{w[0], w[1], w[2]}); a.what = "integer vector"; if (t == tPoint) { a.expected = true; a.stored = P({double(w[0]), double(w[1]), double(w[2])}); } else { a.expected = t == tVec3i; a.stored = W(w); } break; }
        case tMethod: { int e = int(s.Below(6)); run(kMethods[e]); a.expected = t == tMethod; a.stored = M(e); a.what = "method"; break; }
        default: { int e = int(s.Below(2)); run(kGrids[e]); a.expected = t == tGrid; a.stored = G(e); a.what = "grid type"; break; }
    }
    if (!key) a.expected = false;
    (void)viaInt; return a;
}
void Histories(pbt::Src& s, pbt::Case& c) {
    const Schema* root = kRoots[s.Below(kRoots.size())]; auto p = DictionaryFactory<key::MainValuesTypeTag>::Create(root->name); Node n = Defaults(root); CheckEqual(c, *p, n, ""); int steps = int(s.Int(1, 40)), ok = 0, rejected = 0; c.desc << root->name << ":";
    for (int i = 0; i < steps; ++i) {
        // Walk to a random node.
        Dict* d = p.get(); Node* q = &n; std::string path; while (true) { std::vector<std::string> ch; for (auto& x : q->subs) ch.push_back(x.first); size_t lists = 0; for (auto& l : q->lists) if (!l.second.empty()) ++lists; if (ch.empty() && !lists) break; if (!ch.empty() && !(lists && s.Chance(0.4))) { if (s.Chance(0.15)) break; auto k = s.Pick(ch); d = &SA::GetSubDictionary(*d, k); q = &q->subs.at(k); path += k + "."; } else { auto& l = *std::find_if(q->lists.begin(), q->lists.end(), [](auto& z) { return !z.second.empty(); }); size_t j = s.Below(l.second.size()); d = SA::GetList(*d, l.first)[j].get(); q = &l.second[j]; path += l.first + "."; } }
        int op = int(s.Below(10));
        if (op < 6) { std::string k; const Key* key = nullptr; if (!q->s->values.empty() && s.Chance(0.85)) { key = &q->s->values[s.Below(q->s->values.size())]; k = key->name; } else { static const std::vector<std::string> other{"", "no_such_key", "general_settings", "conditions_settings_list", "volume", "total", "Input_filename", "input_filename ", "echo_level", "modulus", "is_closed"}; k = s.Pick(other); key = Find(q->s, k); } auto a = TrySet(s, *d, k, key, key ? key->type : tDouble); c.desc << " " << path << k << "=" << a.what; c.CheckF(a.accepted == a.expected, a.expected ? "valid-rejected" : "invalid-accepted", [&]{ return path + k + " = " + a.what; }); if (a.expected) { q->values[k] = a.stored; ++ok; } else ++rejected; }
        else if (op == 6) { std::string k = q->s->values.empty() ? "x" : s.Pick(q->s->values).name; T t = T(s.Below(8)); const Key* key = Find(q->s, k); bool good = key && q->values.count(k) && key->type == t, threw = false; Val v; try { v = Read(*d, k, t); } catch (const std::exception&) { threw = true; } c.CheckF(threw != good, good ? "read-failed" : "wrong-type-read", [&]{ return path + k; }); if (good) c.Check(Same(v, q->values[k]), "value", path + k); }
        else if (op == 7) { bool threw = false; try { d->CheckRequired(); } catch (const std::exception&) { threw = true; } c.Check(threw != Complete(*q), "check-required", path + (threw ? "complete dictionary rejected" : "incomplete dictionary accepted")); }
        else if (op == 8) { if (!q->lists.empty() && s.Chance(0.8)) { auto& l = *q->lists.begin(); const Schema* es = root == &sMain ? &sCond : &sCondInfo; SA::GetList(*d, l.first).push_back(DictionaryFactory<key::MainValuesTypeTag>::Create(es->name)); l.second.push_back(Defaults(es)); c.desc << " append"; } else { static const std::vector<std::string> bad{"nope", "", "lower_bound_xyz"}; auto k = s.Pick(bad); int thr = 0; try { SA::GetSubDictionary(*d, k); } catch (const std::exception&) { ++thr; } try { SA::GetList(*d, k); } catch (const std::exception&) { ++thr; } c.Check(thr == 2, "unknown-key", path + k); c.Check(SA::Has(*d, k) == (Find(q->s, k) != nullptr), "has", k); } }
        else { if (s.Chance(0.5)) { auto tmp = MakeUnique<Dict>(std::move(*p)); p = std::move(tmp); c.desc << " move"; } else if (root == &sMain) { Val v = I(s.Below(7)); (*p)[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, IndexType(v.i)); n.subs.at("general_settings").values["echo_level"] = v; auto& al = n.subs.at("trimmed_quadrature_rule_settings").values; auto got = (*p)[MainSettings::trimmed_quadrature_rule_settings].TryGetValue<double>(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha); auto it = al.find("activate_fictitious_domain_with_alpha"); c.Check(got.has_value() == (it != al.end()), "typed-access", "optional value"); if (got) c.Check(got->get() == it->second.d, "typed-access", "optional value"); if (Complete(n)) { p->CheckRequired(); auto& b = (*p)[MainSettings::background_grid_settings]; auto x = b.GetRequiredValue<PointType>(BackgroundGridSettings::upper_bound_xyz); c.Check(V{x[0], x[1], x[2]} == n.subs.at("background_grid_settings").values["upper_bound_xyz"].p, "typed-access", "upper_bound_xyz"); } } }
        CheckEqual(c, *p, n, "");
    }
    std::ostringstream o; o << *p; auto txt = o.str(); JsonParser jp{txt, 0, c}; CheckJson(c, jp.All(), n, "");
    if (s.Chance(0.1)) { std::string f = pbt::ScratchDir() + "/d.json"; IO::WriteDictionaryToJSON(*p, f); std::ifstream in(f); std::stringstream b; b << in.rdbuf(); auto t2 = b.str(); JsonParser j2{t2, 0, c}; CheckJson(c, j2.All(), n, ""); }
    c.Tag(root->name); c.Count("stored", ok); c.Count("rejected", rejected); c.Nontrivial(ok > 2);
}
PBT_PROP("Q25", "histories", "more than two accepted assignments", 60000, 2000000, 20, Histories);
void Unknown(pbt::Src& s, pbt::Case& c) { static const std::vector<std::string> bad{"", "settings", "Setting", "Settings ", "ModelInfos", "x"}; auto k = s.Pick(bad); bool threw = false; try { DictionaryFactory<key::MainValuesTypeTag>::Create(k); } catch (const std::exception&) { threw = true; } c.desc << "'" << k << "'"; c.Check(threw, "unknown-dictionary", k); c.Nontrivial(true); }
PBT_PROP("Q25", "factory", "every case", 200, 500, 20, Unknown);

// ---------------------------------------------------------------- Q26 validation
void Validate(pbt::Src& s, pbt::Case& c) {
    geo::Mesh m = geo::BoxMesh({0,0,0}, {1,1,1}, 1, 1, 1, 0); Grid g; for (int d = 0; d < 3; ++d) { g.lo[d] = s.Mixed(-2, 0.6); g.hi[d] = g.lo[d]+s.LogReal(0.05, 4); g.ulo[d] = s.Mixed(-2, 2); g.uhi[d] = g.ulo[d]+s.LogReal(0.05, 4); g.n[d] = size_t(s.Int(1, 3)); g.p[d] = size_t(s.Chance(0.85) ? s.Int(1, 4) : s.Int(0, 12)); } if (s.Chance(0.5)) g.p[1] = g.p[2] = g.p[0]; g.fe = s.Chance(0.4); g.method = s.Pick(kMethods); g.minTri = 10;
    std::vector<std::string> why; int w = int(s.Below(12));
    if (w == 0) { g.n[s.Below(3)] = 0; why.push_back("no elements"); }
    else if (w == 1) { int d = int(s.Below(3)); std::swap(g.lo[d], g.hi[d]); why.push_back("physical box inverted"); }
    else if (w == 2) { int d = int(s.Below(3)); std::swap(g.ulo[d], g.uhi[d]); why.push_back("parametric box inverted"); }
    else if (w == 3) { int d = int(s.Below(3)); if (s.Chance(0.5)) g.hi[d] = g.lo[d]; else g.uhi[d] = g.ulo[d]; why.push_back("box without extent"); }
    else if (w == 4) { int d = int(s.Below(3)); (s.Chance(0.5) ? g.hi : g.lo)[d] = s.Chance(0.5) ? NAN : INFINITY*(s.Chance(0.5) ? 1 : -1); why.push_back("box not finite"); }
    else if (w == 5) { g.residual = s.Pick(std::vector<double>{0, -1e-10, -1, NAN}); why.push_back("residual not positive"); }
    auto set = Settings(g); std::string unset; if (s.Chance(0.2)) { // leave one required value out
        auto fresh = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings"); static const std::vector<std::pair<std::string,std::string>> req{{"general_settings", "input_filename"}, {"background_grid_settings", "grid_type"}, {"background_grid_settings", "lower_bound_xyz"}, {"background_grid_settings", "upper_bound_xyz"}, {"background_grid_settings", "lower_bound_uvw"}, {"background_grid_settings", "upper_bound_uvw"}, {"background_grid_settings", "polynomial_order"}, {"background_grid_settings", "number_of_elements"}}; auto [sub, k] = s.Pick(req); unset = k;
        for (auto& x : sMain.subs) for (auto& key : x.second->values) { if (key.name == k) continue; auto& from = SA::GetSubDictionary(*set, x.first); if (!SA::IsSet(from, key.name)) continue; auto& to = SA::GetSubDictionary(*fresh, x.first); Val v = Read(from, key.name, key.type); switch (key.type) { case tDouble: SA::SetValue(to, key.name, v.d); break; case tIndex: SA::SetValue(to, key.name, IndexType(v.i)); break; case tBool: SA::SetValue(to, key.name, v.b); break; case tString: SA::SetValue(to, key.name, v.s); break; case tPoint: SA::SetValue(to, key.name, PointType(v.p)); break; case tVec3i: SA::SetValue(to, key.name, Vector3i{v.v[0], v.v[1], v.v[2]}); break; case tMethod: SA::SetValue(to, key.name, kMethods[v.e]); break; default: SA::SetValue(to, key.name, kGrids[v.e]); } } set = std::move(fresh); why.push_back(k + " missing"); }
    bool condBad = false; if (s.Chance(0.25)) { auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); bool id = s.Chance(0.6), fn = s.Chance(0.6); if (id) cs->SetValue(ConditionSettings::condition_id, IndexType(1)); if (fn) cs->SetValue(ConditionSettings::input_filename, std::string("c.stl")); set->GetList(MainSettings::conditions_settings_list).push_back(std::move(cs)); condBad = !id || !fn; if (condBad) why.push_back("condition incomplete"); }
    size_t mn = *std::min_element(g.p.begin(), g.p.end()), mx = *std::max_element(g.p.begin(), g.p.end()); int me = int(g.method); if (mn < 1) why.push_back("order 0"); if (mx > 9) why.push_back("order above 9"); if (me == 2 && mn < 2) why.push_back("reduced rule of order 1"); if (me >= 3 && (mx > 4 || mn < 2)) why.push_back("order of the generalized rule"); if (me >= 3 && g.fe) why.push_back("generalized rule on finite elements");
    c.desc << g.Str(); for (auto& x : why) { c.desc << " [" << x << "]"; c.Tag(x.substr(0, 22)); }
    bool threw = false; std::string msg; try { auto em = EmbeddedModel::Create(std::move(set)); if (why.empty()) c.Tag("valid"); if (why.empty() && mx <= 2 && s.Chance(0.4)) { auto q = geo::ToQueso(m); em.CreateVolume(q.View()); double vol = 0, ex = 1; for (auto e : em.GetElementViews()) for (auto& p : e.GetIntegrationPoints()) vol += p.Weight()*DetJ(g); for (int d = 0; d < 3; ++d) ex *= std::max(0.0, std::min(1.0, g.hi[d])-std::max(0.0, g.lo[d])); c.Check(vol <= ex+1e-6*(ex+1), "built-volume", std::to_string(vol) + " exceeds " + std::to_string(ex)); c.Tag("built"); } } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { threw = true; msg = e.what(); }
    c.CheckF(threw == !why.empty(), why.empty() ? "valid-rejected" : "invalid-accepted", [&]{ return why.empty() ? msg : why[0]; }); c.Nontrivial(!why.empty());
}
PBT_PROP("Q26", "validation", "the settings break at least one rule", 60000, 900000, 20, Validate);
} // namespace
