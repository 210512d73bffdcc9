// Files: STL round trips, malformed STL, VTK export, model info and the files of a model.
#include "model.h"
#include "json.h"
#include <fstream>
#include <filesystem>
#include <iostream>
#include <sys/stat.h>
#include "queso/io/io_utilities.h"
#include "queso/io/binary_buffer_writer.hpp"
#include "queso/utilities/mesh_utilities.h"
using namespace model;
using Model = EmbeddedModel;
namespace {
using Enc = IO::EncodingType;
std::string Slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
void Spit(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(b.data(), long(b.size())); }
template<class T> T Get(const std::string& b, size_t pos, bool big) { if (pos+sizeof(T) > b.size()) throw pbt::Failure{"file-truncated", "file ends at " + std::to_string(b.size())}; unsigned char q[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) q[i] = (unsigned char)b[pos+(big ? sizeof(T)-1-i : i)]; T v; std::memcpy(&v, q, sizeof(T)); return v; }
template<class T> void Put(std::string& b, T v) { char q[sizeof(T)]; std::memcpy(q, &v, sizeof(T)); b.append(q, sizeof(T)); }

struct Facet { V n; V p[3]; };
/// Independent strict reader of STL files as they are specified.
std::vector<Facet> ParseBinary(pbt::Case& c, const std::string& b) {
    c.Check(b.size() >= 84, "stl-size", "file has " + std::to_string(b.size()) + " bytes"); uint32_t n = Get<uint32_t>(b, 80, false); c.Check(b.size() == 84+size_t(n)*50, "stl-size", std::to_string(b.size()) + " bytes for " + std::to_string(n) + " triangles"); c.Check(b.compare(0, 5, "solid") != 0, "stl-header", "header of a binary file starts with solid");
    std::vector<Facet> r(n); for (size_t i = 0; i < n; ++i) { size_t o = 84+50*i; for (int d = 0; d < 3; ++d) { r[i].n[d] = Get<float>(b, o+4*d, false); for (int k = 0; k < 3; ++k) r[i].p[k][d] = Get<float>(b, o+12+12*k+4*d, false); } c.Check(Get<uint16_t>(b, o+48, false) == 0, "stl-attribute", "attribute bytes"); }
    return r;
}
std::vector<Facet> ParseAscii(pbt::Case& c, const std::string& b) {
    std::istringstream in(b); std::string w, line; std::getline(in, line); c.Check(line.compare(0, 5, "solid") == 0, "stl-header", "first line: " + line); std::vector<Facet> r; auto word = [&](const char* e) { in >> w; if (!in || w != e) c.Fail("stl-keyword", "expected " + std::string(e) + " got " + w); }; auto num = [&](double& x) { in >> w; char* e = nullptr; x = std::strtod(w.c_str(), &e); if (!in || *e || !std::isfinite(x)) c.Fail("stl-number", w); };
    while (in >> w) { if (w == "endsolid") { while (in >> w) c.Check(w != "facet" && w != "endfacet" && w != "solid" && w != "endsolid", "stl-keyword", "after the end of the solid: " + w); return r; } c.Check(w == "facet", "stl-keyword", "expected facet got " + w); Facet f; word("normal"); for (int d = 0; d < 3; ++d) num(f.n[d]); word("outer"); word("loop"); for (auto& p : f.p) { word("vertex"); for (int d = 0; d < 3; ++d) num(p[d]); } word("endloop"); word("endfacet"); r.push_back(f); }
    c.Fail("stl-keyword", "endsolid missing");
}
std::vector<Facet> ParseStl(pbt::Case& c, const std::string& b, Enc e) { return e == Enc::binary ? ParseBinary(c, b) : ParseAscii(c, b); }

geo::Mesh GenSurface(pbt::Src& s, pbt::Case& c) {
    geo::Mesh m; if (s.Chance(0.65)) { geo::SolidOpt so; so.maxTri = 300; m = geo::GenSolid(s, c.desc, so); if (s.Chance(0.2)) { size_t n = s.Below(m.t.size()+1); m.t.resize(n); } }
    else { int n = int(s.Int(0, 40)); for (int i = 0; i < n; ++i) { int id[3]; for (int j = 0; j < 3; ++j) id[j] = !m.v.empty() && s.Chance(0.4) ? int(s.Below(m.v.size())) : m.Vtx({s.Mixed(-5, 5), s.Mixed(-5, 5), s.Mixed(-5, 5)}); m.Tri(id[0], id[1], id[2]); } m.name = "soup"; }
    double sc = s.Chance(0.5) ? s.LogReal(1e-4, 1e6) : 1; V off{0,0,0}; if (s.Chance(0.3)) for (auto& x : off) x = s.Real(-1, 1)*s.LogReal(0.1, 1e4); for (auto& p : m.v) p = geo::Add(geo::Mul(p, sc), off); c.desc << " scale " << sc << " triangles " << m.t.size(); c.Tag("scale:1e" + std::to_string(int(std::floor(std::log10(sc))))); return m;
}
std::vector<Facet> Facets(const geo::Mesh& m) { std::vector<Facet> r; for (auto& t : m.t) r.push_back({V{0,0,0}, {m.v[t[0]], m.v[t[1]], m.v[t[2]]}}); return r; }
/// No two coordinates closer than what the reader treats as equal, and yet different.
bool WellSeparated(const std::vector<Facet>& f) { for (int d = 0; d < 3; ++d) { std::vector<double> x; for (auto& q : f) for (auto& p : q.p) x.push_back(double(float(p[d]))); std::sort(x.begin(), x.end()); for (size_t i = 1; i < x.size(); ++i) if (x[i] != x[i-1] && x[i]-x[i-1] < 1e-11) return false; } return true; }
/// The mesh read from a file consists of these triangles.
void CheckRead(pbt::Case& c, const TriangleMesh& q, const std::vector<Facet>& f, double rel, bool exactFloat) {
    q.Check(); c.Check(q.NumOfTriangles() == f.size(), "read-count", std::to_string(q.NumOfTriangles()) + " triangles instead of " + std::to_string(f.size())); std::set<std::array<float,3>> uniq; bool sep = WellSeparated(f);
    for (size_t i = 0; i < f.size(); ++i) { auto t = q.View().Triangle<WithNormals>(i); V p[3] = {{t.P1[0],t.P1[1],t.P1[2]}, {t.P2[0],t.P2[1],t.P2[2]}, {t.P3[0],t.P3[1],t.P3[2]}}; double L = 0; for (int k = 0; k < 3; ++k) { L = std::max(L, geo::Len(geo::Sub(p[k], p[(k+1)%3]))); std::array<float,3> u; for (int d = 0; d < 3; ++d) { double e = f[i].p[k][d]; c.Near(p[k][d], e, exactFloat && sep ? rel*0 + 6e-8*std::fabs(e) : rel*std::fabs(e)+2e-12, "read-vertex", "triangle " + std::to_string(i) + " corner " + std::to_string(k)); u[d] = float(e)+0.0f; } uniq.insert(u); }
        V n = geo::CrossP(geo::Sub(p[1], p[0]), geo::Sub(p[2], p[0])); double l = geo::Len(n); V g{t.Normal[0], t.Normal[1], t.Normal[2]}; if (l > 1e-5*L*L && L > 1e-5) c.CheckF(geo::DotP(g, n) > (1-1e-6)*l && std::fabs(geo::Len(g)-1) < 1e-9, "read-normal", [&]{ return "triangle " + std::to_string(i) + " " + geo::Str(g); }); }
    if (exactFloat && sep) c.Check(q.NumOfVertices() == uniq.size(), "read-vertices", std::to_string(q.NumOfVertices()) + " vertices instead of " + std::to_string(uniq.size()));
}

// ---------------------------------------------------------------- Q21 round trips
void RoundTrip(pbt::Src& s, pbt::Case& c) {
    auto m = GenSurface(s, c); auto e = s.Chance(0.5) ? Enc::ascii : Enc::binary; bool soup = s.Chance(0.3); auto q = geo::ToQueso(m, soup); std::string f = pbt::ScratchDir() + "/m.stl"; c.desc << (e == Enc::ascii ? " ascii" : " binary");
    if (s.Chance(0.5)) IO::WriteMeshToSTL(q, f, e); else IO::WriteMeshToSTL(q.View(), f, e); auto fs = Facets(m); auto b = Slurp(f); auto got = ParseStl(c, b, e);
    c.Check(got.size() == fs.size(), "write-count", std::to_string(got.size()) + " triangles instead of " + std::to_string(fs.size())); for (size_t i = 0; i < fs.size(); ++i) { for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) c.Near(got[i].p[k][d], fs[i].p[k][d], 1.2e-7*std::fabs(fs[i].p[k][d])+1e-38, "write-vertex", "triangle " + std::to_string(i) + " corner " + std::to_string(k)); auto& n = q.Normal(i); for (int d = 0; d < 3; ++d) c.Near(got[i].n[d], n[d], 1e-6, "write-normal", "triangle " + std::to_string(i)); }
    TriangleMesh r; if (s.Chance(0.3)) { r = geo::ToQueso(geo::BoxMesh({0,0,0}, {1,1,1}, 1, 1, 1, 0)); c.Tag("reused-mesh"); } IO::ReadMeshFromSTL(r, f); CheckRead(c, r, fs, 1.3e-7, e == Enc::binary);
    // What was read once is kept exactly from then on, in either encoding.
    auto e2 = s.Chance(0.5) ? Enc::ascii : Enc::binary; IO::WriteMeshToSTL(r, f, e2); TriangleMesh r2; IO::ReadMeshFromSTL(r2, f); c.Check(r2.NumOfTriangles() == r.NumOfTriangles() && r2.NumOfVertices() == r.NumOfVertices(), "second-trip", "sizes"); for (size_t i = 0; i < r.NumOfTriangles(); ++i) { auto a = r.View().Triangle<WithNormals>(i), b2 = r2.View().Triangle<WithNormals>(i); c.Check(std::equal(a.P1.begin(), a.P1.end(), b2.P1.begin()) && std::equal(a.P2.begin(), a.P2.end(), b2.P2.begin()) && std::equal(a.P3.begin(), a.P3.end(), b2.P3.begin()), "second-trip", "triangle " + std::to_string(i)); }
    c.Tag(e == Enc::ascii ? "ascii" : "binary"); c.Nontrivial(m.t.size() > 3);
}
PBT_PROP("Q21", "round-trip", "more than three triangles", 30000, 900000, 20, RoundTrip);

std::string Num(pbt::Src& s, int style, double x) { char b[64]; float f = float(x); switch (style) { case 0: snprintf(b, sizeof b, "%.9g", f); break; case 1: snprintf(b, sizeof b, "%.8e", f); break; case 2: snprintf(b, sizeof b, "%+.8E", f); break; case 3: snprintf(b, sizeof b, "%.17g", double(f)); break; default: if (std::floor(f) == f && std::fabs(f) < 1e6) snprintf(b, sizeof b, s.Chance(0.5) ? "%.0f" : "%.0f.", f); else snprintf(b, sizeof b, "%.9g", f); } return b; }
/// Files as other programs write them.
std::string ForeignAscii(pbt::Src& s, pbt::Case& c, const std::vector<Facet>& fs, std::vector<std::pair<size_t,size_t>>* blocks = nullptr) {
    std::string o, nl = s.Chance(0.3) ? "\r\n" : "\n", ind = s.Pick(std::vector<std::string>{"", "  ", "\t", "    "}), name = s.Pick(std::vector<std::string>{"", " part", " my part v2.1", " facet_part", " normal outer loop", " QuESoExport", " vertex 1 2 3"}); int st = int(s.Below(5)); bool blank = s.Chance(0.2), close = !s.Chance(0.1); o = "solid" + name + nl; c.desc << " name '" << name << "'" << (nl.size() == 2 ? " crlf" : ""); c.Tag("name:" + name); c.Tag("numbers:" + std::to_string(st));
    for (auto& f : fs) { size_t a = o.size(); o += ind + "facet normal"; for (int d = 0; d < 3; ++d) o += " " + Num(s, st, f.n[d]); o += nl + ind + ind + "outer loop" + nl; for (auto& p : f.p) { o += ind + ind + ind + "vertex"; for (int d = 0; d < 3; ++d) o += (s.Chance(0.1) ? "  " : " ") + Num(s, st, p[d]); o += nl; } o += ind + ind + "endloop" + nl + ind + "endfacet"; if (blocks) blocks->push_back({a+ind.size()+5, o.size()}); o += nl; if (blank && s.Chance(0.2)) o += nl; }
    o += "endsolid" + name; if (close) o += nl; return o;
}
std::string ForeignBinary(pbt::Src& s, pbt::Case& c, const std::vector<Facet>& fs) {
    std::string o = s.Pick(std::vector<std::string>{"", "solid part", "solid", "Exported from X", "COLOR=abcd,MATERIAL="}); c.Tag("header:" + o); c.desc << " header '" << o << "'"; o.resize(80, s.Chance(0.5) ? ' ' : '\0'); Put<uint32_t>(o, uint32_t(fs.size())); bool attr = s.Chance(0.5); for (auto& f : fs) { for (int d = 0; d < 3; ++d) Put<float>(o, float(f.n[d])); for (auto& p : f.p) for (int d = 0; d < 3; ++d) Put<float>(o, float(p[d])); Put<uint16_t>(o, attr ? uint16_t(s.Below(65536)) : 0); } return o;
}
std::vector<Facet> FloatFacets(pbt::Src& s, const geo::Mesh& m) { auto fs = Facets(m); bool wrong = s.Chance(0.3); for (auto& f : fs) { for (auto& p : f.p) for (auto& x : p) x = double(float(x)); V n = geo::CrossP(geo::Sub(f.p[1], f.p[0]), geo::Sub(f.p[2], f.p[0])); double l = geo::Len(n); f.n = l > 0 && !wrong ? geo::Mul(n, 1/l) : V{0,0,0}; } return fs; }
void Foreign(pbt::Src& s, pbt::Case& c) {
    auto m = GenSurface(s, c); auto fs = FloatFacets(s, m); bool ascii = s.Chance(0.6); std::string f = pbt::ScratchDir() + "/f.stl"; Spit(f, ascii ? ForeignAscii(s, c, fs) : ForeignBinary(s, c, fs)); TriangleMesh r; try { IO::ReadMeshFromSTL(r, f); } catch (const std::exception& e) { c.Fail("valid-file-rejected", e.what()); } CheckRead(c, r, fs, 0, true); c.Tag(ascii ? "ascii" : "binary"); c.Nontrivial(m.t.size() > 3);
}
PBT_PROP("Q21", "foreign", "more than three triangles", 40000, 900000, 20, Foreign);

/// Surfaces with so many triangles that the files are written in several blocks.
geo::Mesh LargeSurface(pbt::Src& s, pbt::Case& c, int nmin, int nmax) {
    geo::Mesh m; m.name = "sheet"; int nx = int(s.Int(nmin, nmax)), ny = int(s.Int(nmin, nmax)); double a = s.Real(-2, 2), b = s.Real(-2, 2), k = s.Real(0.1, 6), ox = s.Real(-5, 5); for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) { double x = double(i)/nx, y = double(j)/ny; m.v.push_back({ox+x, y, a*std::sin(k*x)+b*x*y}); }
    for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int p = i+j*(nx+1); m.Tri(p, p+1, p+nx+2); m.Tri(p, p+nx+2, p+nx+1); } c.desc << "sheet " << nx << "x" << ny << " " << a << " " << b << " " << k << " " << ox; return m;
}
void LargeRoundTrip(pbt::Src& s, pbt::Case& c) {
    auto m = LargeSurface(s, c, 40, 190); auto e = s.Chance(0.2) ? Enc::ascii : Enc::binary; auto q = geo::ToQueso(m); std::string f = pbt::ScratchDir() + "/l.stl"; IO::WriteMeshToSTL(q.View(), f, e); auto b = Slurp(f); auto got = ParseStl(c, b, e); auto fs = Facets(m);
    c.Check(got.size() == fs.size(), "write-count", std::to_string(got.size()) + " triangles instead of " + std::to_string(fs.size())); for (size_t i = 0; i < fs.size(); ++i) for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) c.Near(got[i].p[k][d], fs[i].p[k][d], 1.2e-7*std::fabs(fs[i].p[k][d])+1e-38, "write-vertex", "triangle " + std::to_string(i) + " corner " + std::to_string(k));
    TriangleMesh r; IO::ReadMeshFromSTL(r, f); CheckRead(c, r, fs, 1.3e-7, false); c.Tag(e == Enc::ascii ? "ascii" : "binary"); c.Nontrivial(b.size() > (1u << 20));
}
PBT_PROP("Q21", "large", "the file is larger than one megabyte", 160, 4000, 10, LargeRoundTrip);

/// The surface of a condition, which is kept in one piece per cell.
void ConditionTrip(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 120; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxN = 3; o.maxP = 1; o.maxCells = 27; auto g = GenGrid(s, lo, hi, o); auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); p->SetValue(ConditionSettings::condition_id, IndexType(1)); p->SetValue(ConditionSettings::condition_type, std::string("X")); p->SetValue(ConditionSettings::input_filename, std::string("x")); p->CheckRequired();
    size_t a = s.Below(m.t.size()), k = 1+s.Below(m.t.size()); geo::Mesh part; part.v = m.v; for (size_t j = 0; j < k; ++j) part.t.push_back(m.t[(a+j) % m.t.size()]); auto q = geo::ToQueso(m), qp = geo::ToQueso(part);
    g.minTri = 5; auto em = Model::Create(Settings(g)); em.CreateVolume(q.View()); em.CreateCondition(qp.View(), *p); auto& cond = *em.GetConditions().begin(); size_t pieces = cond.NumberOfSegments(); std::vector<Facet> ex; for (auto& sg : cond.GetSegments()) for (auto& f : Facets(geo::FromView(sg.GetTriangleMesh().View()))) ex.push_back(f);
    for (auto e : {Enc::ascii, Enc::binary}) { std::string f = pbt::ScratchDir() + "/c.stl"; IO::WriteConditionToSTL(cond, f, e); auto got = ParseStl(c, Slurp(f), e); c.Check(got.size() == ex.size(), "write-count", std::to_string(got.size()) + " triangles instead of " + std::to_string(ex.size())); TriangleMesh r; IO::ReadMeshFromSTL(r, f); CheckRead(c, r, ex, 1.3e-7, false); }
    c.Count("pieces", pieces); c.desc << g.Str() << " pieces " << pieces; c.Nontrivial(pieces > 1);
}
PBT_PROP("Q21", "condition", "the condition has at least two pieces", 2000, 80000, 20, ConditionTrip);

// ---------------------------------------------------------------- Q22 malformed files
void Malformed(pbt::Src& s, pbt::Case& c) {
    geo::Mesh m; int n = int(s.Int(1, 12)); for (int i = 0; i < n; ++i) { int id[3]; for (int j = 0; j < 3; ++j) id[j] = !m.v.empty() && s.Chance(0.4) ? int(s.Below(m.v.size())) : m.Vtx({s.Mixed(-5, 5), s.Mixed(-5, 5), s.Mixed(-5, 5)}); m.Tri(id[0], id[1], id[2]); } auto fs = FloatFacets(s, m);
    std::string f = pbt::ScratchDir() + "/x.stl", b; bool ascii = s.Chance(0.55), mustThrow = false; std::vector<std::pair<size_t,size_t>> blocks; std::string what; double bound = 1e30;
    b = ascii ? ForeignAscii(s, c, fs, &blocks) : ForeignBinary(s, c, fs); int op = int(s.Below(ascii ? 7 : 6));
    auto lineAt = [&](size_t a, int k) { size_t p = a; for (int i = 0; i < k; ++i) p = b.find('\n', p)+1; size_t e = b.find('\n', p); return std::make_pair(p, e); }; // line k after the facet keyword at a
    if (ascii) { auto [a, e] = blocks[s.Below(blocks.size())];
        if (op == 0) { size_t k = a+s.Below(e-a); b.resize(k); mustThrow = true; what = "cut within a facet"; }
        else if (op == 1) { auto [p, q] = lineAt(a, 2+int(s.Below(3))); size_t v = b.find("vertex", p)+6; std::vector<std::string> tok; std::istringstream is(b.substr(v, q-v)); std::string w; while (is >> w) tok.push_back(w); static const std::vector<std::string> bad{"", "abc", "nan", "inf", "-inf", "1e999", "-", "x1.0", "#", "--3"}; tok[s.Below(3)] = s.Pick(bad); std::string l; for (auto& t : tok) if (!t.empty()) l += " " + t; b.replace(v, q-v, l); mustThrow = true; what = "bad coordinate:" + l; }
        else if (op == 2) { int k = int(s.Below(6)); auto [p, q] = lineAt(a, k+1); size_t w = b.find_first_not_of(" \t", p); static const std::vector<std::string> bad{"", "xyz", "loop", "outer", "end", "1 2 3"}; std::string r = s.Pick(bad); size_t we = w; if (k == 0 || k >= 4) we = std::min(q, b.size()); else we = b.find_first_of(" \t\r\n", w); b.replace(w, we-w, r); mustThrow = true; what = "keyword of line " + std::to_string(k+1) + " replaced by '" + r + "'"; }
        else if (op == 3) { int k = 1+int(s.Below(6)); auto [p, q] = lineAt(a, k); b.erase(p, q-p+1); mustThrow = true; what = "line " + std::to_string(k) + " of a facet removed"; }
        else if (op == 4) { int k = 1+int(s.Below(5)); auto [p, q] = lineAt(a, k); std::string l = b.substr(p, q-p+1); b.insert(p, l); mustThrow = true; what = "line " + std::to_string(k) + " of a facet doubled"; }
        else { int k = int(s.Int(1, 8)); for (int i = 0; i < k && !b.empty(); ++i) { size_t p = s.Below(b.size()); int o = int(s.Below(3)); if (o == 0) b[p] = char(s.Below(256)); else if (o == 1) b.erase(p, 1+s.Below(20)); else b.insert(p, std::string(1+s.Below(4), char(s.Below(256)))); } what = "random edits"; } }
    else { size_t rec = 84+50*s.Below(fs.size());
        bool solid = b.compare(0, 5, "solid") == 0; // such a file may pass as an (empty) ascii file as long as it has no zero byte
        if (op == 0) { b.resize(s.Below(b.size())); mustThrow = !solid || b.size() >= 84; what = "cut to " + std::to_string(b.size()) + " bytes"; }
        else if (op == 1) { uint32_t k = s.Chance(0.6) ? uint32_t(fs.size()+1+s.Below(20)) : uint32_t(s.Pick(std::vector<uint64_t>{0xffffffffu, 0x7fffffffu, 0x10000000u, 0x1000000u})); std::memcpy(&b[80], &k, 4); mustThrow = !solid || b.substr(0, 84).find('\0') != std::string::npos; what = "count " + std::to_string(k); }
        else if (op == 2) { static const std::vector<uint32_t> bad{0x7fc00000u, 0x7f800000u, 0xff800000u, 0xffffffffu, 0x7f800001u}; uint32_t v = s.Pick(bad); std::memcpy(&b[rec+12+4*s.Below(9)], &v, 4); mustThrow = true; what = "coordinate is not finite"; }
        else if (op == 3) { std::string r; size_t k = s.Below(300); for (size_t i = 0; i < k; ++i) r += char(s.Below(256)); b = r; what = "random bytes"; }
        else { int k = int(s.Int(1, 6)); for (int i = 0; i < k; ++i) b[84+s.Below(b.size()-84)] = char(s.Below(256)); what = "random edits of the data"; bound = 1e39; } }
    c.desc << (ascii ? " ascii " : " binary ") << n << " triangles: " << what; Spit(f, b); TriangleMesh r; bool threw = false, ok = false; try { IO::ReadMeshFromSTL(r, f); ok = true; } catch (const std::exception&) { threw = true; }
    c.Check(!(mustThrow && !threw), "malformed-accepted", what);
    if (ok) { r.Check(); for (size_t i = 0; i < r.NumOfVertices(); ++i) for (int d = 0; d < 3; ++d) c.Check(std::isfinite(r.Vertex(i)[d]) && std::fabs(r.Vertex(i)[d]) <= bound*10, "bad-vertex", "vertex " + std::to_string(i)); }
    // The mesh object stays usable.
    auto box = geo::BoxMesh({0,0,0}, {1,2,3}, 1, 1, 1, 0); IO::WriteMeshToSTL(geo::ToQueso(box), f, Enc::binary); IO::ReadMeshFromSTL(r, f); CheckRead(c, r, Facets(box), 0, true);
    c.Tag((ascii ? "ascii:" : "binary:") + std::to_string(op)); c.Count(threw ? "rejected" : "accepted"); c.Nontrivial(mustThrow || threw);
}
PBT_PROP("Q22", "malformed", "the file violates the format for sure or is rejected", 60000, 2000000, 20, Malformed);

void Unwritable(pbt::Src& s, pbt::Case& c) {
    geo::Mesh m = geo::BoxMesh({0,0,0}, {1,1,1}, int(s.Int(1, 20)), int(s.Int(1, 20)), int(s.Int(1, 20)), 0); auto q = geo::ToQueso(m); auto e = s.Chance(0.5) ? Enc::ascii : Enc::binary; std::string d = pbt::ScratchDir(); int k = int(s.Below(4)); std::string f = k == 0 ? d + "/missing/m.stl" : k == 1 ? d : "/dev/full"; int w = int(s.Below(3)); c.desc << "target " << (k == 0 ? "missing directory" : k == 1 ? "directory" : "full device") << " writer " << w << " triangles " << m.t.size() << (e == Enc::ascii ? " ascii" : " binary"); bool threw = false;
    try { if (w == 0) IO::WriteMeshToSTL(q, f, e); else if (w == 1) IO::WriteMeshToVTK(q, f, e); else { auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings"); IO::WriteDictionaryToJSON(*p, f); } } catch (const std::exception&) { threw = true; }
    c.Check(threw, "write-failure-unreported", "no error"); threw = false; if (k < 2) { try { TriangleMesh r; IO::ReadMeshFromSTL(r, f); } catch (const std::exception&) { threw = true; } c.Check(threw, "unreadable-accepted", "no error"); } c.Tag("target:" + std::to_string(k)); c.Nontrivial(true);
}
PBT_PROP("Q22", "unwritable", "every case", 3000, 30000, 20, Unwritable);

// ---------------------------------------------------------------- Q23 VTK
struct Vtk { std::vector<V> pts; std::vector<std::vector<size_t>> cells; std::vector<int> types; std::vector<double> w; bool hasW = false; };
/// Independent reader of legacy VTK files.
Vtk ParseVtk(pbt::Case& c, const std::string& b, bool binary) {
    size_t pos = 0; auto line = [&] { size_t e = b.find('\n', pos); if (e == std::string::npos) c.Fail("vtk-truncated", "line expected"); std::string l = b.substr(pos, e-pos); pos = e+1; return l; }; auto skip = [&] { while (pos < b.size() && (b[pos] == '\n' || b[pos] == ' ' || b[pos] == '\r')) ++pos; };
    auto word = [&] { skip(); size_t e = b.find_first_of(" \n\r", pos); std::string w = b.substr(pos, e == std::string::npos ? e : e-pos); pos = e == std::string::npos ? b.size() : e; return w; }; auto expect = [&](const char* w) { auto g = word(); c.Check(g == w, "vtk-keyword", "expected " + std::string(w) + " got " + g.substr(0, 40)); };
    auto num = [&]() -> size_t { auto w = word(); char* e; auto v = std::strtoull(w.c_str(), &e, 10); if (w.empty() || *e) c.Fail("vtk-number", w); return v; }; auto dbl = [&] { if (binary) { double v = Get<double>(b, pos, true); pos += 8; return v; } auto w = word(); char* e; double v = std::strtod(w.c_str(), &e); if (w.empty() || *e) c.Fail("vtk-number", w); return v; }; auto itg = [&]() -> size_t { if (binary) { auto v = Get<uint32_t>(b, pos, true); pos += 4; return v; } return num(); };
    auto l = line(); c.Check(l.compare(0, 22, "# vtk DataFile Version") == 0, "vtk-header", l); line(); l = line(); c.Check(l == (binary ? "BINARY" : "ASCII"), "vtk-header", l); expect("DATASET"); expect("UNSTRUCTURED_GRID"); Vtk r; expect("POINTS"); size_t n = num(); expect("double"); ++pos; r.pts.resize(n); for (auto& p : r.pts) for (auto& x : p) x = dbl();
    expect("CELLS"); size_t nc = num(), tot = num(), used = 0; ++pos; for (size_t i = 0; i < nc; ++i) { size_t k = itg(); used += k+1; c.Check(used <= tot, "vtk-cells", "size of the cell list"); std::vector<size_t> ids; for (size_t j = 0; j < k; ++j) { ids.push_back(itg()); c.Check(ids.back() < n, "vtk-cells", "point index out of range"); } r.cells.push_back(ids); } c.Check(used == tot, "vtk-cells", "size of the cell list");
    expect("CELL_TYPES"); c.Check(num() == nc, "vtk-cells", "number of types"); ++pos; for (size_t i = 0; i < nc; ++i) r.types.push_back(int(itg())); skip();
    if (pos < b.size()) { expect("POINT_DATA"); c.Check(num() == n, "vtk-data", "size of the point data"); expect("SCALARS"); word(); expect("double"); c.Check(num() == 1, "vtk-data", "components"); expect("LOOKUP_TABLE"); expect("default"); ++pos; for (size_t i = 0; i < n; ++i) r.w.push_back(dbl()); r.hasW = true; skip(); c.Check(pos == b.size(), "vtk-data", "data after the end"); }
    return r;
}
void MeshVtk(pbt::Src& s, pbt::Case& c) {
    auto m = GenSurface(s, c); auto q = geo::ToQueso(m, s.Chance(0.3)); auto e = s.Chance(0.5) ? Enc::ascii : Enc::binary; std::string f = pbt::ScratchDir() + "/m.vtk"; IO::WriteMeshToVTK(q, f, e); auto r = ParseVtk(c, Slurp(f), e == Enc::binary); c.Check(r.cells.size() == m.t.size() && !r.hasW, "mesh-count", std::to_string(r.cells.size()));
    for (size_t i = 0; i < m.t.size(); ++i) { c.Check(r.types[i] == 5 && r.cells[i].size() == 3, "mesh-type", "cell " + std::to_string(i)); for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) { double x = m.v[m.t[i][k]][d]; c.Near(r.pts[r.cells[i][k]][d], x, e == Enc::binary ? 0 : 1e-15+2e-16*std::fabs(x), "mesh-vertex", "cell " + std::to_string(i)); } } c.Tag(e == Enc::ascii ? "ascii" : "binary"); c.Nontrivial(m.t.size() > 3);
}
PBT_PROP("Q23", "mesh", "more than three triangles", 20000, 600000, 20, MeshVtk);

void LargeVtk(pbt::Src& s, pbt::Case& c) {
    auto m = LargeSurface(s, c, 20, 190); auto q = geo::ToQueso(m); std::string f = pbt::ScratchDir() + "/m.vtk"; bool bin = !s.Chance(0.2); IO::WriteMeshToVTK(q, f, bin ? Enc::binary : Enc::ascii); auto b = Slurp(f); auto r = ParseVtk(c, b, bin); c.Check(r.cells.size() == m.t.size() && !r.hasW, "mesh-count", std::to_string(r.cells.size()));
    for (size_t i = 0; i < m.t.size(); ++i) { c.Check(r.types[i] == 5 && r.cells[i].size() == 3, "mesh-type", "cell " + std::to_string(i)); for (int k = 0; k < 3; ++k) for (int d = 0; d < 3; ++d) { double x = m.v[m.t[i][k]][d]; c.Near(r.pts[r.cells[i][k]][d], x, bin ? 0 : 1e-15+2e-16*std::fabs(x), "mesh-vertex", "cell " + std::to_string(i)); } } c.Tag(bin ? "binary" : "ascii"); c.Nontrivial(b.size() > (1u << 20));
}
PBT_PROP("Q23", "large", "the file is larger than one megabyte", 160, 4000, 10, LargeVtk);
/// The buffer between the writers and the file, with any capacity: the file is the plain sequence of what was written.
void Buffer(pbt::Src& s, pbt::Case& c) {
    std::string f = pbt::ScratchDir() + "/b.bin", want; bool big = s.Chance(0.5); size_t cap = s.Chance(0.1) ? size_t(1) << 20 : size_t(s.Int(1, 100)); int n = int(s.Int(0, 60)), flushed = 0; c.desc << (big ? "big" : "little") << " capacity " << cap << " writes " << n;
    auto val = [&](auto v) { char q[sizeof v]; std::memcpy(q, &v, sizeof v); if (big) std::reverse(q, q+sizeof v); want.append(q, sizeof v); };
    { std::ofstream o(f, std::ios::binary); { BinaryBufferWriter w(o, big ? BinaryBufferWriter::EndianType::big : BinaryBufferWriter::EndianType::little, cap);
        for (int i = 0; i < n; ++i) { int k = int(s.Below(8)); if (k == 0) { std::string r; size_t L = s.Below(s.Chance(0.2) ? 2*cap+2 : 20); for (size_t j = 0; j < std::min<size_t>(L, 300); ++j) r += char(s.Below(256)); w.WriteRaw(r.data(), r.size()); want += r; }
            else if (k == 1) { auto v = uint16_t(s.Below(65536)); w.WriteValue(v); val(v); } else if (k == 2) { auto v = int32_t(s.Below(1ull << 32)); w.WriteValue(v); val(v); } else if (k == 3) { float v = float(s.Real(-1e3, 1e3)); w.WriteValue(v); val(v); } else if (k == 4) { double v = s.Real(-1e3, 1e3); w.WriteValue(v); val(v); }
            else if (k == 5) { double v[3] = {s.Real(-1, 1), s.Real(-1, 1), s.Real(-1, 1)}; w.WriteArray(v); for (double x : v) val(x); } else if (k == 6) { auto v = s.Below(1ull << 60); w.WriteValue(v); val(v); } else { w.Flush(); ++flushed; o.flush(); c.Check(Slurp(f) == want, "buffer-flush", "write " + std::to_string(i)); } } } }
    c.Check(Slurp(f) == want, "buffer-bytes", std::to_string(want.size()) + " bytes written"); c.Nontrivial(want.size() > cap);
}
PBT_PROP("Q23", "buffer", "more bytes than the capacity of the buffer", 40000, 1000000, 20, Buffer);

using BG = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
struct RawBuilder { static constexpr BG::ElementFilter Builds = BG::ElementFilter::untrimmed; std::vector<IntegrationPoint> pts; std::optional<BG::UntrimmedElementType> Build(IndexType id, const ElementBounds& b) { return BG::UntrimmedElementType(id, b, pts); } };
struct RawTrimmed { static constexpr BG::ElementFilter Builds = BG::ElementFilter::trimmed; std::vector<IntegrationPoint> pts; std::optional<BG::TrimmedElementType> Build(IndexType id, const ElementBounds& b) { ClippedTriangleMesh m{}; return BG::TrimmedElementType(id, b, TrimmedDomain(std::move(m), b.global.lower, b.global.upper, nullptr, 0), pts); } };
void CheckCells(pbt::Case& c, const Vtk& r, const Grid& g, const std::vector<size_t>& ids, double tol) {
    c.Check(r.cells.size() == ids.size() && r.pts.size() == 8*ids.size() && !r.hasW, "element-count", std::to_string(r.cells.size()) + " cells instead of " + std::to_string(ids.size())); std::multiset<size_t> seen;
    for (size_t i = 0; i < r.cells.size(); ++i) { c.Check(r.types[i] == 12 && r.cells[i].size() == 8, "element-type", "cell " + std::to_string(i)); V p[8], ctr{0,0,0}; for (int k = 0; k < 8; ++k) { p[k] = r.pts[r.cells[i][k]]; ctr = geo::Add(ctr, geo::Mul(p[k], 0.125)); } size_t idx = 0, mul = 1; for (int d = 0; d < 3; ++d) { double x = (ctr[d]-g.lo[d])/(g.hi[d]-g.lo[d])*double(g.n[d]); c.Check(x > 0 && x < double(g.n[d]), "element-corner", "cell outside of the grid"); idx += size_t(x)*mul; mul *= g.n[d]; } seen.insert(idx+1); auto q = g.Ijk(idx); V lo, hi; g.Cell(q[0], q[1], q[2], lo, hi);
        static const int o[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}}; std::set<int> corners; for (int k = 0; k < 8; ++k) { int code = 0; for (int d = 0; d < 3; ++d) { bool up = p[k][d] > ctr[d]; c.Near(p[k][d], up ? hi[d] : lo[d], tol, "element-corner", "cell " + std::to_string(idx) + " corner " + std::to_string(k)); code |= up << d; } corners.insert(code); }
        c.Check(corners.size() == 8, "element-corner", "corner repeated in cell " + std::to_string(idx)); // VTK order: positive volume of a hexahedron with these corners
        double vol = 1; for (int d = 0; d < 3; ++d) vol *= hi[d]-lo[d]; c.Near(geo::DotP(geo::CrossP(geo::Sub(p[1], p[0]), geo::Sub(p[3], p[0])), geo::Sub(p[4], p[0])), vol, 1e-6*vol, "element-order", "cell " + std::to_string(idx)); for (int k = 0; k < 8; ++k) for (int j = 0; j < 8; ++j) { int a = 0, e = 0; for (int d = 0; d < 3; ++d) { a += o[k][d] != o[j][d]; e += (p[k][d] > ctr[d]) != (p[j][d] > ctr[d]); } c.Check(a == e, "element-order", "corners " + std::to_string(k) + " and " + std::to_string(j)); } }
    c.Check(seen == std::multiset<size_t>(ids.begin(), ids.end()), "element-set", "cells in the file are not the active cells");
}
using P4 = std::array<double,4>;
void CheckPoints(pbt::Case& c, const Vtk& r, std::vector<P4> ex, double abs, double rel) {
    c.Check(r.pts.size() == ex.size() && r.hasW && r.cells.size() == ex.size(), "point-count", std::to_string(r.pts.size()) + " points instead of " + std::to_string(ex.size())); std::vector<P4> got; for (size_t i = 0; i < ex.size(); ++i) { c.Check(r.types[i] == 1 && r.cells[i].size() == 1 && r.cells[i][0] == i, "point-cell", "cell " + std::to_string(i)); got.push_back({r.pts[i][0], r.pts[i][1], r.pts[i][2], r.w[i]}); }
    for (size_t i = 0; i < ex.size(); ++i) for (int d = 0; d < 4; ++d) c.Near(got[i][d], ex[i][d], abs+rel*std::fabs(ex[i][d]), d == 3 ? "point-weight" : "point-position", "point " + std::to_string(i));
}
void GridVtk(pbt::Src& s, pbt::Case& c) {
    V lo, hi; for (int d = 0; d < 3; ++d) { lo[d] = s.Mixed(-10, 10); hi[d] = lo[d]+s.LogReal(0.05, 50); } GridOpt o; o.maxN = 6; o.maxCells = 60; auto g = GenGrid(s, lo, hi, o); c.desc << g.Str(); auto set = CheckedSettings(g); BG bg(*set); GridIndexer ix(*set); std::vector<size_t> ids; double det = DetJ(g); size_t np = 0; double hc = 1e300, R = 0; for (int d = 0; d < 3; ++d) { hc = std::min(hc, (g.hi[d]-g.lo[d])/double(g.n[d])); R = std::max({R, std::fabs(g.lo[d]), std::fabs(g.hi[d])}); }
    for (size_t i = 0; i < g.Num(); ++i) { if (!s.Chance(0.6)) continue; auto q = g.Ijk(i); V ul, uh; g.CellUvw(q[0], q[1], q[2], ul, uh); std::vector<IntegrationPoint> pts; int k = int(s.Below(6)); for (int j = 0; j < k; ++j) { V u; for (int d = 0; d < 3; ++d) u[d] = s.Real(ul[d], uh[d]); pts.emplace_back(PointType{u[0], u[1], u[2]}, s.LogReal(1e-9, 10)); ++np; } ElementBounds b{ix.GetBoundingBoxXYZFromIndex(i), ix.GetBoundingBoxUVWFromIndex(i)}; if (s.Chance(0.5)) { RawTrimmed t; t.pts = pts; bg.MakeElement(t, i+1, b); } else { RawBuilder u; u.pts = pts; bg.MakeElement(u, i+1, b); } ids.push_back(i+1); }
    bg.LockElements(); c.desc << " active " << ids.size() << " points " << np; std::vector<P4> ex; for (auto e : bg.GetElementViews()) for (auto& p : e.GetIntegrationPoints()) { V x = ToGlobal(g, e.GetId()-1, {p[0], p[1], p[2]}); ex.push_back({x[0], x[1], x[2], p.Weight()*det}); } c.Check(ex.size() == np, "setup", "points lost in the container");
    auto e = s.Chance(0.5) ? Enc::ascii : Enc::binary; std::string f = pbt::ScratchDir() + "/g.vtk"; IO::WriteElementsToVTK(bg, f, e); CheckCells(c, ParseVtk(c, Slurp(f), e == Enc::binary), g, ids, 1e-12*(R+1)); IO::WritePointsToVTK(bg, f, e); CheckPoints(c, ParseVtk(c, Slurp(f), e == Enc::binary), ex, (e == Enc::ascii ? 1e-15 : 0)+1e-13*(R+1)*0, 1e-11*(1+R/hc)); c.Tag(e == Enc::ascii ? "ascii" : "binary"); c.Nontrivial(ids.size() > 1 && np > 1);
}
PBT_PROP("Q23", "grid", "two elements and two points", 60000, 900000, 20, GridVtk);
// (weights scaled by the determinant are compared relatively, see CheckPoints)

// ---------------------------------------------------------------- Q24 model info and files of a model
const Json& At(pbt::Case& c, const Json& j, const std::string& k) { auto it = j.o.find(k); if (it == j.o.end()) c.Fail("json-key", "key '" + k + "' missing"); return it->second; }

Unique<Dict> CondSet(size_t id, const std::string& file) { auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); p->SetValue(ConditionSettings::condition_id, IndexType(id)); p->SetValue(ConditionSettings::condition_type, std::string("X")); p->SetValue(ConditionSettings::input_filename, file); return p; }
void Info(pbt::Src& s, pbt::Case& c) {
    geo::SolidOpt so; so.maxTri = 150; so.scaleLo = 0.05; so.scaleHi = 50; so.offset = 3; auto m = geo::GenSolid(s, c.desc, so); V lo, hi; geo::Bounds(m, lo, hi); GridOpt o; o.maxN = 4; o.maxP = 2; o.maxCells = 36; o.vary = true; auto g = GenGrid(s, lo, hi, o); g.minTri = 20; if (!g.fe && s.Chance(0.2) && *std::min_element(g.p.begin(), g.p.end()) >= 2) g.method = s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2}); bool open = s.Chance(0.1); if (open) { g.neglect = false; m.t.erase(m.t.begin()+long(s.Below(m.t.size()))); } size_t echo = s.Below(3); c.desc << g.Str() << (open ? " open" : "") << " echo " << echo;
    std::string dir = pbt::ScratchDir() + "/out"; mkdir(dir.c_str(), 0700); std::string vf = pbt::ScratchDir() + "/v.stl"; bool files = s.Chance(0.5); geo::Mesh surf = m; auto q = geo::ToQueso(m); TriangleMesh used = q; if (files) { IO::WriteMeshToSTL(q, vf, s.Chance(0.5) ? Enc::ascii : Enc::binary); used = TriangleMesh(); IO::ReadMeshFromSTL(used, vf); }
    auto set = Settings(g, vf, dir, echo, true); size_t nc = s.Below(3); std::vector<size_t> cid; std::vector<geo::Mesh> cm; std::vector<Unique<Dict>> keep; for (size_t i = 0; i < nc; ++i) { geo::Mesh p; p.v = surf.v; size_t a = s.Below(surf.t.size()), k = 1+s.Below(surf.t.size()); for (size_t j = 0; j < k; ++j) p.t.push_back(surf.t[(a+j) % surf.t.size()]); cm.push_back(p); cid.push_back(i*7+s.Below(7)); std::string cf = pbt::ScratchDir() + "/c" + std::to_string(i) + ".stl"; if (files) { IO::WriteMeshToSTL(geo::ToQueso(p), cf, Enc::binary); set->GetList(MainSettings::conditions_settings_list).push_back(CondSet(cid[i], cf)); } }
    pbt::FixEntropy(s.Below(1000)); auto em = Model::Create(std::move(set)); double direct = 0; if (files) em.CreateAllFromSettings(); else { em.CreateVolume(q.View()); for (size_t i = 0; i < nc; ++i) { keep.push_back(CondSet(cid[i], "none")); keep.back()->CheckRequired(); auto x = geo::ToQueso(cm[i]); em.CreateCondition(x.View(), *keep.back()); } em.WriteModelToFile(); } (void)direct;
    // Recount everything from the elements.
    std::vector<size_t> ids; size_t nt = 0, nf = 0, pt = 0, pf = 0; double vol = 0, det = DetJ(g); std::vector<P4> pts; for (auto e : em.GetElementViews()) { ids.push_back(e.GetId()); size_t k = 0; for (auto& p : e.GetIntegrationPoints()) { ++k; vol += det*p.Weight(); V x = ToGlobal(g, e.GetId()-1, {p[0], p[1], p[2]}); pts.push_back({x[0], x[1], x[2], p.Weight()*det}); } (e.IsTrimmed() ? nt : nf)++; (e.IsTrimmed() ? pt : pf) += k; }
    auto um = geo::FromView(used.View()); double gv = MeshUtilities::Volume(used.View()), exact = geo::Volume(um), area = geo::Area(um), R = 0; for (auto& p : um.v) for (double x : p) R = std::max(R, std::fabs(x)); auto& info = em.GetModelInfo(); info.CheckRequired(); auto& gi = info[MainInfo::background_grid_info]; auto& qi = info[MainInfo::quadrature_info]; auto& ei = info[MainInfo::embedded_geometry_info]; auto& ti = info[MainInfo::elapsed_time_info];
    auto N = [&](auto& d, auto k) { return d.template GetRequiredValue<IndexType>(k); }; auto D = [&](auto& d, auto k) { return d.template GetRequiredValue<double>(k); };
    c.Check(N(gi, BackgroundGridInfo::num_active_elements) == ids.size() && N(gi, BackgroundGridInfo::num_trimmed_elements) == nt && N(gi, BackgroundGridInfo::num_full_elements) == nf && N(gi, BackgroundGridInfo::num_inactive_elements) == g.Num()-ids.size(), "element-counts", "reported " + std::to_string(N(gi, BackgroundGridInfo::num_active_elements)) + "/" + std::to_string(N(gi, BackgroundGridInfo::num_trimmed_elements)) + "/" + std::to_string(N(gi, BackgroundGridInfo::num_full_elements)) + "/" + std::to_string(N(gi, BackgroundGridInfo::num_inactive_elements)));
    c.Check(N(qi, QuadratureInfo::tot_num_points) == pt+pf, "point-counts", std::to_string(N(qi, QuadratureInfo::tot_num_points))); c.Near(D(qi, QuadratureInfo::represented_volume), vol, 1e-9*std::fabs(vol)+1e-300, "represented-volume", "volume of the points"); c.Near(D(qi, QuadratureInfo::num_of_points_per_full_element), nf ? double(pf)/double(nf) : 0, 1e-12*double(pf+1), "points-per-element", "full"); c.Near(D(qi, QuadratureInfo::num_of_points_per_trimmed_element), nt ? double(pt)/double(nt) : 0, 1e-12*double(pt+1), "points-per-element", "cut");
    if (!open) { c.Near(D(ei, EmbeddedGeometryInfo::volume), exact, 1e-9*area*R+1e-300, "geometry-volume", "volume of the surface"); if (1e-13*area*R < 1e-11*exact) c.Check(ei.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed), "closed", "closed surface reported as open"); } else { double qual = MeshUtilities::EstimateQuality(used.View()); c.Check(ei.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed) == (qual < 1e-10), "closed", "open surface"); } c.Near(D(qi, QuadratureInfo::percentage_of_geometry_volume), vol/gv*100, 1e-7*std::fabs(vol/gv*100), "percentage", "share of the volume");
    double tv = D(ti[ElapsedTimeInfo::volume_time_info], VolumeTimeInfo::total), tc = D(ti[ElapsedTimeInfo::conditions_time_info], ConditionsTimeInfo::total), tw = D(ti[ElapsedTimeInfo::write_files_time_info], WriteFilesTimeInfo::total), tt = D(ti, ElapsedTimeInfo::total); c.Check(tv > 0 && tc >= 0 && tw > 0 && (nc == 0) == (tc == 0), "times", "negative or missing time"); c.Near(tt, tv+tc+tw, 1e-9*tt+1e-12, "times", "total time");
    auto& cl = info.GetList(MainInfo::conditions_infos_list); c.Check(cl.size() == nc && em.GetConditions().size() == nc, "condition-infos", std::to_string(cl.size())); std::set<size_t> act(ids.begin(), ids.end()); for (size_t i = 0; i < nc; ++i) { double A = geo::Area(cm[i]); c.Check(N(*cl[i], ConditionInfo::condition_id) == cid[i], "condition-infos", "id"); c.Near(D(*cl[i], ConditionInfo::surf_area), A, 1e-5*A, "condition-infos", "area"); double in = 0; for (auto& sg : em.GetConditions()[i].GetSegments()) if (sg.IsInActiveElement()) in += geo::Area(geo::FromView(sg.GetTriangleMesh().View())); c.Near(D(*cl[i], ConditionInfo::perc_surf_area_in_active_domain), in/D(*cl[i], ConditionInfo::surf_area)*100, 1e-6, "condition-infos", "share of the area"); }
    // The files repeat all of it.
    auto js = Slurp(dir + "/model_info.json"); JsonParser jp{js, 0, c}; Json j = jp.All(); auto near = [&](const Json& v, double x, const char* w) { c.Check(v.t == Json::num, "json-type", w); c.Near(v.n, x, 2e-9*std::fabs(x), "json-value", w); };
    auto& jg = At(c, j, "background_grid_info"); near(At(c, jg, "num_active_elements"), double(ids.size()), "active"); near(At(c, jg, "num_trimmed_elements"), double(nt), "trimmed"); near(At(c, jg, "num_full_elements"), double(nf), "full"); near(At(c, jg, "num_inactive_elements"), double(g.Num()-ids.size()), "inactive"); auto& jq = At(c, j, "quadrature_info"); near(At(c, jq, "represented_volume"), D(qi, QuadratureInfo::represented_volume), "volume"); near(At(c, jq, "percentage_of_geometry_volume"), D(qi, QuadratureInfo::percentage_of_geometry_volume), "percentage"); near(At(c, jq, "tot_num_points"), double(pt+pf), "points"); near(At(c, jq, "num_of_points_per_full_element"), D(qi, QuadratureInfo::num_of_points_per_full_element), "points per full element"); near(At(c, jq, "num_of_points_per_trimmed_element"), D(qi, QuadratureInfo::num_of_points_per_trimmed_element), "points per cut element");
    auto& je = At(c, j, "embedded_geometry_info"); near(At(c, je, "volume"), D(ei, EmbeddedGeometryInfo::volume), "geometry volume"); c.Check(At(c, je, "is_closed").t == Json::boolean && At(c, je, "is_closed").b == ei.GetRequiredValue<bool>(EmbeddedGeometryInfo::is_closed), "json-value", "is_closed"); auto& jt = At(c, j, "elapsed_time_info"); near(At(c, jt, "total"), tt, "total time"); near(At(c, At(c, jt, "volume_time_info"), "total"), tv, "volume time"); near(At(c, At(c, jt, "conditions_time_info"), "total"), tc, "conditions time"); near(At(c, At(c, jt, "write_files_time_info"), "total"), tw, "write time"); auto& jc = At(c, j, "conditions_infos_list"); c.Check(jc.t == Json::arr && jc.a.size() == nc, "json-type", "list of conditions"); for (size_t i = 0; i < nc; ++i) { near(At(c, jc.a[i], "condition_id"), double(cid[i]), "condition id"); near(At(c, jc.a[i], "surf_area"), D(*cl[i], ConditionInfo::surf_area), "area"); near(At(c, jc.a[i], "perc_surf_area_in_active_domain"), D(*cl[i], ConditionInfo::perc_surf_area_in_active_domain), "share"); }
    double h = 1e300, GR = 0; for (int d = 0; d < 3; ++d) { h = std::min(h, (g.hi[d]-g.lo[d])/double(g.n[d])); GR = std::max({GR, std::fabs(g.lo[d]), std::fabs(g.hi[d])}); } CheckCells(c, ParseVtk(c, Slurp(dir + "/elements.vtk"), true), g, ids, 1e-11*GR); auto pv = ParseVtk(c, Slurp(dir + "/integration_points.vtk"), true); CheckPoints(c, pv, pts, 1e-10*GR*0+1e-12*GR, 1e-9*(1+GR/h));
    for (size_t i = 0; i < nc; ++i) { std::string f = dir + "/condition_id_" + std::to_string(cid[i]) + ".stl"; auto fs = ParseBinary(c, Slurp(f)); std::vector<Facet> ex; for (auto& sg : em.GetConditions()[i].GetSegments()) for (auto& x : Facets(geo::FromView(sg.GetTriangleMesh().View()))) ex.push_back(x); c.Check(fs.size() == ex.size(), "condition-file", "number of triangles " + std::to_string(fs.size())); for (size_t k = 0; k < ex.size(); ++k) for (int v = 0; v < 3; ++v) for (int d = 0; d < 3; ++d) c.Near(fs[k].p[v][d], ex[k].p[v][d], 1.2e-7*std::fabs(ex[k].p[v][d])+1e-38, "condition-file", "triangle " + std::to_string(k)); unlink(f.c_str());
        std::string f2 = dir + "/a.stl"; IO::WriteConditionToSTL(em.GetConditions()[i], f2, Enc::ascii); auto fa = ParseAscii(c, Slurp(f2)); c.Check(fa.size() == ex.size(), "condition-file", "number of triangles in the ascii file"); for (size_t k = 0; k < ex.size(); ++k) for (int v = 0; v < 3; ++v) for (int d = 0; d < 3; ++d) c.Near(fa[k].p[v][d], ex[k].p[v][d], 1.2e-7*std::fabs(ex[k].p[v][d])+1e-38, "condition-file", "ascii triangle " + std::to_string(k)); unlink(f2.c_str()); }
    c.Tag(files ? "from-files" : "from-meshes"); c.Tag("conditions:" + std::to_string(nc)); c.Nontrivial(nt > 0 && pt > 0);
}
PBT_PROP("Q24", "model-info", "at least one cut element with points", 4000, 200000, 30, Info);
} // namespace
