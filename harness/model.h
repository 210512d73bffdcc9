// Random background-grid configurations and embedded models.
#pragma once
#include "geo.h"
#include "queso/embedded_model.h"
#include "queso/embedding/brep_operator.h"
#include "queso/includes/dictionary_factory.hpp"

namespace model {
using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
using geo::V;

struct Grid {
    V lo, hi, ulo, uhi; std::array<size_t, 3> n, p; bool fe = false; IntegrationMethod method = IntegrationMethod::gauss;
    double residual = 1e-10, minVol = 1e-3; size_t minTri = 100; bool neglect = true; double alpha = -1; // alpha<0: off
    size_t Num() const { return n[0]*n[1]*n[2]; }
    std::array<size_t,3> Ijk(size_t idx) const { return {idx % n[0], (idx / n[0]) % n[1], idx / (n[0]*n[1])}; }
    static double At(double a, double b, size_t i, size_t n) { return a + (b - a) * double(i) / double(n); }
    void Cell(size_t i, size_t j, size_t k, V& l, V& h) const { size_t q[3] = {i,j,k}; for (int d = 0; d < 3; ++d) { l[d] = At(lo[d], hi[d], q[d], n[d]); h[d] = At(lo[d], hi[d], q[d]+1, n[d]); } }
    void CellUvw(size_t i, size_t j, size_t k, V& l, V& h) const { size_t q[3] = {i,j,k}; for (int d = 0; d < 3; ++d) { if (fe) { l[d] = ulo[d]; h[d] = uhi[d]; } else { l[d] = At(ulo[d], uhi[d], q[d], n[d]); h[d] = At(ulo[d], uhi[d], q[d]+1, n[d]); } } }
    double CellVol() const { double v = 1; for (int d = 0; d < 3; ++d) v *= (hi[d]-lo[d])/double(n[d]); return v; }
    std::string Str() const { std::ostringstream o; o.precision(17); o << " grid " << geo::Str(lo) << geo::Str(hi) << " uvw " << geo::Str(ulo) << geo::Str(uhi) << " n=" << n[0] << "," << n[1] << "," << n[2] << " p=" << p[0] << "," << p[1] << "," << p[2] << (fe ? " FE" : " BSpline") << " method=" << int(method) << " res=" << residual << " minVol=" << minVol << " minTri=" << minTri << " neglect=" << neglect << " alpha=" << alpha; return o.str(); }
};
struct GridOpt { int maxN = 5; int maxP = 3; bool vary = false; size_t maxCells = 100; bool fitted = true; };

/// Grid around the box [blo,bhi]: loose, tight, partially covering.
inline Grid GenGrid(pbt::Src& s, const V& blo, const V& bhi, const GridOpt& o = {}) {
    Grid g;
    int style = int(s.Below(4)); // 0 tight, 1 padded, 2 padded asymmetric, 3 symmetric percent
    for (int d = 0; d < 3; ++d) {
        double L = bhi[d]-blo[d];
        if (style == 0 && o.fitted) { g.lo[d] = blo[d]; g.hi[d] = bhi[d]; }
        else if (style == 1) { double e = L*0.05; g.lo[d] = blo[d]-e; g.hi[d] = bhi[d]+e; }
        else { g.lo[d] = blo[d]-L*s.Real(0.001, 0.5); g.hi[d] = bhi[d]+L*s.Real(0.001, 0.5); }
    }
    for (int d = 0; d < 3; ++d) { g.n[d] = size_t(s.Int(1, o.maxN)); }
    while (g.Num() > o.maxCells) { int d = int(std::max_element(g.n.begin(), g.n.end()) - g.n.begin()); --g.n[d]; }
    if (s.Chance(0.6)) { size_t p = size_t(s.Int(1, o.maxP)); g.p = {p, p, p}; } else for (int d = 0; d < 3; ++d) g.p[d] = size_t(s.Int(1, o.maxP));
    g.fe = s.Chance(0.3);
    if (g.fe) { if (s.Chance(0.7)) { g.ulo = {-1,-1,-1}; g.uhi = {1,1,1}; } else for (int d = 0; d < 3; ++d) { g.ulo[d] = s.Real(-3, 3); g.uhi[d] = g.ulo[d] + s.Real(0.2, 4); } }
    else { int k = int(s.Below(3)); if (k == 0) { g.ulo = g.lo; g.uhi = g.hi; } else if (k == 1) { g.ulo = {0,0,0}; g.uhi = {1,1,1}; } else for (int d = 0; d < 3; ++d) { g.ulo[d] = s.Real(-3, 3); g.uhi[d] = g.ulo[d] + s.Real(0.2, 8); } }
    if (o.vary) {
        g.residual = s.Pick(std::vector<double>{1e-10, 1e-10, 1e-8, 1e-6, 1e-12}); g.minVol = s.Pick(std::vector<double>{1e-3, 1e-3, 1e-2, 0.1, 1e-4});
        g.minTri = s.Pick(std::vector<size_t>{100, 100, 50, 200, 10}); g.neglect = !s.Chance(0.2);
        g.method = s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::gauss, IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2});
        if (g.method == IntegrationMethod::gauss_reduced_2 && *std::min_element(g.p.begin(), g.p.end()) < 2) g.method = IntegrationMethod::gauss_reduced_1;
    }
    return g;
}
inline Unique<Dict> Settings(const Grid& g, const std::string& file = "dummy.stl", const std::string& out = "out", size_t echo = 0, bool write = false) {
    auto p = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    auto& s = *p; auto& gen = s[MainSettings::general_settings];
    gen.SetValue(GeneralSettings::input_filename, std::string(file)); gen.SetValue(GeneralSettings::output_directory_name, std::string(out));
    gen.SetValue(GeneralSettings::echo_level, IndexType(echo)); gen.SetValue(GeneralSettings::write_output_to_file, write);
    auto& b = s[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, g.fe ? GridType::hexahedral_fe_grid : GridType::b_spline_grid);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, PointType(g.lo)); b.SetValue(BackgroundGridSettings::upper_bound_xyz, PointType(g.hi));
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, PointType(g.ulo)); b.SetValue(BackgroundGridSettings::upper_bound_uvw, PointType(g.uhi));
    b.SetValue(BackgroundGridSettings::polynomial_order, Vector3i(g.p)); b.SetValue(BackgroundGridSettings::number_of_elements, Vector3i(g.n));
    auto& t = s[MainSettings::trimmed_quadrature_rule_settings];
    t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, g.residual); t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, g.minVol);
    t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, IndexType(g.minTri)); t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, g.neglect);
    if (g.alpha >= 0) t.SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, g.alpha);
    s[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, g.method);
    return p;
}
/// The same, with all required values marked as checked (needed when the embedded model is bypassed).
inline Unique<Dict> CheckedSettings(const Grid& g) { auto p = Settings(g); (*p)[MainSettings::general_settings].CheckRequired(); (*p)[MainSettings::background_grid_settings].CheckRequired(); (*p)[MainSettings::trimmed_quadrature_rule_settings].CheckRequired(); (*p)[MainSettings::non_trimmed_quadrature_rule_settings].CheckRequired(); return p; }
/// Own mapping between spaces (oracle).
inline V ToGlobal(const Grid& g, size_t idx, const V& u) { auto q = g.Ijk(idx); V l, h, ul, uh; g.Cell(q[0],q[1],q[2],l,h); g.CellUvw(q[0],q[1],q[2],ul,uh); V x; for (int d = 0; d < 3; ++d) x[d] = l[d] + (u[d]-ul[d])/(uh[d]-ul[d])*(h[d]-l[d]); return x; }
inline double DetJ(const Grid& g) { V ul, uh; g.CellUvw(0,0,0,ul,uh); double v = g.CellVol(); for (int d = 0; d < 3; ++d) v /= (uh[d]-ul[d]); return v; }
} // namespace model
