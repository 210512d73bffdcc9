// Quadrature rules: 1D tables, generalized Gaussian rules on blocks of full cells, Legendre basis, NNLS, surface rules.
#include "model.h"
#include <iostream>
#include "queso/embedding/element_builders.hpp"
#include "queso/quadrature/multiple_elements.hpp"
#include "queso/quadrature/integration_points_1d/integration_points_factory_1d.h"
#include "queso/solvers/nnls.h"
#include "queso/utilities/polynomial_utilities.hpp"
#include "queso/utilities/triangle_utilities.hpp"
using namespace model;
namespace {
using F1D = IntegrationPointFactory1D;
struct Space { int deg, cont; };
Space SpaceOf(int p, IntegrationMethod m) { return {m == IntegrationMethod::ggq_optimal ? 2*p : m == IntegrationMethod::ggq_reduced_1 ? 2*p-1 : 2*p-2, p-2}; }

/// Random function of the spline space with given degree/continuity on [0,e] with unit knot spans: combination of
/// compactly supported pieces (differences of truncated powers are avoided: B-splines by de Boor recursion).
struct Spline1D {
    int deg, e; std::vector<double> knots, c;
    Spline1D() = default;
    Spline1D(pbt::Src& s, int deg_, int cont, int e_, bool sparse) : deg(deg_), e(e_) {
        for (int i = 0; i <= deg; ++i) knots.push_back(0); for (int k = 1; k < e; ++k) for (int r = 0; r < deg-cont; ++r) knots.push_back(k); for (int i = 0; i <= deg; ++i) knots.push_back(e);
        size_t n = knots.size()-deg-1; c.assign(n, 0); if (sparse) c[s.Below(n)] = 1; else for (auto& v : c) v = double(s.Int(-4, 4)); }
    double operator()(double x) const { // de Boor
        int n = int(c.size()), k = deg; while (k < n-1 && x >= knots[k+1]) ++k; std::vector<double> d(deg+1); for (int j = 0; j <= deg; ++j) d[j] = c[j+k-deg];
        for (int r = 1; r <= deg; ++r) for (int j = deg; j >= r; --j) { double den = knots[j+1+k-r]-knots[j+k-deg]; double a = den == 0 ? 0 : (x-knots[j+k-deg])/den; d[j] = (1-a)*d[j-1]+a*d[j]; }
        return d[deg]; }
    double Integral(int a, double* mag = nullptr) const { static std::map<int, std::pair<std::vector<double>,std::vector<double>>> gl; auto& g = gl[deg]; if (g.first.empty()) geo::GaussLegendre(deg/2+2, g.first, g.second); double s = 0, m = 0; for (size_t q = 0; q < g.first.size(); ++q) { double v = g.second[q]*(*this)(a+g.first[q]); s += v; m += std::fabs(v); } if (mag) *mag = m; return s; }
};
IntegrationMethod GgqMethod(pbt::Src& s) { return s.Pick(std::vector<IntegrationMethod>{IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2}); }

// ------------------------------------------------------------------ 1D generalized Gaussian rules
void Ggq1D(pbt::Src& s, pbt::Case& c) {
    auto m = GgqMethod(s); int p = int(s.Int(2, 4)); int e = s.Chance(0.5) ? int(s.Int(1, 30)) : int(s.Int(1, 400)); auto sp = SpaceOf(p, m);
    c.desc << "p=" << p << " spans=" << e << " method=" << int(m); c.Tag("p" + std::to_string(p) + "m" + std::to_string(int(m)));
    auto pts = F1D::GetGGQ(size_t(p), size_t(e), m); auto& r = *pts;
    int n = (sp.deg+1)*2+(e-1)*(sp.deg-sp.cont)-sp.deg-1; size_t want = size_t((n+1)/2);
    c.CheckF(r.size() == want, "count", [&]{ return std::to_string(r.size()) + " points, dimension/2 = " + std::to_string(want); });
    double sum = 0, prev = -1; for (auto& q : r) { c.Check(q[1] > 0, "weight", "non-positive weight"); c.Check(q[0] > 0 && q[0] < 1, "outside", "point outside (0,1): " + std::to_string(q[0])); c.Check(q[0] > prev, "order", "points not ascending"); prev = q[0]; sum += q[1]; }
    c.Near(sum, 1, 1e-12, "sum", "weights");
    for (int k = 0; k < 4; ++k) { Spline1D f(s, sp.deg, sp.cont, e, k > 0); double got = 0, mag = 0, ex = 0; for (int i = 0; i < e; ++i) { double mm; ex += f.Integral(i, &mm)/e; mag += mm/e; }
        for (auto& q : r) got += q[1]*f(q[0]*e);
        double err = std::fabs(got-ex)/std::max(mag, 1e-300); c.Max("relative error", err); c.CheckF(err < 1e-9, "not-exact", [&]{ std::ostringstream o; o << "spline integral: rule " << got << " exact " << ex << " rel " << err; return o.str(); }); }
    c.Nontrivial(e > 1);
}
PBT_PROP("Q04", "ggq-1d", "more than one knot span", 60000, 1500000, 20, Ggq1D);
// every (p, method, e) in a range, and the plain Gauss tables
void Gauss1D(pbt::Src& s, pbt::Case& c) {
    int p = int(s.Int(0, 9)); int red = int(s.Below(3)); if (p - red < 0) throw pbt::Discard{}; auto m = red == 0 ? IntegrationMethod::gauss : red == 1 ? IntegrationMethod::gauss_reduced_1 : IntegrationMethod::gauss_reduced_2;
    c.desc << "gauss p=" << p << " reduced=" << red; auto& r = F1D::GetGauss(size_t(p), m); int n = p+1-red;
    c.CheckF(int(r.size()) == n, "gauss-count", [&]{ return std::to_string(r.size()) + " points, expected " + std::to_string(n); });
    for (int k = 0; k <= 2*n-1; ++k) { double got = 0; for (auto& q : r) got += q[1]*double(geo::LegendreP(k, 2*q[0]-1)); c.CheckF(std::fabs(got-(k == 0)) < 1e-13, "gauss-inexact", [&]{ std::ostringstream o; o << "degree " << k << " error " << got-(k==0); return o.str(); }); }
    for (auto& q : r) c.Check(q[1] > 0 && q[0] > 0 && q[0] < 1, "gauss-range", "weight/position"); c.Nontrivial(n > 1);
}
PBT_PROP("Q04", "gauss-1d", "more than one point", 2000, 4000, 20, Gauss1D);

// ------------------------------------------------------------------ blocks of full cells
std::string CellUvwStr(const Grid& g, size_t i, const V& p) { auto q = g.Ijk(i); V l, h; g.CellUvw(q[0],q[1],q[2],l,h); return "cell " + std::to_string(i) + " " + geo::Str(l) + geo::Str(h) + " point " + geo::Str(p); }
using BGrid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
void GgqBlocks(pbt::Src& s, pbt::Case& c) {
    Grid g; auto m = GgqMethod(s); g.method = m; g.fe = false;
    int style = int(s.Below(4)); int maxn = style == 0 ? 3 : style == 1 ? 6 : 9;
    for (int d = 0; d < 3; ++d) { g.n[d] = size_t(s.Int(1, maxn)); g.lo[d] = 0; g.hi[d] = 1; g.ulo[d] = s.Mixed(-2, 2); g.uhi[d] = g.ulo[d] + s.Mixed(0.5, 8); }
    if (s.Chance(0.12)) { int d = int(s.Below(3)); for (int e = 0; e < 3; ++e) g.n[e] = size_t(e == d ? s.Int(10, 60) : s.Int(1, 2)); } // long rows
    if (s.Chance(0.35)) { double sc = s.LogReal(1e-2, 1e4), off = s.Chance(0.5) ? s.Real(-1e4, 1e4) : 0; for (int d = 0; d < 3; ++d) { double L = g.uhi[d]-g.ulo[d]; g.ulo[d] = sc*g.ulo[d]+off; g.uhi[d] = g.ulo[d]+sc*L; } c.Tag("scaled parameter space"); }
    size_t p0 = size_t(s.Int(2, 4)); bool mixed = s.Chance(0.4); for (int d = 0; d < 3; ++d) g.p[d] = mixed ? size_t(s.Int(2, 4)) : p0;
    while (g.Num() > 250) { int d = int(std::max_element(g.n.begin(), g.n.end())-g.n.begin()); --g.n[d]; }
    // Pattern of full cells: everything / random / ball / random boxes / rows removed.
    std::vector<char> on(g.Num(), 1); int pat = int(s.Below(6)); double dens = s.Real(0.2, 0.97); V ctr; double rad = s.Real(0.25, 0.8); for (int d = 0; d < 3; ++d) ctr[d] = s.Real(0, 1);
    if (pat == 1) for (auto& x : on) x = s.Chance(dens);
    if (pat == 2) for (size_t i = 0; i < on.size(); ++i) { auto q = g.Ijk(i); double r2 = 0; for (int d = 0; d < 3; ++d) { double x = (q[d]+0.5)/g.n[d]-ctr[d]; r2 += x*x; } on[i] = r2 < rad*rad; }
    if (pat == 3) { std::fill(on.begin(), on.end(), 0); int nb = int(s.Int(1, 3)); for (int b = 0; b < nb; ++b) { size_t a[3], z[3]; for (int d = 0; d < 3; ++d) { a[d] = s.Below(g.n[d]); z[d] = a[d]+s.Below(g.n[d]-a[d]); } for (size_t i = 0; i < on.size(); ++i) { auto q = g.Ijk(i); bool in = true; for (int d = 0; d < 3; ++d) in = in && q[d] >= a[d] && q[d] <= z[d]; if (in) on[i] = 1; } } }
    if (pat == 4) { int d = int(s.Below(3)); size_t k = s.Below(g.n[d]); for (size_t i = 0; i < on.size(); ++i) if (g.Ijk(i)[d] == k) on[i] = 0; }
    if (pat == 5) { int nh = int(s.Int(1, 4)); for (int h = 0; h < nh; ++h) on[s.Below(on.size())] = 0; }
    size_t nfull = std::count(on.begin(), on.end(), 1); if (nfull == 0) throw pbt::Discard{};
    c.desc << "n=" << g.n[0] << "," << g.n[1] << "," << g.n[2] << " p=" << g.p[0] << "," << g.p[1] << "," << g.p[2] << " method=" << int(m) << " uvw " << geo::Str(g.ulo) << geo::Str(g.uhi) << " cells="; for (char x : on) c.desc << int(x);
    c.Tag("pattern:" + std::to_string(pat)); c.Tag("method:" + std::to_string(int(m)));
    auto st = CheckedSettings(g); BGrid grid(*st); UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint> b(*st); GridIndexer gi(*st);
    // Insertion order must not matter (it is nondeterministic in the library).
    std::vector<size_t> order; for (size_t i = 0; i < on.size(); ++i) if (on[i]) order.push_back(i); if (s.Chance(0.5)) for (size_t i = order.size(); i-- > 1;) std::swap(order[i], order[s.Below(i+1)]);
    grid.ReserveElements(order.size(), 0); for (size_t i : order) grid.MakeElement(b, i+1, ElementBounds{gi.GetBoundingBoxXYZFromIndex(i), gi.GetBoundingBoxUVWFromIndex(i)}); grid.LockElements();
    QuadratureMultipleElements<BGrid::UntrimmedElementType>::AssembleIPs(grid, Vector3i(g.p), m);
    // Oracle: random tensor-product splines on the grid knots.
    Space sp[3]; for (int d = 0; d < 3; ++d) sp[d] = SpaceOf(int(g.p[d]), m);
    struct Fn { Spline1D f[3]; double ex = 0, mag = 0, got = 0; }; std::vector<Fn> fs(6);
    for (int k = 0; k < 6; ++k) for (int d = 0; d < 3; ++d) fs[k].f[d] = Spline1D(s, sp[d].deg, sp[d].cont, int(g.n[d]), k > 1);
    for (auto& f : fs) if (&f == &fs[0]) for (int d = 0; d < 3; ++d) std::fill(f.f[d].c.begin(), f.f[d].c.end(), 1.0); // constant function: volume
    for (auto& f : fs) { std::vector<double> I[3], M[3]; for (int d = 0; d < 3; ++d) for (size_t a = 0; a < g.n[d]; ++a) { double mm; I[d].push_back(f.f[d].Integral(int(a), &mm)); M[d].push_back(mm); }
        for (size_t i : order) { auto q = g.Ijk(i); f.ex += I[0][q[0]]*I[1][q[1]]*I[2][q[2]]; f.mag += M[0][q[0]]*M[1][q[1]]*M[2][q[2]]; } }
    double cell = 1, hmin = 1e300, mag = 1; for (int d = 0; d < 3; ++d) { cell *= (g.uhi[d]-g.ulo[d])/g.n[d]; hmin = std::min(hmin, (g.uhi[d]-g.ulo[d])/g.n[d]); mag = std::max({mag, std::fabs(g.ulo[d]), std::fabs(g.uhi[d])}); }
    double tol = 1e-7+(1e-10+1e-14*mag)*1e2/hmin; // points are moved off the knots by up to 1e-10
    size_t npts = 0; for (auto& e : grid.GetElements<BGrid::ElementFilter::untrimmed>()) { auto q = g.Ijk(e.GetId()-1); V l, h; g.CellUvw(q[0],q[1],q[2],l,h); npts += e.GetIntegrationPoints().size();
        for (auto& ip : e.GetIntegrationPoints()) { c.Check(ip.Weight() > 0, "weight", "non-positive weight"); double X[3];
            for (int d = 0; d < 3; ++d) { c.CheckF(ip.Point()[d] >= l[d]-1e-9*mag && ip.Point()[d] <= h[d]+1e-9*mag, "outside-cell", [&]{ return CellUvwStr(g, e.GetId()-1, ip.Point()); }); X[d] = (ip.Point()[d]-g.ulo[d])/(g.uhi[d]-g.ulo[d])*g.n[d]; }
            for (auto& f : fs) f.got += ip.Weight()/cell*f.f[0](X[0])*f.f[1](X[1])*f.f[2](X[2]); } }
    size_t gauss = nfull; for (int d = 0; d < 3; ++d) gauss *= g.p[d]+1;
    c.CheckF(npts <= gauss, "more-than-gauss", [&]{ return std::to_string(npts) + " points, element-wise Gauss needs " + std::to_string(gauss); });
    for (size_t k = 0; k < fs.size(); ++k) { auto& f = fs[k]; if (f.mag < 1e-12) continue; double err = std::fabs(f.got-f.ex)/f.mag; c.Max("relative error", err/tol);
        c.CheckF(err < tol, k == 0 ? "volume" : "not-exact", [&]{ std::ostringstream o; o << "function " << k << ": rule " << f.got << " exact " << f.ex << " rel " << err; return o.str(); }); }
    c.Count("full cells", nfull); c.Nontrivial(nfull > 1 && nfull < g.Num());
}
PBT_PROP("Q05", "blocks", "more than one full cell and at least one cell that is not full", 40000, 600000, 30, GgqBlocks);

// ------------------------------------------------------------------ Legendre basis
void Legendre(pbt::Src& s, pbt::Case& c) {
    int k = int(s.Below(9)); double a = s.Mixed(-5, 5), L = s.Chance(0.5) ? s.Mixed(0.25, 8) : s.LogReal(1e-3, 1e3), b = a+L; double x = s.Mixed(a, b, 4), y = s.Mixed(a, b, 4); if (s.Chance(0.2)) x = a - s.Unit()*L; // also outside of the interval
    c.desc << "order " << k << " on [" << a << "," << b << "] x=" << x << " y=" << y; double sx = 2*(x-a)/L-1;
    double cond = 1+std::max(std::fabs(a), std::fabs(b))/L; double big = std::pow(std::max(1.0, std::fabs(sx)), k+1)*300;
    c.Near(Polynomial::f_x(x, size_t(k), a, b), double(geo::LegendreP(k, sx)), 1e-13*big*cond, "value", "Legendre value");
    double inc = double(geo::LegendreInt(k, 2*(y-a)/L-1)-geo::LegendreInt(k, sx))*L/2; double gi = Polynomial::f_x_int(y, size_t(k), a, b)-Polynomial::f_x_int(x, size_t(k), a, b);
    c.Near(gi, inc, 1e-13*big*cond*std::max(1.0, L)*10, "antiderivative", "integral between x and y");
    if (k > 0) c.Near(Polynomial::f_x_int(b, size_t(k), a, b)-Polynomial::f_x_int(a, size_t(k), a, b), 0, 1e-12*cond*L*100, "orthogonal-to-1", "integral over the interval");
    c.Tag("order:" + std::to_string(k)); c.Nontrivial(k > 0);
}
PBT_PROP("Q32", "legendre", "order above zero", 800000, 12000000, 10, Legendre);

// ------------------------------------------------------------------ NNLS
void Nnls(pbt::Src& s, pbt::Case& c) {
    int m = int(s.Int(1, 20)), n = int(s.Int(1, 30)); int style = int(s.Below(4)); double sc = s.Chance(0.3) ? s.LogReal(1e-3, 1e3) : 1;
    std::vector<double> A(size_t(m)*n), B(m), x0(n, 0);
    for (auto& v : A) v = style == 1 ? double(s.Int(-3, 3)) : sc*s.Real(-1, 1); if (style == 2) for (int j = 0; j < n; ++j) A[size_t(j)*m] = sc; // like the constant moment
    if (n > 2 && s.Chance(0.2)) for (int i = 0; i < m; ++i) A[size_t(1)*m+i] = A[i]; // duplicate column
    bool feasible = s.Chance(0.5); if (feasible) { for (auto& v : x0) v = s.Chance(0.4) ? s.Real(0, 2) : 0; for (int i = 0; i < m; ++i) { B[i] = 0; for (int j = 0; j < n; ++j) B[i] += A[size_t(j)*m+i]*x0[j]; } } else for (auto& v : B) v = s.Real(-2, 2);
    c.desc << m << "x" << n << " style " << style << " scale " << sc << (feasible ? " consistent" : " random rhs"); c.Tag(feasible ? "consistent" : "random"); c.Tag("style:" + std::to_string(style));
    auto A1 = A; auto B1 = B; std::vector<double> X(n); double res = NNLS::solve(A1, B1, X);
    c.Check(X.size() == size_t(n), "size", "wrong solution size"); double nb = 0, na = 0; for (double v : B) nb += v*v; nb = std::sqrt(nb); for (double v : A) na = std::max(na, std::fabs(v));
    std::vector<double> r(B); for (int j = 0; j < n; ++j) { c.Check(X[j] >= 0 && std::isfinite(X[j]), "negative", "x[" + std::to_string(j) + "]=" + std::to_string(X[j])); for (int i = 0; i < m; ++i) r[i] -= A[size_t(j)*m+i]*X[j]; }
    double rn = 0; for (double v : r) rn += v*v; rn = std::sqrt(rn); double xs = 0; for (double v : X) xs = std::max(xs, v);
    double scale = nb + na*xs*n; c.Near(res, rn, 1e-9*scale+1e-14, "residual", "reported residual vs ||Ax-b||");
    // KKT: gradient A^T r <= 0, and = 0 where x > 0.
    for (int j = 0; j < n; ++j) { double w = 0, cn = 0; for (int i = 0; i < m; ++i) { w += A[size_t(j)*m+i]*r[i]; cn += A[size_t(j)*m+i]*A[size_t(j)*m+i]; } double t = 1e-7*(std::sqrt(cn)*scale)+1e-14; c.Max("kkt", w/(std::sqrt(cn)*scale+1e-300));
        c.CheckF(w <= t, "not-optimal", [&]{ std::ostringstream o; o << "dual " << j << " = " << w; return o.str(); }); if (X[j] > 1e-9*(xs+1e-300)) c.CheckF(std::fabs(w) <= t, "not-stationary", [&]{ std::ostringstream o; o << "dual of active " << j << " = " << w; return o.str(); }); }
    if (feasible) c.CheckF(rn <= 1e-7*scale, "consistent-not-solved", [&]{ std::ostringstream o; o << "residual " << rn << " although an exact non-negative solution exists"; return o.str(); });
    size_t pos = 0; for (double v : X) pos += v > 0; c.CheckF(pos <= size_t(m), "support", [&]{ return std::to_string(pos) + " positive entries for " + std::to_string(m) + " equations"; });
    c.Nontrivial(m > 1 && n > 1 && pos > 0);
}
PBT_PROP("Q31", "kkt", "more than one row and column and a non-zero solution", 500000, 20000000, 20, Nnls);

// ------------------------------------------------------------------ surface rules
void TriRule(pbt::Src& s, pbt::Case& c) {
    V P[3]; double sc = s.LogReal(1e-2, 1e2); for (auto& p : P) for (int d = 0; d < 3; ++d) p[d] = sc*s.Mixed(-1, 1); double area = geo::TriArea(P[0], P[1], P[2]); if (area < 1e-6*sc*sc) throw pbt::Discard{};
    int method = int(s.Below(5)); static const int exact[5] = {1, 2, 4, 6, 6}; c.desc << "method " << method << geo::Str(P[0]) << geo::Str(P[1]) << geo::Str(P[2]);
    geo::Mesh gm; for (auto& p : P) gm.Vtx(p); gm.Tri(0, 1, 2); auto q = geo::ToQueso(gm); auto t = q.Triangle<WithNormals>(0);
    auto ips = TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(t, size_t(method));
    V n = geo::CrossP(geo::Sub(P[1],P[0]), geo::Sub(P[2],P[0])); n = geo::Mul(n, 1/geo::Len(n));
    std::vector<double> gx, gw; geo::GaussLegendre(8, gx, gw); double sum = 0;
    for (auto& ip : ips) { sum += ip.Weight(); for (int d = 0; d < 3; ++d) c.Near(ip.Normal()[d], n[d], 1e-7, "normal", "unit normal"); c.CheckF(geo::DistPointTri(ip.Point(), P[0], P[1], P[2]) < 1e-9*sc, "outside-triangle", [&]{ return geo::Str(ip.Point()); }); }
    c.Near(sum, area, 1e-9*area, "area", "weights");
    for (int a = 0; a <= exact[method]; ++a) for (int b = 0; a+b <= exact[method]; ++b) for (int e = 0; a+b+e <= exact[method]; ++e) {
        double got = 0, ex = 0, mag = 0; for (auto& ip : ips) got += ip.Weight()*std::pow(ip.Point()[0]/sc, a)*std::pow(ip.Point()[1]/sc, b)*std::pow(ip.Point()[2]/sc, e);
        for (size_t i = 0; i < gx.size(); ++i) for (size_t j = 0; j < gx.size(); ++j) { double u = gx[i], v = gx[j]*(1-u), w = gw[i]*gw[j]*(1-u)*2*area; V y; for (int d = 0; d < 3; ++d) y[d] = (P[0][d]+u*(P[1][d]-P[0][d])+v*(P[2][d]-P[0][d]))/sc; double f = std::pow(y[0],a)*std::pow(y[1],b)*std::pow(y[2],e); ex += w*f; mag += w*std::fabs(f); }
        (void)mag; c.Max("error", std::fabs(got-ex)/area); c.CheckF(std::fabs(got-ex) <= 1e-9*area, "not-exact", [&]{ std::ostringstream o; o << "x^" << a << " y^" << b << " z^" << e << ": " << got << " vs " << ex; return o.str(); }); }
    auto ctr = TriangleUtilities::Center(t); for (int d = 0; d < 3; ++d) c.Near(ctr[d], (P[0][d]+P[1][d]+P[2][d])/3, 1e-12*sc, "center"); c.Near(TriangleUtilities::Area(t), area, 1e-10*area+1e-12*sc*sc, "area-fn", "area");
    c.Tag("method:" + std::to_string(method)); c.Nontrivial(exact[method] > 1);
}
PBT_PROP("Q33", "triangle-rule", "rule of degree above one", 400000, 5000000, 20, TriRule);
} // namespace
