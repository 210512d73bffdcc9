// Geometry generators and independent oracles (no library code is used for any expected value).
#pragma once
#include "pbt.h"
#include <array>
#include <algorithm>
#include <cmath>
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"

namespace geo {
using V = std::array<double, 3>;
inline V Add(const V& a, const V& b) { return {a[0]+b[0], a[1]+b[1], a[2]+b[2]}; }
inline V Sub(const V& a, const V& b) { return {a[0]-b[0], a[1]-b[1], a[2]-b[2]}; }
inline V Mul(const V& a, double s) { return {a[0]*s, a[1]*s, a[2]*s}; }
inline double DotP(const V& a, const V& b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
inline V CrossP(const V& a, const V& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double Len(const V& a) { return std::sqrt(DotP(a, a)); }
inline V Lerp(const V& a, const V& b, double t) { return {a[0]+t*(b[0]-a[0]), a[1]+t*(b[1]-a[1]), a[2]+t*(b[2]-a[2])}; }
inline std::string Str(const V& a) { char b[128]; snprintf(b, sizeof b, "(%.17g,%.17g,%.17g)", a[0], a[1], a[2]); return b; }

struct Mesh {
    std::vector<V> v; std::vector<std::array<int, 3>> t; std::string name; bool convex = false;
    int Vtx(const V& p) { v.push_back(p); return int(v.size()) - 1; }
    void Tri(int a, int b, int c) { t.push_back({a, b, c}); }
    void Quad(int a, int b, int c, int d, bool flip) { if (flip) { Tri(a, b, d); Tri(b, c, d); } else { Tri(a, b, c); Tri(a, c, d); } }
};
inline void Bounds(const Mesh& m, V& lo, V& hi) {
    lo = {1e300, 1e300, 1e300}; hi = {-1e300, -1e300, -1e300};
    for (auto& tr : m.t) for (int i : tr) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], m.v[i][d]); hi[d] = std::max(hi[d], m.v[i][d]); }
}
inline double Volume(const Mesh& m) {
    long double s = 0; V o = m.v.empty() ? V{0, 0, 0} : m.v[0];
    for (auto& t : m.t) { V a = Sub(m.v[t[0]], o), b = Sub(m.v[t[1]], o), c = Sub(m.v[t[2]], o); s += DotP(a, CrossP(b, c)); }
    return double(s / 6);
}
inline double TriArea(const V& a, const V& b, const V& c) { return 0.5 * Len(CrossP(Sub(b, a), Sub(c, a))); }
inline double Area(const Mesh& m) { long double s = 0; for (auto& t : m.t) s += TriArea(m.v[t[0]], m.v[t[1]], m.v[t[2]]); return double(s); }
inline void Append(Mesh& a, const Mesh& b) { int o = int(a.v.size()); for (auto& p : b.v) a.v.push_back(p); for (auto& t : b.t) a.Tri(t[0]+o, t[1]+o, t[2]+o); }
inline void Invert(Mesh& m) { for (auto& t : m.t) std::swap(t[1], t[2]); }

// ------------------------------------------------------------------ shapes (outward oriented, watertight)
inline Mesh BoxMesh(const V& lo, const V& hi, int nx, int ny, int nz, uint64_t flips) {
    Mesh m; m.name = "box"; m.convex = true; int n[3] = {nx, ny, nz};
    std::map<std::array<int, 3>, int> id;
    auto vid = [&](int i, int j, int k) { std::array<int, 3> key{i, j, k}; auto it = id.find(key); if (it != id.end()) return it->second;
        int idx[3] = {i, j, k}; V p; for (int d = 0; d < 3; ++d) p[d] = idx[d] == n[d] ? hi[d] : lo[d] + (hi[d]-lo[d])*idx[d]/n[d];
        return id[key] = m.Vtx(p); };
    int q = 0;
    for (int d = 0; d < 3; ++d) { int a = (d+1)%3, b = (d+2)%3;
        for (int s = 0; s < 2; ++s) for (int i = 0; i < n[a]; ++i) for (int j = 0; j < n[b]; ++j) {
            auto mk = [&](int ii, int jj) { int c[3]; c[d] = s ? n[d] : 0; c[a] = ii; c[b] = jj; return vid(c[0], c[1], c[2]); };
            int p0 = mk(i, j), p1 = mk(i+1, j), p2 = mk(i+1, j+1), p3 = mk(i, j+1); bool f = (flips >> (q++ % 61)) & 1;
            if (s) m.Quad(p0, p1, p2, p3, f); else m.Quad(p0, p3, p2, p1, f);
        } }
    return m;
}
inline Mesh IcoSphere(int level) {
    Mesh m; m.name = "ico"; m.convex = true; const double g = (1 + std::sqrt(5.0)) / 2;
    V p[12] = {{-1,g,0},{1,g,0},{-1,-g,0},{1,-g,0},{0,-1,g},{0,1,g},{0,-1,-g},{0,1,-g},{g,0,-1},{g,0,1},{-g,0,-1},{-g,0,1}};
    for (auto& a : p) m.Vtx(Mul(a, 1 / Len(a)));
    int f[20][3] = {{0,11,5},{0,5,1},{0,1,7},{0,7,10},{0,10,11},{1,5,9},{5,11,4},{11,10,2},{10,7,6},{7,1,8},{3,9,4},{3,4,2},{3,2,6},{3,6,8},{3,8,9},{4,9,5},{2,4,11},{6,2,10},{8,6,7},{9,8,1}};
    for (auto& q : f) m.Tri(q[0], q[1], q[2]);
    for (int l = 0; l < level; ++l) {
        std::map<std::pair<int,int>, int> mid; auto md = [&](int a, int b) { auto k = std::minmax(a, b); auto it = mid.find(k); if (it != mid.end()) return it->second; V c = Add(m.v[a], m.v[b]); return mid[k] = m.Vtx(Mul(c, 1 / Len(c))); };
        auto old = m.t; m.t.clear();
        for (auto& t : old) { int a = md(t[0],t[1]), b = md(t[1],t[2]), c = md(t[2],t[0]); m.Tri(t[0],a,c); m.Tri(t[1],b,a); m.Tri(t[2],c,b); m.Tri(a,b,c); }
    }
    return m;
}
/// Prism over a closed polygon that is star shaped about the origin; axis z from 0 to 1.
inline Mesh Prism(const std::vector<std::array<double, 2>>& poly, int layers) {
    Mesh m; m.name = "prism"; int n = int(poly.size());
    for (int k = 0; k <= layers; ++k) for (auto& p : poly) m.Vtx({p[0], p[1], double(k) / layers});
    int c0 = m.Vtx({0, 0, 0}), c1 = m.Vtx({0, 0, 1});
    for (int i = 0; i < n; ++i) { int j = (i+1) % n;
        for (int k = 0; k < layers; ++k) m.Quad(k*n+i, k*n+j, (k+1)*n+j, (k+1)*n+i, false);
        m.Tri(c0, j, i); m.Tri(c1, layers*n+i, layers*n+j); }
    return m;
}
inline Mesh Tube(int n, double rin) {
    Mesh m; m.name = "tube"; 
    for (int k = 0; k < 2; ++k) for (int r = 0; r < 2; ++r) for (int i = 0; i < n; ++i) { double a = 2*M_PI*i/n, R = r ? 1 : rin; m.Vtx({R*std::cos(a), R*std::sin(a), double(k)}); }
    auto id = [&](int k, int r, int i) { return (k*2+r)*n + (i % n); };
    for (int i = 0; i < n; ++i) {
        m.Quad(id(0,1,i), id(0,1,i+1), id(1,1,i+1), id(1,1,i), false);
        m.Quad(id(0,0,i+1), id(0,0,i), id(1,0,i), id(1,0,i+1), false);
        m.Quad(id(1,1,i), id(1,1,i+1), id(1,0,i+1), id(1,0,i), false);
        m.Quad(id(0,1,i+1), id(0,1,i), id(0,0,i), id(0,0,i+1), false);
    }
    return m;
}
inline Mesh Torus(int nu, int nv, double r) {
    Mesh m; m.name = "torus";
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) { double a = 2*M_PI*i/nu, b = 2*M_PI*j/nv; m.Vtx({(1+r*std::cos(b))*std::cos(a), (1+r*std::cos(b))*std::sin(a), r*std::sin(b)}); }
    auto id = [&](int i, int j) { return (i%nu)*nv + (j%nv); };
    for (int i = 0; i < nu; ++i) for (int j = 0; j < nv; ++j) m.Quad(id(i,j), id(i+1,j), id(i+1,j+1), id(i,j+1), (i+j) & 1);
    return m;
}
/// Boundary of a union of unit cubes. Cells are added so that the boundary stays manifold.
inline Mesh Voxels(const std::vector<char>& occ, int nx, int ny, int nz) {
    Mesh m; m.name = "voxels"; std::map<std::array<int,3>, int> id;
    auto at = [&](int i, int j, int k) { return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && occ[(k*ny+j)*nx+i]; };
    auto vid = [&](int i, int j, int k) { std::array<int,3> q{i,j,k}; auto it = id.find(q); return it != id.end() ? it->second : id[q] = m.Vtx({double(i), double(j), double(k)}); };
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) if (at(i,j,k))
        for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
            int q[3] = {i,j,k}; q[d] += s ? 1 : -1; if (at(q[0],q[1],q[2])) continue;
            int a = (d+1)%3, b = (d+2)%3; auto mk = [&](int ii, int jj) { int c[3] = {i,j,k}; c[d] += s; c[a] += ii; c[b] += jj; return vid(c[0],c[1],c[2]); };
            int p0 = mk(0,0), p1 = mk(1,0), p2 = mk(1,1), p3 = mk(0,1);
            if (s) m.Quad(p0,p1,p2,p3,false); else m.Quad(p0,p3,p2,p1,false);
        }
    return m;
}
/// 2x2x2 neighbourhood test: no vertex/edge where the solid touches itself without a shared face.
inline bool VoxelsManifold(const std::vector<char>& occ, int nx, int ny, int nz) {
    auto at = [&](int i, int j, int k) { return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && occ[(k*ny+j)*nx+i]; };
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        bool c[8]; for (int q = 0; q < 8; ++q) c[q] = at(i-1+(q&1), j-1+((q>>1)&1), k-1+(q>>2));
        for (int val = 0; val < 2; ++val) { // solid and void must both be face-connected around the vertex
            int seen = 0, first = -1, cnt = 0; for (int q = 0; q < 8; ++q) if (c[q] == bool(val)) { ++cnt; if (first < 0) first = q; }
            if (cnt == 0) continue; std::vector<int> st{first}; seen = 1 << first; int n = 1;
            while (!st.empty()) { int q = st.back(); st.pop_back(); for (int b = 1; b < 8; b <<= 1) { int r = q ^ b; if (!(seen >> r & 1) && c[r] == bool(val)) { seen |= 1 << r; ++n; st.push_back(r); } } }
            if (n != cnt) return false;
        }
    }
    return true;
}
using M3 = std::array<V, 3>;
inline M3 RandomRotation(pbt::Src& s) {
    double a = s.Real(0, 2*M_PI), b = s.Real(0, 2*M_PI), z = s.Real(0, 1); double r = std::sqrt(z);
    V w = {std::cos(b)*r, std::sin(b)*r, std::sqrt(1-z)}; double ca = std::cos(a), sa = std::sin(a);
    M3 R = {V{ca, sa, 0}, V{-sa, ca, 0}, V{0, 0, 1}}, H, M;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) H[i][j] = (i == j) - 2*w[i]*w[j];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { M[i][j] = 0; for (int k = 0; k < 3; ++k) M[i][j] -= H[i][k]*R[k][j]; }
    return M;
}
inline void Transform(Mesh& m, const M3& R, const V& sc, const V& t) {
    for (auto& p : m.v) { V q; for (int i = 0; i < 3; ++i) q[i] = DotP(R[i], p); for (int i = 0; i < 3; ++i) p[i] = q[i]*sc[i] + t[i]; }
}
struct SolidOpt { bool allowMulti = true; bool allowAligned = true; double scaleLo = 0.1, scaleHi = 100; double offset = 5; int maxTri = 400; bool onlyConvex = false; };

/// A random watertight solid. The description goes to `d`.
inline Mesh GenSolid(pbt::Src& s, std::ostream& d, const SolidOpt& o = {}) {
    Mesh m; int kind = int(s.Below(o.onlyConvex ? 3 : 9)); bool aligned = false;
    switch (kind) {
    case 0: m = BoxMesh({-1,-1,-1}, {1,1,1}, int(s.Int(1,3)), int(s.Int(1,3)), int(s.Int(1,3)), s.Below(1ull<<61)); break;
    case 1: m = IcoSphere(int(s.Int(0, 2))); break;
    case 2: { int n = int(s.Int(3, 16)); std::vector<std::array<double,2>> p; for (int i = 0; i < n; ++i) { double a = 2*M_PI*(i)/n; p.push_back({std::cos(a), std::sin(a)}); } m = Prism(p, int(s.Int(1,3))); m.name = "cylinder"; m.convex = true; for (auto& q : m.v) q[2] = 2*q[2]-1; break; }
    case 3: { m = IcoSphere(int(s.Int(1,2))); m.name = "star"; m.convex = false; double a = s.Real(0,0.35), b = s.Real(0,0.3); double f = double(s.Int(1,3)), g = double(s.Int(1,3)); for (auto& q : m.v) { double r = 1 + a*std::sin(f*3*q[0]+1)*std::cos(2*q[1]) + b*std::cos(g*2*q[2]+q[0]*3); q = Mul(q, r); } break; }
    case 4: { int n = 2*int(s.Int(3, 9)); double r2 = s.Real(0.4, 0.95); std::vector<std::array<double,2>> p; for (int i = 0; i < n; ++i) { double a = 2*M_PI*i/n, R = i % 2 ? r2 : 1; p.push_back({R*std::cos(a), R*std::sin(a)}); } m = Prism(p, int(s.Int(1,2))); m.name = "starprism"; for (auto& q : m.v) q[2] = 2*q[2]-1; break; }
    case 5: m = Tube(int(s.Int(4, 20)), s.Real(0.3, 0.85)); for (auto& q : m.v) q[2] = 2*q[2]-1; break;
    case 6: m = Torus(int(s.Int(5, 16)), int(s.Int(4, 10)), s.Real(0.2, 0.6)); break;
    case 7: { int nx = int(s.Int(1,4)), ny = int(s.Int(1,3)), nz = int(s.Int(1,3)); std::vector<char> occ(nx*ny*nz, 0); occ[0] = 1; int tries = int(s.Int(0, 14));
        for (int q = 0; q < tries; ++q) { int c = int(s.Below(occ.size())); if (occ[c]) continue; occ[c] = 1; if (!VoxelsManifold(occ, nx, ny, nz)) occ[c] = 0; }
        m = Voxels(occ, nx, ny, nz); for (auto& q : m.v) q = {2*q[0]/nx-1, 2*q[1]/ny-1, 2*q[2]/nz-1}; break; }
    default: { m = IcoSphere(1); Mesh in = IcoSphere(1); double r = s.Real(0.3, 0.7); for (auto& q : in.v) q = Mul(q, r); Invert(in); Append(m, in); m.name = "shell"; m.convex = false; break; }
    }
    if (o.allowMulti && !o.onlyConvex && s.Chance(0.08)) { Mesh b = m; for (auto& q : b.v) q[0] += 4; Append(m, b); m.name += "x2"; m.convex = false; }
    double base = s.Chance(0.5) ? s.LogReal(o.scaleLo, o.scaleHi) : 1.0; V sc, t;
    for (int i = 0; i < 3; ++i) { sc[i] = base * (s.Chance(0.5) ? s.Real(0.5, 2.0) : 1.0); t[i] = s.Chance(0.6) ? base * s.Real(-o.offset, o.offset) : 0.0; }
    M3 R = {V{1,0,0}, V{0,1,0}, V{0,0,1}};
    aligned = o.allowAligned && !s.Chance(0.6);
    if (!aligned) R = RandomRotation(s);
    Transform(m, R, sc, t);
    V lo, hi; Bounds(m, lo, hi);
    d << m.name << (aligned ? " aligned" : " rotated") << " tris=" << m.t.size() << " bbox=" << Str(lo) << Str(hi);
    if (aligned) m.name += "-aligned";
    return m;
}
inline queso::TriangleMesh ToQueso(const Mesh& m, bool soup = false) {
    queso::TriangleMesh q; q.Reserve(m.t.size());
    if (!soup) for (auto& p : m.v) q.AddVertex(p);
    for (auto& t : m.t) {
        V n = CrossP(Sub(m.v[t[1]], m.v[t[0]]), Sub(m.v[t[2]], m.v[t[0]])); double l = Len(n); if (l > 0) n = Mul(n, 1 / l);
        if (soup) { auto a = q.AddVertex(m.v[t[0]]), b = q.AddVertex(m.v[t[1]]), c = q.AddVertex(m.v[t[2]]); q.AddTriangle({a, b, c}, n); }
        else q.AddTriangle({size_t(t[0]), size_t(t[1]), size_t(t[2])}, n);
    }
    return q;
}
template<class TView> Mesh FromView(const TView& v) {
    Mesh m; for (size_t i = 0; i < v.NumOfTriangles(); ++i) { const auto t = v.template Triangle<queso::WithoutNormals>(i); int a = m.Vtx({t.P1[0],t.P1[1],t.P1[2]}), b = m.Vtx({t.P2[0],t.P2[1],t.P2[2]}), c = m.Vtx({t.P3[0],t.P3[1],t.P3[2]}); m.Tri(a,b,c); }
    return m;
}
// ------------------------------------------------------------------------------------------------ oracles
inline double Winding(const Mesh& m, const V& p) {
    long double w = 0;
    for (auto& t : m.t) {
        V a = Sub(m.v[t[0]], p), b = Sub(m.v[t[1]], p), c = Sub(m.v[t[2]], p);
        long double la = Len(a), lb = Len(b), lc = Len(c);
        long double num = DotP(a, CrossP(b, c)), den = la*lb*lc + DotP(a,b)*lc + DotP(b,c)*la + DotP(c,a)*lb;
        w += std::atan2(num, den);
    }
    return double(w / (2*M_PIl));
}
inline double DistPointTri(const V& p0, const V& a0, const V& b0, const V& c0) { // extended precision: slivers
    using R = long double; using W = std::array<R, 3>; auto sub = [](const W& x, const W& y) { return W{x[0]-y[0], x[1]-y[1], x[2]-y[2]}; }; auto dot = [](const W& x, const W& y) { return x[0]*y[0]+x[1]*y[1]+x[2]*y[2]; };
    W p{p0[0],p0[1],p0[2]}, a{a0[0],a0[1],a0[2]}, b{b0[0],b0[1],b0[2]}, c{c0[0],c0[1],c0[2]};
    auto seg = [&](const W& x, const W& y) { W d = sub(y, x), q = sub(p, x); R l = dot(d, d), t = l > 0 ? dot(q, d)/l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; W r{q[0]-t*d[0], q[1]-t*d[1], q[2]-t*d[2]}; return std::sqrt(dot(r, r)); };
    R best = std::min({seg(a, b), seg(b, c), seg(c, a)}); W ab = sub(b, a), ac = sub(c, a), ap = sub(p, a), n{ab[1]*ac[2]-ab[2]*ac[1], ab[2]*ac[0]-ab[0]*ac[2], ab[0]*ac[1]-ab[1]*ac[0]}; R nn = dot(n, n);
    if (nn > 0) { auto side = [&](const W& x, const W& y) { W d = sub(y, x), q = sub(p, x); return n[0]*(d[1]*q[2]-d[2]*q[1])+n[1]*(d[2]*q[0]-d[0]*q[2])+n[2]*(d[0]*q[1]-d[1]*q[0]); }; if (side(a, b) >= 0 && side(b, c) >= 0 && side(c, a) >= 0) best = std::min(best, std::fabs(dot(n, ap))/std::sqrt(nn)); } // projection inside
    return double(best);
}
inline double DistToMesh(const Mesh& m, const V& p) { double d = 1e300; for (auto& t : m.t) d = std::min(d, DistPointTri(p, m.v[t[0]], m.v[t[1]], m.v[t[2]])); return d; }

using Poly = std::vector<V>;
/// Keep the part with sign*(x[d]-c) <= 0.
inline Poly ClipPlane(const Poly& in, int d, double c, int sign) {
    Poly out; size_t n = in.size();
    for (size_t i = 0; i < n; ++i) { const V& a = in[i]; const V& b = in[(i+1)%n]; double fa = sign*(a[d]-c), fb = sign*(b[d]-c);
        if (fa <= 0) out.push_back(a);
        if ((fa < 0 && fb > 0) || (fa > 0 && fb < 0)) { V q = Lerp(a, b, fa/(fa-fb)); q[d] = c; out.push_back(q); } }
    return out;
}
inline Poly ClipBox(Poly p, const V& lo, const V& hi) { for (int d = 0; d < 3 && p.size() >= 3; ++d) { p = ClipPlane(p, d, hi[d], 1); if (p.size() >= 3) p = ClipPlane(p, d, lo[d], -1); } if (p.size() < 3) p.clear(); return p; }
inline double PolyArea(const Poly& p) { double s = 0; for (size_t i = 1; i + 1 < p.size(); ++i) s += TriArea(p[0], p[i], p[i+1]); return s; }
/// Area of the part of the surface inside [lo,hi].
inline double ClippedArea(const Mesh& m, const V& lo, const V& hi) { long double s = 0; for (auto& t : m.t) s += PolyArea(ClipBox({m.v[t[0]], m.v[t[1]], m.v[t[2]]}, lo, hi)); return double(s); }

inline void GaussLegendre(int n, std::vector<double>& x, std::vector<double>& w) { // on [0,1]
    x.resize(n); w.resize(n);
    for (int i = 0; i < n; ++i) {
        long double z = std::cos(M_PIl*(i+0.75L)/(n+0.5L)), pp = 1;
        for (int it = 0; it < 100; ++it) { long double p1 = 1, p2 = 0; for (int j = 0; j < n; ++j) { long double p3 = p2; p2 = p1; p1 = ((2*j+1)*z*p2 - j*p3)/(j+1); } pp = n*(z*p1-p2)/(z*z-1); long double dz = p1/pp; z -= dz; if (fabsl(dz) < 1e-18L) break; }
        x[i] = double((1-z)/2); w[i] = double(1/((1-z*z)*pp*pp));
    }
}
inline long double LegendreP(int i, long double x) { long double p0 = 1, p1 = x; if (i == 0) return p0; for (int j = 1; j < i; ++j) { long double p2 = ((2*j+1)*x*p1 - j*p0)/(j+1); p0 = p1; p1 = p2; } return p1; }
inline long double LegendreInt(int i, long double x) { // integral from -1 to x
    if (i == 0) return x + 1; return (LegendreP(i+1, x) - LegendreP(i-1, x)) / (2*i+1); }

/// Exact integrals over (solid bounded by m) ∩ [lo,hi] of L_i(x) L_j(y) L_k(z) (Legendre on the cell), index (i*(q+1)+j)*(r+1)+k.
/// Divergence theorem along x with a clamped antiderivative; no caps on the cell faces are ever constructed.
inline std::vector<double> ExactMoments(const Mesh& m, const V& lo, const V& hi, const std::array<int,3>& p) {
    size_t nf = size_t(p[0]+1)*(p[1]+1)*(p[2]+1); std::vector<long double> acc(nf, 0);
    V h = Sub(hi, lo); int n = (p[0]+p[1]+p[2]+1)/2 + 2; std::vector<double> gx, gw; GaussLegendre(n, gx, gw);
    std::vector<long double> X(p[0]+1), Y(p[1]+1), Z(p[2]+1);
    auto integrate = [&](const Poly& q, double nx, bool above) { // nx: x component of the unit normal
        for (size_t i = 1; i + 1 < q.size(); ++i) {
            double A2 = 2*TriArea(q[0], q[i], q[i+1]); if (A2 == 0) continue;
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) {
                double u = gx[a], v = gx[b]*(1-u), w = gw[a]*gw[b]*(1-u)*A2; V y;
                for (int d = 0; d < 3; ++d) y[d] = q[0][d] + u*(q[i][d]-q[0][d]) + v*(q[i+1][d]-q[0][d]);
                long double sx = above ? 1.0L : 2*(static_cast<long double>(y[0])-lo[0])/h[0]-1, sy = 2*(static_cast<long double>(y[1])-lo[1])/h[1]-1, sz = 2*(static_cast<long double>(y[2])-lo[2])/h[2]-1;
                for (int k = 0; k <= p[0]; ++k) X[k] = LegendreInt(k, sx)*h[0]/2;
                for (int k = 0; k <= p[1]; ++k) Y[k] = LegendreP(k, sy);
                for (int k = 0; k <= p[2]; ++k) Z[k] = LegendreP(k, sz);
                size_t r = 0; for (int i1 = 0; i1 <= p[0]; ++i1) for (int i2 = 0; i2 <= p[1]; ++i2) for (int i3 = 0; i3 <= p[2]; ++i3) acc[r++] += w*nx*X[i1]*Y[i2]*Z[i3];
            }
        }
    };
    for (auto& t : m.t) {
        V nrm = CrossP(Sub(m.v[t[1]], m.v[t[0]]), Sub(m.v[t[2]], m.v[t[0]])); double l = Len(nrm); if (l == 0) continue; double nx = nrm[0]/l; if (nx == 0) continue;
        Poly q{m.v[t[0]], m.v[t[1]], m.v[t[2]]};
        if (std::max({q[0][0],q[1][0],q[2][0]}) <= lo[0]) continue;
        for (int d = 1; d < 3 && q.size() >= 3; ++d) { q = ClipPlane(q, d, hi[d], 1); if (q.size() >= 3) q = ClipPlane(q, d, lo[d], -1); }
        if (q.size() < 3) continue;
        q = ClipPlane(q, 0, lo[0], -1); if (q.size() < 3) continue;
        double mx = -1e300, mn = 1e300; for (auto& a : q) { mx = std::max(mx, a[0]); mn = std::min(mn, a[0]); }
        if (mx <= hi[0]) integrate(q, nx, false);
        else if (mn >= hi[0]) integrate(q, nx, true);
        else { Poly mid = ClipPlane(q, 0, hi[0], 1), up = ClipPlane(q, 0, hi[0], -1);
            if (mid.size() >= 3) integrate(mid, nx, false);
            if (up.size() >= 3) integrate(up, nx, true); }
    }
    return std::vector<double>(acc.begin(), acc.end());
}
inline double ExactVolume(const Mesh& m, const V& lo, const V& hi) { return ExactMoments(m, lo, hi, {0,0,0})[0]; }

// separating-axis gap between a triangle and a box: > 0 separated by that distance, < 0 penetration depth
inline double TriBoxGap(const V& a, const V& b, const V& c, const V& lo, const V& hi) {
    V ctr = Mul(Add(lo, hi), 0.5), h = Mul(Sub(hi, lo), 0.5); V q[3] = {Sub(a, ctr), Sub(b, ctr), Sub(c, ctr)}; V e[3] = {Sub(q[1],q[0]), Sub(q[2],q[1]), Sub(q[0],q[2])};
    double best = -1e300; auto axis = [&](const V& n0) { double l = Len(n0); double scale = std::max({Len(e[0]), Len(e[1]), Len(e[2])}); if (l <= 1e-9*scale) return; V n = Mul(n0, 1/l);
        double mn = 1e300, mx = -1e300; for (auto& p : q) { double x = DotP(n, p); mn = std::min(mn, x); mx = std::max(mx, x); }
        double r = h[0]*std::fabs(n[0]) + h[1]*std::fabs(n[1]) + h[2]*std::fabs(n[2]); best = std::max(best, std::max(mn - r, -r - mx)); };
    for (int d = 0; d < 3; ++d) { V n{0,0,0}; n[d] = 1; axis(n); for (auto& ed : e) axis(CrossP(n, ed)); }
    V n = CrossP(e[0], e[1]); if (Len(n) > 1e-9*DotP(e[0], e[0])) axis(n);
    return best;
}
} // namespace geo
