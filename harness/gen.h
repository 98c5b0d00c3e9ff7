// Generators shared by the harnesses: poses, shapes (fcl + reference twin), meshes, octrees.
#ifndef GEN_H
#define GEN_H
#include "pbt.h"
#include "ref.h"
#include <memory>
#include "fcl/common/types.h"
#include "fcl/geometry/shape/box.h"
#include "fcl/geometry/shape/sphere.h"
#include "fcl/geometry/shape/ellipsoid.h"
#include "fcl/geometry/shape/capsule.h"
#include "fcl/geometry/shape/cone.h"
#include "fcl/geometry/shape/cylinder.h"
#include "fcl/geometry/shape/convex.h"
#include "fcl/geometry/shape/halfspace.h"
#include "fcl/geometry/shape/plane.h"
#include "fcl/geometry/shape/triangle_p.h"

namespace gen {
using pbt::Ctx;
typedef fcl::Vector3d V3;
typedef fcl::Matrix3d M3;
typedef fcl::Transform3d T3;

inline V3 vec(Ctx& c, double s) { double x = c.real(-s, s), y = c.real(-s, s), z = c.real(-s, s); return V3(x, y, z); }
inline V3 dir(Ctx& c) {
  if (c.chance(1, 4)) { V3 e = V3::Zero(); int k = c.pick(3); e[k] = c.flip() ? -1 : 1; if (c.chance(1, 3)) { e[(k + 1) % 3] = c.flip() ? -1 : 1; if (c.chance(1, 3)) e[(k + 2) % 3] = c.flip() ? -1 : 1; e.normalize(); } return e; }
  double z = c.uni(-1, 1), a = c.uni(0, 2 * M_PI), q = std::sqrt(std::max(0.0, 1 - z * z)); return V3(q * std::cos(a), q * std::sin(a), z);
}
inline M3 axisRot(Ctx& c) {   // signed axis permutation
  int p = c.pick(24); static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; M3 m = M3::Zero(); int s = p / 6; const int* q = perm[p % 6];
  for (int i = 0; i < 3; i++) m(i, q[i]) = 1; if (s & 1) m.row(0) *= -1; if (s & 2) m.row(1) *= -1; if (m.determinant() < 0) m.row(2) *= -1; return m;
}
inline M3 rot(Ctx& c) {
  switch (c.weighted({2, 2, 1, 1, 6})) {
    case 0: return M3::Identity();
    case 1: return axisRot(c);
    case 2: return M3(Eigen::AngleAxisd(c.uni(-M_PI, M_PI), V3::Unit(c.pick(3))).toRotationMatrix());
    case 3: return M3(Eigen::AngleAxisd(c.uni(-1e-3, 1e-3), dir(c)).toRotationMatrix());
    default: { double a = c.uni(0, M_PI); V3 d = dir(c); return M3(Eigen::AngleAxisd(a, d).toRotationMatrix()); }
  }
}
inline T3 pose(Ctx& c, double s) { T3 t = T3::Identity(); t.linear() = rot(c); t.translation() = vec(c, s); return t; }
inline std::ostream& show(std::ostream& o, const V3& v) { return o << "(" << v[0] << "," << v[1] << "," << v[2] << ")"; }
inline std::ostream& show(std::ostream& o, const T3& t) { o << "T["; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) o << t.linear()(i, j) << (j < 2 ? " " : ""); o << "; "; } o << "| "; show(o, V3(t.translation())); return o << "]"; }

// ---- convex hulls ----------------------------------------------------------
struct Hull { std::vector<V3> v; std::vector<std::vector<int>> f; };
inline Hull randomHull(Ctx& c, double lo, double hi) {
  Hull H; int kind = c.weighted({2, 2, 1, 1, 2}); V3 s(c.pos_real(lo, hi), c.pos_real(lo, hi), c.pos_real(lo, hi));
  auto quad = [&](int a, int b, int d, int e) { H.f.push_back({a, b, d, e}); };
  if (kind == 0) {   // box
    for (int i = 0; i < 8; i++) H.v.push_back(V3(i & 1 ? s[0] : -s[0], i & 2 ? s[1] : -s[1], i & 4 ? s[2] : -s[2]));
    quad(0, 2, 3, 1); quad(4, 5, 7, 6); quad(0, 1, 5, 4); quad(2, 6, 7, 3); quad(0, 4, 6, 2); quad(1, 3, 7, 5);
  } else if (kind == 1) {   // n-gon prism / frustum
    int n = c.range(3, 7); double k = c.chance(1, 2) ? 1.0 : c.uni(0.4, 1.0);
    for (int l = 0; l < 2; l++) for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n; double q = l ? k : 1; H.v.push_back(V3(q * s[0] * std::cos(a), q * s[0] * std::sin(a), l ? s[2] : -s[2])); }
    std::vector<int> b, t; for (int i = 0; i < n; i++) { b.push_back(n - 1 - i); t.push_back(n + i); } H.f.push_back(b); H.f.push_back(t);
    for (int i = 0; i < n; i++) { int j = (i + 1) % n; quad(i, j, n + j, n + i); }
  } else if (kind == 2) {   // pyramid
    int n = c.range(3, 6); for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n; H.v.push_back(V3(s[0] * std::cos(a), s[0] * std::sin(a), -s[2] / 2)); }
    H.v.push_back(V3(0, 0, s[2])); std::vector<int> b; for (int i = 0; i < n; i++) b.push_back(n - 1 - i); H.f.push_back(b);
    for (int i = 0; i < n; i++) H.f.push_back({i, (i + 1) % n, n});
  } else if (kind == 3) {   // octahedron
    for (int i = 0; i < 3; i++) for (int q : {1, -1}) { V3 e = V3::Zero(); e[i] = q * s[i]; H.v.push_back(e); }
    for (int m = 0; m < 8; m++) { int a = m & 1 ? 1 : 0, b = m & 2 ? 3 : 2, d = m & 4 ? 5 : 4; int par = (m & 1) ^ (m >> 1 & 1) ^ (m >> 2 & 1); if (par) H.f.push_back({a, d, b}); else H.f.push_back({a, b, d}); }
  } else {          // random points on an ellipsoid; all in convex position, so every point is a vertex
    int n = c.range(4, 12); std::vector<V3> d;
    for (int i = 0; i < n; i++) { V3 x; double z = 1 - (2 * i + 1.0) / n, a = i * 2.399963 + c.uni(-0.35, 0.35); z = std::max(-0.98, std::min(0.98, z + c.uni(-0.3, 0.3) / n)); double q = std::sqrt(1 - z * z); x = V3(q * std::cos(a), q * std::sin(a), z); d.push_back(x); }
    for (auto& x : d) H.v.push_back(x.cwiseProduct(s));
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
      V3 nn = (d[j] - d[i]).cross(d[k] - d[i]); int p = 0, m = 0; for (int l = 0; l < n; l++) if (l != i && l != j && l != k) { double q = nn.dot(d[l] - d[i]); if (q > 0) p++; else m++; }
      if (p == 0) H.f.push_back({i, j, k}); else if (m == 0) H.f.push_back({i, k, j});
    }
    // Euler check: a closed triangulated sphere has 2n-4 faces
    if ((int)H.f.size() != 2 * n - 4) c.discard("degenerate hull");
  }
  if (c.chance(1, 4)) { std::vector<std::vector<int>> g; for (auto& f : H.f) for (size_t i = 1; i + 1 < f.size(); i++) g.push_back({f[0], f[i], f[i + 1]}); H.f = g; }   // triangulated faces
  if (c.chance(1, 4)) { V3 o = vec(c, hi); for (auto& x : H.v) x += o; }       // off-centre
  return H;
}
// more than 32 vertices (fcl then walks along edges to find extreme vertices); vertices in the middle of flat regions included
inline Hull bigHull(Ctx& c, double lo, double hi, int maxv = 90) {
  Hull H; int kind = c.weighted({3, 2, 3, 2}); V3 s(c.pos_real(lo, hi), c.pos_real(lo, hi), c.pos_real(lo, hi));
  if (kind == 0) {          // rings of an ellipsoid; planar quadrilaterals
    int n = c.range(5, 10), m = c.range(34 / n + 2, std::min(10, maxv / n + 1)); H.v.push_back(V3(0, 0, s[2]));
    for (int i = 1; i < m; i++) for (int j = 0; j < n; j++) { double th = M_PI * i / m, ph = 2 * M_PI * j / n; H.v.push_back(V3(s[0] * std::sin(th) * std::cos(ph), s[1] * std::sin(th) * std::sin(ph), s[2] * std::cos(th))); }
    H.v.push_back(V3(0, 0, -s[2])); int last = (int)H.v.size() - 1;
    for (int j = 0; j < n; j++) { int k = (j + 1) % n; H.f.push_back({0, 1 + j, 1 + k}); H.f.push_back({last, last - n + k, last - n + j}); for (int i = 0; i + 2 < m; i++) H.f.push_back({1 + i * n + j, 1 + (i + 1) * n + j, 1 + (i + 1) * n + k, 1 + i * n + k}); }
  } else if (kind == 1) {   // prism with many sides
    int n = c.range(17, std::min(30, maxv / 2)); for (int l = 0; l < 2; l++) for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n; H.v.push_back(V3(s[0] * std::cos(a), s[0] * std::sin(a), l ? s[2] : -s[2])); }
    std::vector<int> b, t; for (int i = 0; i < n; i++) { b.push_back(n - 1 - i); t.push_back(n + i); } H.f.push_back(b); H.f.push_back(t); for (int i = 0; i < n; i++) { int j = (i + 1) % n; H.f.push_back({i, j, n + j, n + i}); }
  } else if (kind == 2) {   // box whose faces are grids
    int g[3]; do { for (int i = 0; i < 3; i++) g[i] = c.range(1, 4); } while (0); auto count = [&]() { return (g[0] + 1) * (g[1] + 1) * (g[2] + 1) - std::max(0, g[0] - 1) * std::max(0, g[1] - 1) * std::max(0, g[2] - 1); }; while (count() <= 32) g[count() % 3]++; while (count() > maxv) { int k = 0; for (int i = 1; i < 3; i++) if (g[i] > g[k]) k = i; g[k]--; }
    std::vector<std::vector<std::vector<int>>> id(g[0] + 1, std::vector<std::vector<int>>(g[1] + 1, std::vector<int>(g[2] + 1, -1)));
    for (int i = 0; i <= g[0]; i++) for (int j = 0; j <= g[1]; j++) for (int k = 0; k <= g[2]; k++) if (i == 0 || j == 0 || k == 0 || i == g[0] || j == g[1] || k == g[2]) { id[i][j][k] = (int)H.v.size(); H.v.push_back(V3(s[0] * (2.0 * i / g[0] - 1), s[1] * (2.0 * j / g[1] - 1), s[2] * (2.0 * k / g[2] - 1))); }
    for (int d = 0; d < 3; d++) for (int side = 0; side < 2; side++) { int e = (d + 1) % 3, f = (d + 2) % 3; for (int i = 0; i < g[e]; i++) for (int j = 0; j < g[f]; j++) { auto at = [&](int a, int b) { int q[3]; q[d] = side ? g[d] : 0; q[e] = a; q[f] = b; return id[q[0]][q[1]][q[2]]; }; std::vector<int> q{at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)}; if (!side) std::reverse(q.begin(), q.end()); H.f.push_back(q); } }
    if (c.chance(1, 3)) { int n = (int)H.v.size(); std::vector<int> pm(n); for (int i = 0; i < n; i++) pm[i] = i; for (int i = n - 1; i > 0; i--) std::swap(pm[i], pm[c.pick(i + 1)]); std::vector<V3> v(n); for (int i = 0; i < n; i++) v[pm[i]] = H.v[i]; H.v = v; for (auto& f : H.f) for (int& i : f) i = pm[i]; }   // any vertex may come first
  } else {                  // a small hull whose faces are split at interior points, twice or more
    H = randomHull(c, lo, hi); int guard = 0; while ((int)H.v.size() <= 32 && guard++ < 4) { std::vector<std::vector<int>> g; for (auto& f : H.f) { V3 m = V3::Zero(); for (int i : f) m += H.v[i]; m /= f.size(); int k = (int)H.v.size(); H.v.push_back(m); for (size_t i = 0; i < f.size(); i++) g.push_back({f[i], f[(i + 1) % f.size()], k}); } H.f = g; if ((int)H.v.size() > maxv) break; }
    if (c.flip()) { int i = c.pick((int)H.v.size()); std::swap(H.v[0], H.v[i]); for (auto& f : H.f) for (int& x : f) x = x == 0 ? i : x == i ? 0 : x; }
  }
  if (kind != 3 && c.chance(1, 4)) { V3 o = vec(c, hi); for (auto& x : H.v) x += o; }
  if (c.chance(1, 4)) { M3 R = rot(c); for (auto& x : H.v) x = R * x; }
  return H;
}
inline std::shared_ptr<fcl::Convexd> makeConvex(const Hull& H) {
  auto v = std::make_shared<std::vector<V3>>(H.v); auto f = std::make_shared<std::vector<int>>();
  for (auto& x : H.f) { f->push_back((int)x.size()); for (int i : x) f->push_back(i); }
  return std::make_shared<fcl::Convexd>(v, (int)H.f.size(), f, true);
}

// ---- shapes ----------------------------------------------------------------
typedef ref::Kind Kind;
struct Shape { std::shared_ptr<fcl::ShapeBased> g; ref::Shape r; std::string desc; };
inline const char* kindName(int k) { static const char* n[] = {"box", "sphere", "ellipsoid", "capsule", "cylinder", "cone", "convex", "triangle", "halfspace", "plane"}; return n[k]; }

// sizes (full extents / radii) in [lo,hi]
inline Shape shape(Ctx& c, Kind k, double lo = 0.1, double hi = 3) {
  Shape s; s.r.k = k; std::ostringstream o; o.precision(17); o << kindName(k);
  auto P = [&]() { return c.pos_real(lo, hi); };
  switch (k) {
    case ref::BOX: { double a = P(), b = P(), d = P(); s.g = std::make_shared<fcl::Boxd>(a, b, d); s.r.h = V3(a, b, d) / 2; o << "(" << a << "," << b << "," << d << ")"; break; }
    case ref::SPHERE: { double a = P(); s.g = std::make_shared<fcl::Sphered>(a); s.r.rad = a; o << "(" << a << ")"; break; }
    case ref::ELLIPSOID: { double a = P(), b = P(), d = P(); s.g = std::make_shared<fcl::Ellipsoidd>(a, b, d); s.r.h = V3(a, b, d); o << "(" << a << "," << b << "," << d << ")"; break; }
    case ref::CAPSULE: { double a = P(), l = P(); s.g = std::make_shared<fcl::Capsuled>(a, l); s.r.rad = a; s.r.lz = l; o << "(r " << a << ",lz " << l << ")"; break; }
    case ref::CYLINDER: { double a = P(), l = P(); s.g = std::make_shared<fcl::Cylinderd>(a, l); s.r.r = a; s.r.lz = l; o << "(r " << a << ",lz " << l << ")"; break; }
    case ref::CONE: { double a = P(), l = P(); s.g = std::make_shared<fcl::Coned>(a, l); s.r.r = a; s.r.lz = l; o << "(r " << a << ",lz " << l << ")"; break; }
    case ref::HULL: { Hull H = c.chance(1, 10) ? bigHull(c, lo, hi, 60) : randomHull(c, lo, hi); s.g = makeConvex(H); s.r.v = H.v; for (auto& f : H.f) for (size_t i = 1; i + 1 < f.size(); i++) s.r.f.push_back({{f[0], f[i], f[i + 1]}}); o << "(" << H.v.size() << " vertices:"; for (auto& x : H.v) show(o, x); o << " " << H.f.size() << " faces)"; break; }
    case ref::TRI: {
      V3 a, b, d; int tries = 0; do { a = vec(c, hi); b = vec(c, hi); d = vec(c, hi); if (++tries > 4) c.discard("flat triangle"); } while ((b - a).cross(d - a).norm() < 0.02 * lo * hi + 0.01 * std::max((b - a).squaredNorm(), (d - a).squaredNorm()));
      s.g = std::make_shared<fcl::TrianglePd>(a, b, d); s.r.v = {a, b, d}; s.r.f = {{{0, 1, 2}}}; o << "("; show(o, a); show(o, b); show(o, d); o << ")"; break; }
    case ref::HALFSPACE: { V3 n = dir(c); double d = c.real(-hi, hi); s.g = std::make_shared<fcl::Halfspaced>(n, d); s.r.n = n; s.r.d = d; o << "(n "; show(o, n); o << " d " << d << ")"; break; }
    case ref::PLANE: { V3 n = dir(c); double d = c.real(-hi, hi); s.g = std::make_shared<fcl::Planed>(n, d); s.r.n = n; s.r.d = d; o << "(n "; show(o, n); o << " d " << d << ")"; break; }
  }
  s.g->computeLocalAABB(); s.desc = o.str(); return s;
}
inline void place(ref::Shape& r, const T3& t) { r.R = t.linear(); r.t = t.translation(); }

// A pose of B such that, along a random direction, the supports of A and B leave a gap of g.
// (g>0: certainly separated by at least g; g<0: usually, not always, overlapping.)
inline T3 placeNear(Ctx& c, const ref::Shape& A, ref::Shape B, double g, V3* used = 0) {
  T3 t = T3::Identity(); t.linear() = rot(c); V3 u = dir(c); if (used) *used = u;
  B.R = t.linear(); B.t = V3::Zero();
  if (A.bounded() && B.bounded()) {
    // line up the supporting points, then slide sideways a little
    V3 a = A.sup(u), b = B.sup(-u); V3 x = a - b + g * u;
    V3 s = vec(c, 0.5 * std::min(A.size(), B.size())); s -= u * u.dot(s); x += s; t.translation() = x;
  } else if (A.bounded()) { double d = B.n.dot(B.R.transpose() * V3(0, 0, 0)); (void)d; V3 n = B.R * B.n; // want distance A to {n.x<=d'} = g
    double mn = -A.h_(-n); double d2 = mn - g; V3 x = n * (d2 - B.d); V3 s = vec(c, 1); s -= n * n.dot(s); t.translation() = x + s; }
  else if (B.bounded()) { V3 n = A.wn(); double mn = -B.h_(-n); V3 x = n * (A.wd() + g - mn); V3 s = vec(c, 1); s -= n * n.dot(s); t.translation() = x + s; }
  else t.translation() = vec(c, 2);
  return t;
}
// gap distribution: exact touch, hair gaps, small, large; both signs
inline double gap(Ctx& c, double scale) {
  int k = c.weighted({3, 4, 2, 2, 2}); double s = c.flip() ? -1 : 1;
  switch (k) { case 0: return s * scale * c.uni(0.02, 0.3); case 1: return s * scale * c.uni(0.0, 1.0); case 2: return s * scale * std::pow(10.0, c.uni(-4, -1.5)); case 3: return s * scale * c.uni(1, 3); default: return -scale * c.uni(0, 2); }
}
}  // namespace gen
#endif
