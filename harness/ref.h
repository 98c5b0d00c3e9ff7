// Independent reference geometry: convex sets by support function, with
// certificate-carrying distance / penetration bounds (nothing here uses fcl).
#ifndef REF_H
#define REF_H
#include <Eigen/Dense>
#include <Eigen/StdVector>
#include <vector>
#include <array>
#include <limits>
#include <cmath>
#include <algorithm>

namespace ref {
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
static const double INF = std::numeric_limits<double>::infinity();

enum Kind { BOX, SPHERE, ELLIPSOID, CAPSULE, CYLINDER, CONE, HULL, TRI, HALFSPACE, PLANE };

// core + ball of radius r, posed by R,t
struct Shape {
  Kind k; V3 h; double r = 0, lz = 0, rad = 0;   // h: half sides / radii; rad: the Minkowski ball
  std::vector<V3> v; std::vector<std::array<int, 3>> f;   // HULL / TRI vertices (local)
  M3 R = M3::Identity(); V3 t = V3::Zero();
  V3 n = V3::UnitX(); double d = 0;               // local halfspace n.x <= d, plane n.x = d
  bool bounded() const { return k != HALFSPACE && k != PLANE; }
  V3 coreLocal(const V3& u) const {
    switch (k) {
      case BOX: return V3(u[0] >= 0 ? h[0] : -h[0], u[1] >= 0 ? h[1] : -h[1], u[2] >= 0 ? h[2] : -h[2]);
      case SPHERE: return V3::Zero();
      case CAPSULE: return V3(0, 0, u[2] >= 0 ? lz / 2 : -lz / 2);
      case ELLIPSOID: { V3 w(h[0] * h[0] * u[0], h[1] * h[1] * u[1], h[2] * h[2] * u[2]); double q = std::sqrt(u[0] * w[0] + u[1] * w[1] + u[2] * w[2]); if (!(q > 0)) return V3(h[0], 0, 0); return w / q; }
      case CYLINDER: { double q = std::hypot(u[0], u[1]); double z = u[2] >= 0 ? lz / 2 : -lz / 2; return q > 0 ? V3(r * u[0] / q, r * u[1] / q, z) : V3(r, 0, z); }
      case CONE: { double q = std::hypot(u[0], u[1]); V3 base = q > 0 ? V3(r * u[0] / q, r * u[1] / q, -lz / 2) : V3(r, 0, -lz / 2); V3 apex(0, 0, lz / 2); return u.dot(apex) >= u.dot(base) ? apex : base; }
      default: { int b = 0; double m = -INF; for (size_t i = 0; i < v.size(); i++) { double x = u.dot(v[i]); if (x > m) { m = x; b = (int)i; } } return v[b]; }
    }
  }
  V3 core(const V3& u) const { return R * coreLocal(R.transpose() * u) + t; }
  double hcore(const V3& u) const { return u.dot(core(u)); }
  double h_(const V3& u) const { return hcore(u) + rad * u.norm(); }      // full support value
  V3 sup(const V3& u) const { double n_ = u.norm(); return n_ > 0 ? V3(core(u) + u * (rad / n_)) : core(u); }
  // world halfspace/plane: n.x <= d
  V3 wn() const { return R * n; }
  double wd() const { return d + wn().dot(t); }
  double size() const { switch (k) { case BOX: case ELLIPSOID: return h.norm(); case SPHERE: return rad; case CAPSULE: return lz / 2 + rad; case CYLINDER: case CONE: return std::hypot(r, lz / 2);
      case HALFSPACE: case PLANE: return 1; default: { double m = 0; for (auto& x : v) m = std::max(m, x.norm()); return m; } } }
  V3 centre() const { if (v.empty()) return t; V3 c = V3::Zero(); for (auto& x : v) c += x; return R * (c / v.size()) + t; }
  // signed containment measure of a world point: <=0 inside (a lower bound on distance outside is not promised)
  double outside(const V3& p) const {
    V3 x = R.transpose() * (p - t);
    switch (k) {
      case BOX: return (x.cwiseAbs() - h).maxCoeff();
      case SPHERE: return x.norm() - rad;
      case CAPSULE: { double z = std::max(-lz / 2, std::min(lz / 2, x[2])); return (x - V3(0, 0, z)).norm() - rad; }
      case ELLIPSOID: { V3 q = x.cwiseQuotient(h); double s = q.norm(); return (s - 1) * h.minCoeff(); }
      case CYLINDER: return std::max(std::hypot(x[0], x[1]) - r, std::abs(x[2]) - lz / 2);
      case CONE: { double L = std::hypot(r, lz); double a = -lz / 2 - x[2]; double b = (std::hypot(x[0], x[1]) * lz + x[2] * r - r * lz / 2) / L; return std::max(a, b); }
      case HALFSPACE: return n.dot(x) - d;
      case PLANE: return std::abs(n.dot(x) - d);
      case TRI: return INF;
      case HULL: { double m = -INF; for (auto& t_ : f) { V3 nn = (v[t_[1]] - v[t_[0]]).cross(v[t_[2]] - v[t_[0]]).normalized(); m = std::max(m, nn.dot(x - v[t_[0]])); } return m; }
    }
    return INF;
  }
};

// nearest point to the origin of conv(p[0..n-1]); l = barycentric coordinates
inline double minNorm(const V3* p, int n, V3& out, double* l) {
  double best = INF;
  for (int m = 1; m < (1 << n); m++) {
    int id[4], k = 0; for (int i = 0; i < n; i++) if (m >> i & 1) id[k++] = i;
    double w[4];
    V3 q;
    if (k == 1) { w[0] = 1; q = p[id[0]]; }
    else {
      Eigen::MatrixXd A(3, k - 1); for (int i = 1; i < k; i++) A.col(i - 1) = p[id[i]] - p[id[0]];
      if (k == 4) { double dt = A.determinant(); double sc = A.colwise().norm().prod(); if (std::abs(dt) < 1e-14 * sc) continue; Eigen::Vector3d c = M3(A).inverse() * (-p[id[0]]); w[0] = 1; for (int i = 1; i < 4; i++) { w[i] = c[i - 1]; w[0] -= c[i - 1]; } }
      else { Eigen::MatrixXd G = A.transpose() * A; Eigen::VectorXd b = -A.transpose() * p[id[0]]; Eigen::VectorXd c;
        if (k == 2) { if (!(G(0, 0) > 0)) continue; c = b / G(0, 0); } else { double dt = G(0, 0) * G(1, 1) - G(0, 1) * G(0, 1); if (!(dt > 1e-18 * G(0, 0) * G(1, 1))) continue; c.resize(2); c[0] = (b[0] * G(1, 1) - b[1] * G(0, 1)) / dt; c[1] = (b[1] * G(0, 0) - b[0] * G(0, 1)) / dt; }
        w[0] = 1; for (int i = 1; i < k; i++) { w[i] = c[i - 1]; w[0] -= c[i - 1]; } }
      bool ok = true; for (int i = 0; i < k; i++) if (!(w[i] >= -1e-14)) ok = false;
      if (!ok) continue;
      q = V3::Zero(); for (int i = 0; i < k; i++) q += w[i] * p[id[i]];
      if (k == 4) q.setZero();
    }
    double d = q.norm();
    if (d < best - 1e-300 || best == INF) { best = d; out = q; for (int i = 0; i < n; i++) l[i] = 0; for (int i = 0; i < k; i++) l[id[i]] = std::max(0.0, w[i]); }
  }
  return best;
}

struct Bounds {            // of the signed distance (negative: penetration depth)
  double lo = -INF, hi = INF;   // certified up to rounding
  V3 pa = V3::Zero(), pb = V3::Zero();   // witnesses of hi when separated
  V3 dir = V3::UnitX();     // from A to B: separating direction / least-penetration direction
  bool separated() const { return lo > 0; }
  bool overlapping() const { return hi < 0; }
  double mid() const { return 0.5 * (lo + hi); }
};

inline V3 supDiff(const Shape& A, const Shape& B, const V3& u, V3* a = 0, V3* b = 0) { V3 x = A.core(u), y = B.core(-u); if (a) *a = x; if (b) *b = y; return x - y; }

// GJK distance between the cores with a dual certificate
struct CoreDist { double lo = 0, hi = INF; V3 a, b, dir; bool contains = false; };
inline CoreDist gjkCore(const Shape& A, const Shape& B, double tol, int maxit = 300) {
  CoreDist r; V3 P[4], PA[4], PB[4]; int n = 1; double l[4]; V3 v;
  V3 u0 = B.centre() - A.centre(); if (!(u0.norm() > 1e-9)) u0 = V3(1, 0.1, 0.2);
  P[0] = supDiff(A, B, u0, &PA[0], &PB[0]); r.lo = -INF; r.dir = u0.normalized();
  double sc = A.size() + B.size() + (A.t - B.t).norm();
  double prev = INF; int stall = 0;
  for (int it = 0; it < maxit; it++) {
    double d = minNorm(P, n, v, l);
    // drop the unused vertices
    int m = 0; V3 a = V3::Zero(), b = V3::Zero();
    for (int i = 0; i < n; i++) if (l[i] > 0 || (d == 0 && n == 4)) { P[m] = P[i]; PA[m] = PA[i]; PB[m] = PB[i]; l[m] = l[i]; a += l[i] * PA[i]; b += l[i] * PB[i]; m++; }
    n = m;
    if (d < r.hi) { r.hi = d; r.a = a; r.b = b; }
    if (n == 4 || d < 1e-14 * sc) { r.contains = true; r.lo = 0; r.hi = 0; return r; }
    V3 u = -v / d, x, y; V3 w = supDiff(A, B, u, &x, &y);
    double lb = -u.dot(w);          // every point q of A-B has u.q <= u.w, so |q| >= -u.w
    if (lb > r.lo) { r.lo = lb; r.dir = u; }
    if (r.hi - r.lo < tol * 0.1 + 1e-15 * sc) break;
    bool dup = false; for (int i = 0; i < n; i++) if ((P[i] - w).norm() < 1e-15 * sc) dup = true;
    if (dup) break;
    if (d >= prev * (1 - 1e-14)) { if (++stall > 8) break; } else stall = 0;
    prev = d;
    P[n] = w; PA[n] = x; PB[n] = y; n++;
  }
  if (r.lo < 0) r.lo = 0;
  return r;
}

// expanding-polytope bounds on the depth of the origin in A-B (cores); flat sets have depth 0
struct DepthB { double lo, hi; V3 dir; bool ok; };
inline DepthB depthCore(const Shape& A, const Shape& B, double tol, int maxit = 400) {
  DepthB r{-INF, INF, V3::UnitX(), false};
  std::vector<V3> P; double sc = A.size() + B.size() + (A.t - B.t).norm();
  std::vector<V3> dirs; for (int i = 0; i < 3; i++) for (int s : {1, -1}) { V3 e = V3::Zero(); e[i] = s; dirs.push_back(e); }
  for (int i = 0; i < 8; i++) dirs.push_back(V3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1).normalized());
  for (auto& d : dirs) { V3 w = supDiff(A, B, d); double h = d.dot(w); if (h < r.hi) { r.hi = h; r.dir = d; } P.push_back(w); }
  // a fat initial tetrahedron
  size_t i0 = 0, i1 = 0, i2 = 0, i3 = 0; double m = -1;
  for (size_t i = 0; i < P.size(); i++) for (size_t j = i + 1; j < P.size(); j++) if ((P[i] - P[j]).norm() > m) { m = (P[i] - P[j]).norm(); i0 = i; i1 = j; }
  if (m < 1e-9 * sc) { r.lo = 0; r.hi = std::min(r.hi, 1e-9 * sc); return r; }
  V3 e = (P[i1] - P[i0]).normalized(); m = -1;
  for (size_t i = 0; i < P.size(); i++) { V3 q = P[i] - P[i0]; q -= e * e.dot(q); if (q.norm() > m) { m = q.norm(); i2 = i; } }
  if (m < 1e-9 * sc) return r;
  V3 nn = (P[i1] - P[i0]).cross(P[i2] - P[i0]).normalized();
  { V3 wp = supDiff(A, B, nn), wm = supDiff(A, B, -nn); double hp = nn.dot(wp - P[i0]), hm = -nn.dot(wm - P[i0]);
    if (hp + hm < 1e-9 * sc) { r.hi = std::min(r.hi, 1e-9 * sc); r.lo = -INF; r.dir = nn; return r; }     // flat
    P.push_back(hp > hm ? wp : wm); i3 = P.size() - 1; }
  struct F { int a, b, c; V3 n; double d; bool dead; };
  std::vector<F> fs;
  auto add = [&](int a, int b, int c) { V3 x = (P[b] - P[a]).cross(P[c] - P[a]); double l = x.norm(); if (l < 1e-16 * sc * sc) return false; x /= l; fs.push_back({a, b, c, x, x.dot(P[a]), false}); return true; };
  V3 cen = (P[i0] + P[i1] + P[i2] + P[i3]) / 4;
  int id[4] = {(int)i0, (int)i1, (int)i2, (int)i3};
  int tf[4][3] = {{0, 1, 2}, {0, 1, 3}, {0, 2, 3}, {1, 2, 3}};
  for (auto& t : tf) { int a = id[t[0]], b = id[t[1]], c = id[t[2]]; V3 x = (P[b] - P[a]).cross(P[c] - P[a]); if (x.dot(cen - P[a]) > 0) std::swap(b, c); if (!add(a, b, c)) return r; }
  for (int it = 0; it < maxit; it++) {
    int bi = -1; double bd = INF; for (size_t i = 0; i < fs.size(); i++) if (!fs[i].dead && fs[i].d < bd) { bd = fs[i].d; bi = (int)i; }
    if (bi < 0) return r;
    V3 n = fs[bi].n; V3 w = supDiff(A, B, n); double h = n.dot(w);
    if (h < r.hi) { r.hi = h; r.dir = n; }
    r.lo = std::max(r.lo, std::min(bd, r.hi)); r.ok = true;
    if (r.hi < 0) { r.ok = false; return r; }       // separated after all
    if (r.hi - r.lo < tol * 0.1 || h - bd < 1e-13 * sc) break;
    double eps = 1e-13 * sc; std::vector<std::pair<int, int>> edges;
    P.push_back(w); int wi = (int)P.size() - 1;
    for (auto& f : fs) if (!f.dead && f.n.dot(w) - f.d > eps) {
      f.dead = true; int e3[3][2] = {{f.a, f.b}, {f.b, f.c}, {f.c, f.a}};
      for (auto& g : e3) { bool found = false; for (size_t k = 0; k < edges.size(); k++) if (edges[k].first == g[1] && edges[k].second == g[0]) { edges.erase(edges.begin() + k); found = true; break; } if (!found) edges.push_back({g[0], g[1]}); }
    }
    if (edges.empty()) break;
    for (auto& g : edges) if (!add(g.first, g.second, wi)) { r.ok = false; return r; }
    if (fs.size() > 4000 || P.size() > 600) { std::vector<F> k; for (auto& f : fs) if (!f.dead) k.push_back(f); if (k.size() > 1500 || P.size() > 600) return r; fs = k; }
  }
  return r;
}

inline void polyAxes(const Shape& A, std::vector<V3>& fn, std::vector<V3>& ed) {
  if (A.k == BOX) for (int i = 0; i < 3; i++) { fn.push_back(A.R.col(i)); ed.push_back(A.R.col(i)); }
  else if (A.k == CAPSULE) ed.push_back(A.R.col(2));
  else for (auto& t : A.f) { V3 a = A.v[t[0]], b = A.v[t[1]], c = A.v[t[2]]; V3 n = (b - a).cross(c - a); if (n.norm() > 1e-14) fn.push_back(A.R * n.normalized()); for (V3 e : {V3(b - a), V3(c - b), V3(a - c)}) if (e.norm() > 1e-12) ed.push_back(A.R * e.normalized()); }
}
inline bool isPoly(const Shape& A) { return A.k == BOX || A.k == HULL || A.k == TRI || A.k == CAPSULE || A.k == SPHERE; }

// certified bounds on the signed distance of two bounded convex shapes (tol: wanted width)
inline Bounds signedDistance(const Shape& A, const Shape& B, double tol, bool wantDepth) {
  Bounds r; double rr = A.rad + B.rad;
  double sc = A.size() + B.size() + (A.t - B.t).norm(); double fuzz = 4e-14 * sc;
  CoreDist c = gjkCore(A, B, tol);
  if (!c.contains && c.lo > 1e-9 * sc) {
    r.lo = c.lo - rr - fuzz; r.hi = c.hi - rr + fuzz; r.dir = c.dir;
    V3 u = (c.b - c.a); double l = u.norm(); if (l > 0) u /= l; else u = c.dir;
    r.pa = c.a + u * A.rad; r.pb = c.b - u * B.rad; return r;
  }
  // cores overlap or touch: signed distance = -(depth of cores) - rr
  double lo = 0, hi = INF; V3 dir = c.dir;
  if (isPoly(A) && isPoly(B)) {
    std::vector<V3> fa, ea, fb, eb, ax; polyAxes(A, fa, ea); polyAxes(B, fb, eb);
    ax = fa; ax.insert(ax.end(), fb.begin(), fb.end());
    for (auto& x : ea) for (auto& y : eb) { V3 z = x.cross(y); if (z.norm() > 1e-9) ax.push_back(z.normalized()); }
    for (auto& x : ea) if (fa.empty()) for (auto& y : fb) { V3 z = x.cross(y); if (z.norm() > 1e-9) ax.push_back(z.normalized()); }
    if (ax.empty()) { lo = 0; hi = c.contains ? 0 : c.hi; hi = std::max(hi, 0.0); r.lo = -rr - fuzz - 1e-9 * sc; r.hi = c.hi - rr + fuzz; r.dir = c.dir; return r; }
    for (auto& x : ax) for (int s : {1, -1}) { V3 u = x * s; double h = u.dot(supDiff(A, B, u)); if (h < hi) { hi = h; dir = u; } }
    lo = hi; if (hi < 0) hi = lo = 0;
    r.lo = -hi - rr - fuzz - 1e-9 * sc; r.hi = std::min(c.hi, std::max(0.0, c.hi - 0)) * 0 - lo - rr + fuzz + 1e-9 * sc; r.dir = dir; return r;
  }
  (void)wantDepth;
  DepthB d = depthCore(A, B, tol);
  hi = std::max(0.0, d.hi); lo = d.ok && d.lo > 0 ? d.lo : 0;
  r.lo = -hi - rr - fuzz; r.hi = (lo > 0 ? -lo : (c.contains ? 0.0 : c.hi)) - rr + fuzz + 1e-9 * sc; r.dir = d.dir;
  return r;
}

// half-space / plane against a bounded convex shape; dir points from A to B
inline Bounds unbounded(const Shape& A, const Shape& B) {
  bool aU = !A.bounded(); const Shape& U = aU ? A : B; const Shape& C = aU ? B : A;
  V3 n = U.wn(); double d = U.wd(); double mx = C.h_(n), mn = -C.h_(-n); Bounds r; V3 dir;
  double s;
  if (U.k == HALFSPACE) { s = mn - d; dir = n; }
  else { double above = mn - d, below = d - mx; if (above >= below) { s = above; dir = n; } else { s = below; dir = -n; } }
  double fuzz = 4e-14 * (C.size() + C.t.norm() + std::abs(d));
  r.lo = s - fuzz; r.hi = s + fuzz; r.dir = aU ? dir : V3(-dir); return r;
}
inline Bounds sd(const Shape& A, const Shape& B, double tol = 1e-8, bool wantDepth = true) {
  if (!A.bounded() || !B.bounded()) return unbounded(A, B);
  return signedDistance(A, B, tol, wantDepth);
}

// ---- triangles -------------------------------------------------------------
inline double pointSeg(const V3& p, const V3& a, const V3& b) { V3 ab = b - a; double l = ab.squaredNorm(); double t = l > 0 ? ab.dot(p - a) / l : 0; t = std::max(0.0, std::min(1.0, t)); return (p - (a + t * ab)).norm(); }
inline double segSeg(const V3& p1, const V3& q1, const V3& p2, const V3& q2) {
  // minimum over the interior critical point and the four end points
  double best = std::min(std::min(pointSeg(p1, p2, q2), pointSeg(q1, p2, q2)), std::min(pointSeg(p2, p1, q1), pointSeg(q2, p1, q1)));
  V3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = d1.dot(d1), e = d2.dot(d2), b = d1.dot(d2), c = d1.dot(r), f = d2.dot(r), den = a * e - b * b;
  if (den > 1e-14 * a * e) { double s = (b * f - c * e) / den, t = (a * f - b * c) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, (p1 + s * d1 - p2 - t * d2).norm()); }
  return best;
}
inline double pointTri(const V3& p, const V3& a, const V3& b, const V3& c) {
  double best = std::min(pointSeg(p, a, b), std::min(pointSeg(p, b, c), pointSeg(p, c, a)));
  V3 n = (b - a).cross(c - a); double l = n.norm();
  if (l > 1e-14 * (b - a).norm() * (c - a).norm() && l > 0) {
    n /= l; double s = n.dot(p - a); V3 q = p - s * n;
    if ((b - a).cross(q - a).dot(n) >= 0 && (c - b).cross(q - b).dot(n) >= 0 && (a - c).cross(q - c).dot(n) >= 0) best = std::min(best, std::abs(s));
  }
  return best;
}
inline double triTri(const V3* S, const V3* T) {
  double best = INF;
  for (int i = 0; i < 3; i++) { best = std::min(best, pointTri(S[i], T[0], T[1], T[2])); best = std::min(best, pointTri(T[i], S[0], S[1], S[2])); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) best = std::min(best, segSeg(S[i], S[(i + 1) % 3], T[j], T[(j + 1) % 3]));
  // an edge through the interior of the other triangle: distance 0
  auto pierce = [&](const V3& p, const V3& q, const V3* t) {
    V3 n = (t[1] - t[0]).cross(t[2] - t[0]); double a = n.dot(p - t[0]), b = n.dot(q - t[0]);
    if ((a > 0 && b > 0) || (a < 0 && b < 0) || a == b) return false;
    V3 x = p + (q - p) * (a / (a - b));
    return n.dot((t[1] - t[0]).cross(x - t[0])) >= 0 && n.dot((t[2] - t[1]).cross(x - t[1])) >= 0 && n.dot((t[0] - t[2]).cross(x - t[2])) >= 0;
  };
  for (int i = 0; i < 3; i++) if (pierce(S[i], S[(i + 1) % 3], T) || pierce(T[i], T[(i + 1) % 3], S)) return 0;
  return best;
}
// certified bound on how robustly two triangles cross: >0 means they intersect and stay so under
// perturbations of that size; computed as the largest clearance of a piercing edge
inline double triCross(const V3* S, const V3* T) {
  double best = -1;
  auto pierce = [&](const V3& p, const V3& q, const V3* t) {
    V3 n = (t[1] - t[0]).cross(t[2] - t[0]); double l = n.norm(); if (!(l > 0)) return -1.0; n /= l;
    double a = n.dot(p - t[0]), b = n.dot(q - t[0]); if (!(a * b < 0)) return -1.0;
    V3 x = p + (q - p) * (a / (a - b)); double m = std::min(std::abs(a), std::abs(b));
    for (int i = 0; i < 3; i++) { V3 e = t[(i + 1) % 3] - t[i]; double el = e.norm(); if (!(el > 0)) return -1.0; m = std::min(m, n.dot(e.cross(x - t[i])) / el); }
    return m;
  };
  for (int i = 0; i < 3; i++) { best = std::max(best, pierce(S[i], S[(i + 1) % 3], T)); best = std::max(best, pierce(T[i], T[(i + 1) % 3], S)); }
  return best;
}
}  // namespace ref
#endif
