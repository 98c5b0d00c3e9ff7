// Triangle meshes: generator, fcl models over the eight bounding-volume types, brute-force twins.
#ifndef GEN_MESH_H
#define GEN_MESH_H
#include "gen.h"
#include "fcl/geometry/bvh/BVH_model.h"
#include "fcl/math/bv/AABB.h"
#include "fcl/math/bv/OBB.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/bv/OBBRSS.h"
#include "fcl/math/bv/kIOS.h"
#include "fcl/math/bv/kDOP.h"
namespace gen {
struct Mesh {
  std::vector<V3> v; std::vector<fcl::Triangle> t; bool closed = false; std::string kind;
  double size() const { double m = 0; for (auto& x : v) m = std::max(m, x.norm()); return m; }
};
enum BVT { B_AABB, B_OBB, B_RSS, B_OBBRSS, B_KIOS, B_K16, B_K18, B_K24 };
inline const char* bvName(int b) { static const char* n[] = {"AABB", "OBB", "RSS", "OBBRSS", "kIOS", "KDOP16", "KDOP18", "KDOP24"}; return n[b]; }

inline bool sliverTri(const V3& a, const V3& b, const V3& c) { return (b - a).cross(c - a).norm() < 1e-3 * std::max((b - a).squaredNorm(), std::max((c - a).squaredNorm(), (c - b).squaredNorm())); }
// slivers: triangles so thin that the narrow phase's answer is dominated by rounding
inline Mesh mesh(Ctx& c, int maxTris, double scale = 1) {
  Mesh M; int kind = c.weighted({3, 3, 2, 2, 2, 1, 2}); double s = scale * c.pos_real(0.3, 3);
  auto T = [&](int a, int b, int d) { M.t.push_back(fcl::Triangle(a, b, d)); };
  if (kind == 0) {        // soup
    M.kind = "soup"; int n = c.range(1, std::max(1, maxTris / 2)); double e = s * c.pos_real(0.1, 1);
    for (int i = 0; i < n; i++) { V3 o = vec(c, s); V3 p[3]; for (auto& x : p) x = o + vec(c, e); if (sliverTri(p[0], p[1], p[2])) continue; int k = (int)M.v.size(); for (auto& x : p) M.v.push_back(x); T(k, k + 1, k + 2); }
    if (M.t.empty()) c.discard("empty soup");
  } else if (kind == 1) {  // closed hull-like
    M.kind = "hull"; Hull H = randomHull(c, 0.3 * s, s); M.v = H.v; for (auto& f : H.f) for (size_t i = 1; i + 1 < f.size(); i++) T(f[0], f[i], f[i + 1]); M.closed = true;
  } else if (kind == 2) {  // height field, possibly flat
    M.kind = "grid"; int a = c.range(1, 6), b = c.range(1, 6); while (2 * a * b > maxTris) { if (a > b) a--; else b--; if (a < 1 || b < 1) { a = b = 1; break; } }
    bool flat = c.chance(1, 3); double h = s * c.uni(0, 0.5);
    for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) M.v.push_back(V3(s * (2.0 * i / a - 1), s * (2.0 * j / b - 1), flat ? 0 : c.uni(-h, h)));
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { int k = i * (b + 1) + j; T(k, k + b + 1, k + 1); T(k + 1, k + b + 1, k + b + 2); }
  } else if (kind == 3) {  // lat/long ellipsoid
    M.kind = "ball"; int n = c.range(3, 8), m = c.range(2, 6); while (2 * n * (m - 1) > maxTris && m > 2) m--; while (2 * n * (m - 1) > maxTris && n > 3) n--; V3 r(s * c.uni(0.3, 1), s * c.uni(0.3, 1), s * c.uni(0.3, 1));
    M.v.push_back(V3(0, 0, r[2])); for (int i = 1; i < m; i++) for (int j = 0; j < n; j++) { double th = M_PI * i / m, ph = 2 * M_PI * j / n; M.v.push_back(V3(r[0] * std::sin(th) * std::cos(ph), r[1] * std::sin(th) * std::sin(ph), r[2] * std::cos(th))); } M.v.push_back(V3(0, 0, -r[2]));
    int last = (int)M.v.size() - 1; for (int j = 0; j < n; j++) { int k = (j + 1) % n; T(0, 1 + j, 1 + k); T(last, last - n + k, last - n + j); for (int i = 0; i + 2 < m; i++) { int p = 1 + i * n; T(p + j, p + n + j, p + n + k); T(p + j, p + n + k, p + k); } } M.closed = true;
  } else if (kind == 4) {  // strip / chain along a direction (long thin volumes)
    M.kind = "strip"; int n = c.range(1, std::max(1, maxTris / 2)); V3 d = dir(c), e = dir(c); e -= d * d.dot(e); if (e.norm() < 0.1) c.discard("strip"); e.normalize(); double w = s * c.pos_real(0.02, 0.3);
    for (int i = 0; i <= n; i++) { V3 o = d * (s * (2.0 * i / n - 1)); double jz = c.uni(-0.1, 0.1) * s; V3 z = d.cross(e) * jz; M.v.push_back(o - e * w + z); M.v.push_back(o + e * w + z); }
    for (int i = 0; i < n; i++) { T(2 * i, 2 * i + 2, 2 * i + 1); T(2 * i + 1, 2 * i + 2, 2 * i + 3); }
  } else if (kind == 6) {  // vertices on a lattice: edges parallel, faces in one plane, shared vertices
    M.kind = "lattice"; int n = c.range(1, std::max(1, maxTris / 2)), L = c.range(2, 4);
    for (int i = 0; i < n; i++) { V3 p[3]; for (auto& x : p) x = V3(c.pick(L), c.pick(L), c.pick(L)); if (sliverTri(p[0], p[1], p[2]) || (p[1] - p[0]).cross(p[2] - p[0]).norm() < 0.5) continue; int k = (int)M.v.size(); for (auto& x : p) M.v.push_back((x - V3::Constant((L - 1) * 0.5)) * (2 * s / L)); T(k, k + 1, k + 2); }
    if (M.t.empty()) c.discard("empty lattice");
  } else {                 // copies of a few triangles (identical centroids: splitters cannot separate them)
    M.kind = "dup"; int n = c.range(1, 3), k = c.range(2, 6); for (int i = 0; i < n; i++) { V3 o = vec(c, s), p[3]; for (auto& x : p) x = o + vec(c, s); if (sliverTri(p[0], p[1], p[2])) continue; for (int q = 0; q < k; q++) { int b = (int)M.v.size(); for (auto& x : p) M.v.push_back(x); T(b, b + 1, b + 2); } }
    if (M.t.empty()) c.discard("empty dup");
  }
  for (auto& t : M.t) if (sliverTri(M.v[t[0]], M.v[t[1]], M.v[t[2]])) c.discard("sliver");
  if (c.chance(1, 4)) { T3 q = pose(c, s); for (auto& x : M.v) x = q * x; }
  if (c.chance(1, 6)) { V3 o = vec(c, 10 * s); for (auto& x : M.v) x += o; }          // far from its own origin
  return M;
}
// splitter 0 mean (default), 1 median, 2 bv centre; how: 0 addSubModel, 1 addTriangle per triangle, 2 several sub-models, 3 built small then replaced,  4 built displaced, then updated
template <class BV> std::shared_ptr<fcl::BVHModel<BV>> buildBVH(const Mesh& M, int splitter = 0, int how = 0) {
  auto m = std::make_shared<fcl::BVHModel<BV>>();
  static const fcl::detail::SplitMethodType sm[] = {fcl::detail::SPLIT_METHOD_MEAN, fcl::detail::SPLIT_METHOD_MEDIAN, fcl::detail::SPLIT_METHOD_BV_CENTER};
  m->bv_splitter.reset(new fcl::detail::BVSplitter<BV>(sm[splitter]));
  std::vector<V3> v = M.v; if (how >= 3) for (size_t i = 0; i < v.size(); i++) v[i] = V3(0.3 * v[i][1], 1.0 + v[i][2] * (i % 2 ? 1 : -1), v[i][0] * 0.5);
  m->beginModel(how == 1 ? 0 : (int)M.t.size(), how == 1 ? 0 : (int)v.size());
  if (how == 1) for (auto& t : M.t) m->addTriangle(v[t[0]], v[t[1]], v[t[2]]);
  else if (how == 2) { size_t k = M.t.size() / 2; std::vector<fcl::Triangle> a(M.t.begin(), M.t.begin() + k), b(M.t.begin() + k, M.t.end()); if (!a.empty()) m->addSubModel(v, a); m->addSubModel(v, b); }
  else m->addSubModel(v, M.t);
  m->endModel();
  if (how >= 3) {
    bool refit = how != 5, bottomup = how != 6;
    if (how == 4) { m->beginUpdateModel(); m->updateSubModel(M.v); m->endUpdateModel(true, true); }
    else { m->beginReplaceModel(); m->replaceSubModel(M.v); m->endReplaceModel(refit, bottomup); }
  }
  m->computeLocalAABB();
  return m;
}
inline std::shared_ptr<fcl::CollisionGeometryd> buildAny(int b, const Mesh& M, int splitter = 0, int how = 0) {
  switch (b) {
    case B_AABB: return buildBVH<fcl::AABBd>(M, splitter, how); case B_OBB: return buildBVH<fcl::OBBd>(M, splitter, how);
    case B_RSS: return buildBVH<fcl::RSSd>(M, splitter, how); case B_OBBRSS: return buildBVH<fcl::OBBRSSd>(M, splitter, how);
    case B_KIOS: return buildBVH<fcl::kIOSd>(M, splitter, how); case B_K16: return buildBVH<fcl::KDOPd<16>>(M, splitter, how);
    case B_K18: return buildBVH<fcl::KDOPd<18>>(M, splitter, how); default: return buildBVH<fcl::KDOPd<24>>(M, splitter, how);
  }
}
struct TriWorld { std::vector<std::array<V3, 3>> t; std::vector<V3> lo, hi; };
inline TriWorld world(const Mesh& M, const T3& x) {
  TriWorld w; for (auto& t : M.t) { std::array<V3, 3> a = {{x * M.v[t[0]], x * M.v[t[1]], x * M.v[t[2]]}}; w.t.push_back(a); w.lo.push_back(a[0].cwiseMin(a[1]).cwiseMin(a[2])); w.hi.push_back(a[0].cwiseMax(a[1]).cwiseMax(a[2])); } return w;
}
inline double boxGap(const V3& al, const V3& ah, const V3& bl, const V3& bh) { double d = 0; for (int i = 0; i < 3; i++) { double g = std::max(bl[i] - ah[i], al[i] - bh[i]); if (g > 0) d += g * g; } return std::sqrt(d); }
inline double meshDist(const TriWorld& A, const TriWorld& B, int* ia = 0, int* ib = 0) {
  double best = ref::INF;
  for (size_t i = 0; i < A.t.size(); i++) for (size_t j = 0; j < B.t.size(); j++) { if (boxGap(A.lo[i], A.hi[i], B.lo[j], B.hi[j]) >= best) continue; double d = ref::triTri(A.t[i].data(), B.t[j].data()); if (d < best) { best = d; if (ia) *ia = (int)i; if (ib) *ib = (int)j; } }
  return best;
}
inline void showMesh(std::ostream& o, const Mesh& M) { o << M.kind << " " << M.v.size() << " vertices:"; for (auto& x : M.v) show(o, x); o << " " << M.t.size() << " triangles:"; for (auto& t : M.t) o << "(" << t[0] << "," << t[1] << "," << t[2] << ")"; }
}  // namespace gen
#endif
