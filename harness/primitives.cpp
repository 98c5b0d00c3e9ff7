// PBT-NEEDS: collide
// C24 geometric kernels: distances and crossings of triangles and segments, features swept along straight lines, projection onto simplices, roots of polynomials.
#include "gen_mesh.h"
#include "fcl/math/bv/utility.h"
#include "fcl/math/detail/polysolver.h"
#include "fcl/math/detail/project.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance.h"
#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_continuous_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/collision_node.h"
using namespace gen;
namespace fd = fcl::detail;
typedef fd::Intersect<double> X;
namespace {
typedef std::array<V3, 3> Tri;
// coordinates that often coincide: lattice points, repeated ones, axis-aligned edges
V3 pt(Ctx& c, double s) { return c.chance(1, 3) ? V3(V3(c.range(-2, 2), c.range(-2, 2), c.range(-2, 2)) * (s / 2)) : vec(c, s); }
Tri tri(Ctx& c, double s) { for (int k = 0; k < 20; k++) { V3 o = c.flip() ? V3(V3::Zero()) : pt(c, s); double e = s * c.pos_real(0.1, 1); Tri t{{o + pt(c, e), o + pt(c, e), o + pt(c, e)}}; if (!sliverTri(t[0], t[1], t[2])) return t; } c.discard("sliver"); return Tri(); }
void showTri(std::ostream& o, const Tri& t) { for (auto& x : t) show(o, x); }
V3 segPoint(const V3& a, const V3& b, double t) { return a + (b - a) * t; }
}  // namespace

PBT(C24, "triangle_distance", 60000, 3000000) {
  double s = ctx.pos_real(0.05, 20); Tri S = tri(ctx, s), T = tri(ctx, s); if (ctx.chance(1, 8)) { int i = ctx.pick(3), j = ctx.pick(3); V3 d = S[i] - T[j]; for (auto& x : T) x += d; }
  int form = ctx.pick(4); T3 rel = T3::Identity(); if (form >= 2) rel = pose(ctx, s);
  Tri W; for (int i = 0; i < 3; i++) W[i] = rel * T[i]; V3 P, Q; double d;
  ctx.note([&](std::ostream& o) { o << "form " << form << " S "; showTri(o, S); o << " T "; showTri(o, T); o << " at "; show(o, rel); });
  M3 R = rel.linear(); V3 Tl = rel.translation();
  switch (form) { case 0: d = fd::TriangleDistance<double>::triDistance(S.data(), T.data(), P, Q); break; case 1: d = fd::TriangleDistance<double>::triDistance(S[0], S[1], S[2], T[0], T[1], T[2], P, Q); break;
    case 2: d = ctx.flip() ? fd::TriangleDistance<double>::triDistance(S.data(), T.data(), R, Tl, P, Q) : fd::TriangleDistance<double>::triDistance(S[0], S[1], S[2], T[0], T[1], T[2], R, Tl, P, Q); break;
    default: d = ctx.flip() ? fd::TriangleDistance<double>::triDistance(S.data(), T.data(), rel, P, Q) : fd::TriangleDistance<double>::triDistance(S[0], S[1], S[2], T[0], T[1], T[2], rel, P, Q); }
  double d0 = ref::triTri(S.data(), W.data()), tol = 1e-7 * (s + Tl.norm()); ctx.nontrivial(d0 < 2 * s); ctx.label(d0 <= tol ? ref::triCross(S.data(), W.data()) > tol ? "crossing" : "touching" : "apart");
  auto D = [&](std::ostream& o) { o << "distance " << d << " reference " << d0 << " points "; show(o, P); show(o, Q); };
  ctx.check(std::abs(d - d0) <= tol, "triangles:distance", D);
  if (d0 > tol) { ctx.check(ref::pointTri(P, S[0], S[1], S[2]) <= tol, "triangles:first-point", D); ctx.check(ref::pointTri(Q, W[0], W[1], W[2]) <= tol, "triangles:second-point", D); ctx.check(std::abs((P - Q).norm() - d) <= tol, "triangles:points-not-at-distance", D); }
}
PBT(C24, "segment_points", 60000, 2000000) {
  double s = ctx.pos_real(0.05, 20); V3 P = pt(ctx, s), Q = pt(ctx, s), A = pt(ctx, s), B = pt(ctx, s); if (ctx.chance(1, 8)) B = A * ctx.uni(-2, 2); if (A.norm() < 1e-3 * s || B.norm() < 1e-3 * s) ctx.discard("point segment");
  V3 v, x, y; fd::TriangleDistance<double>::segPoints(P, A, Q, B, v, x, y); double d0 = ref::segSeg(P, P + A, Q, Q + B), tol = 1e-7 * s;
  ctx.note([&](std::ostream& o) { o << "P "; show(o, P); o << " A "; show(o, A); o << " Q "; show(o, Q); o << " B "; show(o, B); });
  ctx.nontrivial(d0 < s); double par = A.cross(B).norm() / (A.norm() * B.norm()); ctx.label(par < 1e-9 ? "parallel" : d0 <= tol ? "meeting" : "apart"); if (par >= 1e-9 && par < 1e-4) tol = 1e-4 * s;
  auto D = [&](std::ostream& o) { o << "points "; show(o, x); show(o, y); o << " distance " << (x - y).norm() << " reference " << d0 << " vec "; show(o, v); };
  ctx.check(ref::pointSeg(x, P, P + A) <= tol && ref::pointSeg(y, Q, Q + B) <= tol, "segments:points-outside", D);
  ctx.check(std::abs((x - y).norm() - d0) <= tol, "segments:distance", D);
  if (d0 > 1e-3 * s && par > 1e-3) { V3 w = (y - x).normalized(); ctx.check(v.norm() > 0 && v.normalized().dot(w) > 1 - 1e-6, "segments:direction", D); }
}
PBT(C24, "triangle_crossing", 60000, 2000000) {
  double s = ctx.pos_real(0.05, 20); Tri S = tri(ctx, s), T = tri(ctx, s); double tol = 1e-6 * s;
  ctx.note([&](std::ostream& o) { o << "S "; showTri(o, S); o << " T "; showTri(o, T); });
  double cr = ref::triCross(S.data(), T.data()), d = ref::triTri(S.data(), T.data()); bool must = cr > tol, mustnot = d > tol; ctx.nontrivial(must || d < 0.2 * s); ctx.label(must ? "crossing" : mustnot ? "apart" : "touching");
  V3 cp[2], n; unsigned k = 0; double pd = 0; bool r0 = X::intersect_Triangle(S[0], S[1], S[2], T[0], T[1], T[2]), r1 = X::intersect_Triangle(S[0], S[1], S[2], T[0], T[1], T[2], cp, &k, &pd, &n);
  T3 m = pose(ctx, s); Tri U; for (int i = 0; i < 3; i++) U[i] = m.inverse() * T[i]; bool r2 = X::intersect_Triangle(S[0], S[1], S[2], U[0], U[1], U[2], m), r3 = X::intersect_Triangle(S[0], S[1], S[2], U[0], U[1], U[2], M3(m.linear()), V3(m.translation()));
  auto D = [&](std::ostream& o) { o << "answers " << r0 << r1 << r2 << r3 << " crossing by " << cr << " distance " << d; };
  ctx.check(r0 == r1, "crossing:verdict-depends-on-outputs", D);
  for (bool r : {r0, r2, r3}) ctx.check(must ? r : mustnot ? !r : true, must ? "crossing:missed" : "crossing:phantom", D);
  if (r1) ctx.check(k >= 1 && k <= 2, "crossing:contacts", D);
}
// a vertex and a face (or two edges) moving along straight lines meet at a planned time
PBT(C24, "swept_features", 60000, 2000000) {
  bool vf = ctx.flip(); double s = ctx.pos_real(0.2, 5), sp = s * ctx.pos_real(0.1, 3), ts = ctx.uni(0.02, 0.98); V3 p[4], v[4]; bool planned = ctx.chance(2, 3), newton = ctx.chance(3, 4), filtered = ctx.flip();
  if (planned) {
    if (vf) { Tri t = tri(ctx, s); double u = ctx.uni(0.02, 0.96), w = ctx.uni(0.02, 0.98 - u); if (u + w > 0.98) ctx.discard("edge"); for (int i = 0; i < 3; i++) p[i] = t[i]; p[3] = t[0] * (1 - u - w) + t[1] * u + t[2] * w; }
    else { V3 o = pt(ctx, s), a = vec(ctx, s), b = vec(ctx, s); double u = ctx.uni(0.02, 0.98), w = ctx.uni(0.02, 0.98); p[0] = o - a * u; p[1] = o + a * (1 - u); p[2] = o - b * w; p[3] = o + b * (1 - w); if (a.cross(b).norm() < 0.02 * s * s || std::min(a.norm(), b.norm()) < 0.1 * s) ctx.discard("parallel edges"); }
    V3 common = ctx.flip() ? V3(V3::Zero()) : vec(ctx, sp); bool rigid = ctx.chance(1, 3); V3 one = vec(ctx, sp); for (int i = 0; i < 4; i++) v[i] = common + (rigid ? (vf ? i == 3 : i >= 2) ? one : V3(V3::Zero()) : vec(ctx, sp));
    for (int i = 0; i < 4; i++) p[i] -= v[i] * ts;
  } else for (int i = 0; i < 4; i++) { p[i] = pt(ctx, s); v[i] = pt(ctx, sp); }
  V3 q[4]; for (int i = 0; i < 4; i++) q[i] = p[i] + v[i]; double size = 0; for (int i = 0; i < 4; i++) size = std::max(size, std::max((p[i] - p[0]).norm(), (q[i] - q[0]).norm())); 
  auto At = [&](double t, V3* x) { for (int i = 0; i < 4; i++) x[i] = p[i] + v[i] * t; };
  auto vol = [&](double t) { V3 x[4]; At(t, x); return vf ? (x[3] - x[0]).dot((x[1] - x[0]).cross(x[2] - x[0])) : (x[2] - x[0]).dot((x[1] - x[0]).cross(x[3] - x[2])); };
  auto gap = [&](double t) { V3 x[4]; At(t, x); return vf ? ref::pointTri(x[3], x[0], x[1], x[2]) : ref::segSeg(x[0], x[1], x[2], x[3]); };
  // how far inside the features the meeting point is, negative outside; and whether the features are in general position then
  auto inside = [&](double t) { V3 x[4]; At(t, x); if (vf) { V3 n = (x[1] - x[0]).cross(x[2] - x[0]); double l = n.squaredNorm(); if (sliverTri(x[0], x[1], x[2])) return 0.0; double a = (x[1] - x[3]).cross(x[2] - x[3]).dot(n) / l, b = (x[2] - x[3]).cross(x[0] - x[3]).dot(n) / l; return std::min(a, std::min(b, 1 - a - b)); }
    V3 A = x[1] - x[0], B = x[3] - x[2]; double par = A.cross(B).norm(); if (par < 1e-2 * A.norm() * B.norm() || A.norm() < 1e-2 * s || B.norm() < 1e-2 * s) return 0.0; V3 T = x[2] - x[0]; double den = A.squaredNorm() * B.squaredNorm() - A.dot(B) * A.dot(B), a = (A.dot(T) * B.squaredNorm() - B.dot(T) * A.dot(B)) / den, b = (a * A.dot(B) - B.dot(T)) / B.squaredNorm(); return std::min(std::min(a, 1 - a), std::min(b, 1 - b)); };
  // first certain meeting: a sign change of the volume well inside both features, found by sampling
  double first = 2; const int N = 200; double prev = vol(0); for (int i = 1; i <= N && first > 1; i++) { double t = i / double(N), cur = vol(t); if ((prev < 0) != (cur < 0)) { double l = t - 1.0 / N, r = t; bool neg = prev < 0; for (int k = 0; k < 60; k++) { double m = (l + r) / 2; if ((vol(m) < 0) == neg) l = m; else r = m; } if (inside(r) > 5e-3 && r < 1 - 1e-5 && r > 1e-5) { double e = 1e-4; if (r > e && r + e < 1 && inside(r - e) > 2e-3 && inside(r + e) > 2e-3) first = r; } } prev = cur; }
  double V = 0; for (int i = 0; i <= 10; i++) V = std::max(V, std::abs(vol(i / 10.0))); if (V < 1e-6 * s * s * s) ctx.discard("coplanar motion");
  double f0 = vol(0), f1 = vol(1 / 3.0), f2 = vol(2 / 3.0), f3 = vol(1), c3 = (f3 - 3 * f2 + 3 * f1 - f0) * 4.5, c2 = (2 * f0 - 5 * f1 + 4 * f2 - f3) * 4.5, c1 = (-11 * f0 + 18 * f1 - 9 * f2 + 2 * f3) / 2, C = std::abs(c3) + std::abs(c2) + std::abs(c1) + std::abs(f0);
  if (C < 1e-6) ctx.discard("coplanar motion");      // the absolute threshold of the cubic is 1e-7
  if (std::abs(c3) < 0.05 * C || C < 0.05 || C > 50) newton = true;     // the polynomial solver's thresholds are absolute: only equations of order one
  ctx.note([&](std::ostream& o) { o << (vf ? "vertex-face" : "edge-edge") << " newton " << newton << " filtered " << filtered << " from "; for (auto& x : p) show(o, x); o << " to "; for (auto& x : q) show(o, x); });
  double t = -7; V3 where = V3::Zero(); bool r = vf ? filtered ? X::intersect_VF_filtered(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], &t, &where, newton) : X::intersect_VF(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], &t, &where, newton)
                                                     : filtered ? X::intersect_EE_filtered(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], &t, &where, newton) : X::intersect_EE(p[0], p[1], p[2], p[3], q[0], q[1], q[2], q[3], &t, &where, newton);
  std::string name = std::string(vf ? "vf" : "ee") + (newton ? "" : "-roots"); ctx.nontrivial(first <= 1); ctx.label(name + (first <= 1 ? " meeting" : r ? " marginal" : " apart"));
  auto D = [&](std::ostream& o) { o << "answer " << r << " at " << t << " point "; show(o, where); o << ", first certain meeting at " << first << ", gap at the reported time " << (r ? gap(t) : -1) << " volume then " << (r ? vol(t) : 0) << " coefficients " << C; };
  if (first <= 1) { ctx.check(r, name + ":missed", D); ctx.check(t <= first + (newton ? 1e-5 : 0.02), name + ":late", D); }
  if (r) { ctx.check(t >= 0 && t <= 1, name + ":time-range", D); { V3 x[4]; At(t, x); if (vf ? sliverTri(x[0], x[1], x[2]) : std::min((x[1] - x[0]).norm(), (x[3] - x[2]).norm()) < 1e-3 * s || (x[1] - x[0]).cross(x[3] - x[2]).norm() < 1e-3 * (x[1] - x[0]).norm() * (x[3] - x[2]).norm()) return; } double tol = 1e-4 * size + (newton ? 1e-5 : 0.02) * sp;     // the polynomial solver takes nearly double roots for double ones
    ctx.check(gap(t) <= tol || std::abs(vol(t)) <= (newton ? 1e-6 : 0.02) * C, name + ":apart-at-reported-time", D); V3 x[4]; At(t, x); ctx.check((vf ? (where - x[3]).norm() : ref::pointSeg(where, x[0], x[1])) <= tol, name + ":point", D); }
}
namespace {
template <class BV> void sweptMeshes(Ctx& c, const std::string& bn, int mt) {
  Mesh A = mesh(c, mt), B = mesh(c, mt); double s = std::min(A.size(), B.size()), sc = std::max(A.size(), B.size()); V3 off = dir(c) * c.uni(0, 2) * sc; int sp = c.pick(3); for (auto& x : B.v) x += off; std::vector<V3> a1 = A.v, b1 = B.v; bool rigid = c.flip(), both = c.flip();
  V3 ctr = V3::Zero(); for (auto& x : B.v) ctr += x / double(B.v.size()); V3 ctrA = V3::Zero(); for (auto& x : A.v) ctrA += x / double(A.v.size());
  V3 to = (ctrA - ctr) * c.uni(0, 2) + vec(c, 0.3 * s); for (auto& x : b1) x += to; if (!rigid) for (auto& x : b1) x += vec(c, 0.2 * s); if (both) { V3 d = vec(c, s); for (auto& x : a1) x += d + (rigid ? V3(V3::Zero()) : vec(c, 0.2 * s)); }
  auto ga = buildBVH<BV>(A, sp), gb = buildBVH<BV>(B, sp); bool refit = c.chance(3, 4), bu = c.flip(); ga->beginUpdateModel(); ga->updateSubModel(a1); c.check(ga->endUpdateModel(refit, bu) == 0, "swept:update"); gb->beginUpdateModel(); gb->updateSubModel(b1); c.check(gb->endUpdateModel(refit, bu) == 0, "swept:update");
  c.note([&](std::ostream& o) { o << bn << " splitter " << sp << " refit " << refit << bu << "\n A "; showMesh(o, A); o << " to "; for (auto& x : a1) show(o, x); o << "\n B "; showMesh(o, B); o << " to "; for (auto& x : b1) show(o, x); });
  fd::MeshContinuousCollisionTraversalNode<BV> node; T3 I = T3::Identity(); c.check(fd::initialize(node, (const fcl::BVHModel<BV>&)*ga, I, (const fcl::BVHModel<BV>&)*gb, I, fcl::CollisionRequestd(1000000, false)), "swept:initialize"); fd::collide(&node, (fd::BVHFrontList*)nullptr);
  std::map<std::pair<int, int>, double> want, got; double first = 1; double q; V3 w;
  std::set<std::pair<int, int>> sure; V3 nudge = dir(c) * (2e-4 * s), nudge2 = V3(0.31, 0.57, 0.76) * (2e-4 * s);      // sure: still reported when the second mesh is moved a little either way (also out of any coordinate plane)
  auto pairTime = [&](const fcl::Triangle& x, const fcl::Triangle& y, const V3& d) { double t = 2; auto b0 = [&](int k) { return V3(B.v[y[k % 3]] + d); }; auto b9 = [&](int k) { return V3(b1[y[k % 3]] + d); };
    for (int k = 0; k < 3; k++) { if (X::intersect_VF(A.v[x[0]], A.v[x[1]], A.v[x[2]], b0(k), a1[x[0]], a1[x[1]], a1[x[2]], b9(k), &q, &w)) t = std::min(t, q); if (X::intersect_VF(b0(0), b0(1), b0(2), A.v[x[k]], b9(0), b9(1), b9(2), a1[x[k]], &q, &w)) t = std::min(t, q);
      for (int l = 0; l < 3; l++) if (X::intersect_EE(A.v[x[k]], A.v[x[(k + 1) % 3]], b0(l), b0(l + 1), a1[x[k]], a1[x[(k + 1) % 3]], b9(l), b9(l + 1), &q, &w)) t = std::min(t, q); }
    return t; };
  for (size_t i = 0; i < A.t.size(); i++) for (size_t j = 0; j < B.t.size(); j++) {
    double t = pairTime(A.t[i], B.t[j], V3::Zero()); if (t > 1) continue; want[{(int)i, (int)j}] = t; 
    if (pairTime(A.t[i], B.t[j], nudge) <= 1 && pairTime(A.t[i], B.t[j], -nudge) <= 1 && pairTime(A.t[i], B.t[j], nudge2) <= 1 && pairTime(A.t[i], B.t[j], -nudge2) <= 1) { sure.insert({(int)i, (int)j}); first = std::min(first, t); }
  }
  c.nontrivial(!want.empty()); c.label(bn + (want.empty() ? " free" : " meeting"));
  for (auto& z : node.pairs) { c.check(got.emplace(std::make_pair(z.id1, z.id2), z.collision_time).second, "swept:" + bn + ":pair-repeated"); c.check(want.count({z.id1, z.id2}) && std::abs(want[{z.id1, z.id2}] - z.collision_time) < 1e-5, "swept:" + bn + ":wrong-pair", [&](std::ostream& o) { o << "triangles " << z.id1 << " and " << z.id2 << " at " << z.collision_time << ", by themselves " << (want.count({z.id1, z.id2}) ? want[{z.id1, z.id2}] : 2); }); }
  for (auto& z : want) if (sure.count(z.first)) c.check(got.count(z.first), "swept:" + bn + ":pair-missing", [&](std::ostream& o) { o << "triangles " << z.first.first << " and " << z.first.second << " meet at " << z.second << ", not reported among " << got.size(); });
  double least = 1; for (auto& z : got) least = std::min(least, z.second); c.check(node.time_of_contact < first + 1e-5 && node.time_of_contact == least, "swept:" + bn + ":time-of-contact", [&](std::ostream& o) { o << node.time_of_contact << " instead of " << first; });
}
}  // namespace
PBT(C24, "swept_meshes", 4000, 120000) {
  int m = ctx.tier ? 20 : 12;
  switch (ctx.pick(8)) { case 0: return sweptMeshes<fcl::AABBd>(ctx, "AABB", m); case 1: return sweptMeshes<fcl::OBBd>(ctx, "OBB", m); case 2: return sweptMeshes<fcl::RSSd>(ctx, "RSS", m); case 3: return sweptMeshes<fcl::OBBRSSd>(ctx, "OBBRSS", m);
    case 4: return sweptMeshes<fcl::kIOSd>(ctx, "kIOS", m); case 5: return sweptMeshes<fcl::KDOPd<16>>(ctx, "KDOP16", m); case 6: return sweptMeshes<fcl::KDOPd<18>>(ctx, "KDOP18", m); default: return sweptMeshes<fcl::KDOPd<24>>(ctx, "KDOP24", m); }
}
PBT(C24, "projection", 60000, 2000000) {
  int n = ctx.range(2, 4); double s = ctx.pos_real(0.05, 20); V3 x[4], p = ctx.chance(1, 4) ? V3(V3::Zero()) : pt(ctx, s); for (int i = 0; i < n; i++) x[i] = pt(ctx, s); bool origin = ctx.chance(1, 3); if (origin) p.setZero();
  if ((x[1] - x[0]).norm() < 1e-3 * s) ctx.discard("degenerate"); if (n >= 3 && sliverTri(x[0], x[1], x[2])) ctx.discard("degenerate");
  double vol = n == 4 ? (x[0] - x[3]).dot((x[1] - x[3]).cross(x[2] - x[3])) : 0; if (n == 4) { for (int i = 0; i < 4; i++) if (sliverTri(x[i], x[(i + 1) % 4], x[(i + 2) % 4])) ctx.discard("degenerate"); if (std::abs(vol) < 1e-3 * s * s * s) ctx.discard("degenerate"); }
  ctx.note([&](std::ostream& o) { o << "project "; show(o, p); o << " onto "; for (int i = 0; i < n; i++) show(o, x[i]); o << (origin ? " (origin form)" : ""); });
  typedef fd::Project<double> Pr; Pr::ProjectResult r = n == 2 ? origin ? Pr::projectLineOrigin(x[0], x[1]) : Pr::projectLine(x[0], x[1], p) : n == 3 ? origin ? Pr::projectTriangleOrigin(x[0], x[1], x[2]) : Pr::projectTriangle(x[0], x[1], x[2], p) : origin ? Pr::projectTetrahedraOrigin(x[0], x[1], x[2], x[3]) : Pr::projectTetrahedra(x[0], x[1], x[2], x[3], p);
  V3 y[4]; for (int i = 0; i < n; i++) y[i] = x[i] - p; V3 near; double l[4]; double d0 = ref::minNorm(y, n, near, l), tol = 1e-9 * s; std::string name = n == 2 ? "segment" : n == 3 ? "triangle" : "tetrahedron";
  auto D = [&](std::ostream& o) { o << "squared distance " << r.sqr_distance << " reference " << d0 * d0 << " weights"; for (int i = 0; i < n; i++) o << " " << r.parameterization[i]; o << " code " << r.encode; };
  bool beyond = false; if (n == 4) { V3 nn = (x[1] - x[0]).cross(x[2] - x[0]); double sd = (x[3] - x[0]).dot(nn), sp2 = (p - x[0]).dot(nn); if (sp2 * sd < 1e-9 * std::abs(sd) * nn.norm() * s) beyond = true; }   // stated in the code: from there only the first face is searched (GJK never asks)
  ctx.nontrivial(!beyond); ctx.label(name + (beyond ? " beyond the first face" : d0 < tol ? " on it" : " apart")); if (beyond) { V3 q = V3::Zero(); for (int i = 0; i < n; i++) q += y[i] * r.parameterization[i]; if (r.sqr_distance < 0) return; near = q; d0 = std::max(d0, q.norm()); }
  ctx.check(r.sqr_distance >= 0 && std::abs(std::sqrt(r.sqr_distance) - d0) <= 1e-7 * s, name + ":distance", D);
  double sum = 0; V3 q = V3::Zero(); bool neg = false, code = true; for (int i = 0; i < n; i++) { double w = r.parameterization[i]; sum += w; q += y[i] * w; if (w < -1e-7) neg = true; if (w > 1e-7 && !(r.encode >> i & 1)) code = false; }
  ctx.check(std::abs(sum - 1) < 1e-7 && !neg, name + ":weights", D); ctx.check((q - near).norm() <= 1e-6 * s, name + ":point", D); ctx.check(code && r.encode < (1u << n), name + ":code", D);
}
PBT(C24, "polynomials", 60000, 2000000) {
  int deg = ctx.range(1, 3); double lead = ctx.uni(0.3, 3) * (ctx.flip() ? 1 : -1); std::vector<double> roots; double c[4] = {0, 0, 0, 0}, e[4]; bool pair = deg >= 2 && ctx.chance(1, 3); int kind = ctx.pick(4);
  auto root = [&] { return kind == 0 ? (double)ctx.range(-3, 3) : kind == 1 ? ctx.uni(0, 1) : ctx.uni(-3, 3); };
  c[0] = lead; int m = 0; auto mul = [&](double r) { for (int i = m + 1; i > 0; i--) c[i] = c[i - 1] - (i <= m ? r * c[i] : 0); c[0] *= -r; m++; };
  if (pair) { double re = ctx.uni(-2, 2), im = ctx.uni(0.1, 2); c[0] = lead * (re * re + im * im); c[1] = -2 * re * lead; c[2] = lead; m = 2; if (deg == 3) { roots.push_back(root()); mul(roots[0]); } } else for (int i = 0; i < deg; i++) { roots.push_back(i && ctx.chance(1, 6) ? roots[0] : root()); mul(roots.back()); }
  int call = ctx.chance(1, 4) ? 3 : deg;      // a cubic whose leading coefficients vanish
  for (int i = 0; i < 4; i++) e[i] = c[i]; double s[3] = {9e9, 9e9, 9e9}; int n = call == 1 ? fd::PolySolver<double>::solveLinear(c, s) : call == 2 ? fd::PolySolver<double>::solveQuadric(c, s) : fd::PolySolver<double>::solveCubic(c, s);
  ctx.note([&](std::ostream& o) { o << "degree " << deg << " coefficients"; for (int i = 0; i <= deg; i++) o << " " << e[i]; });
  auto f = [&](double x) { return ((e[3] * x + e[2]) * x + e[1]) * x + e[0]; }; auto df = [&](double x) { return (3 * e[3] * x + 2 * e[2]) * x + e[1]; };
  ctx.nontrivial(!roots.empty()); ctx.label("degree " + std::to_string(deg) + " roots " + std::to_string(roots.size()));
  auto D = [&](std::ostream& o) { o << n << " roots returned:"; for (int i = 0; i < n; i++) o << " " << s[i] << " (value " << f(s[i]) << ")"; o << "; roots:"; for (double r : roots) o << " " << r; };
  ctx.check(n >= 0 && n <= deg, "poly:count", D); for (int i = 0; i < n; i++) ctx.check(std::abs(f(s[i])) < 1e-3, "poly:not-a-root", D);
  for (double r : roots) if (std::abs(df(r)) > 0.05) { double b = 9e9; for (int i = 0; i < n; i++) b = std::min(b, std::abs(s[i] - r)); ctx.check(b < 5e-3, "poly:root-missing", D); }
  else { double b = 9e9; for (int i = 0; i < n; i++) b = std::min(b, std::abs(s[i] - r)); ctx.check(b < 0.1 || n > 0 || deg == 2, "poly:no-root", D); }
}
PBT_MAIN
