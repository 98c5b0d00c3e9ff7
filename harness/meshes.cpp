// PBT-NEEDS: distance
// C06 mesh-mesh collision, C07 mesh-mesh distance, C08 mesh-shape queries: against brute force over triangles.
#include "gen_mesh.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace gen;

namespace {
struct MM { Mesh a, b; T3 ta, tb; TriWorld wa, wb; int bv; std::shared_ptr<fcl::CollisionGeometryd> ga, gb; double scale; std::string name; };
// place B so that one of its vertices lies near a point of A's surface
T3 placeMesh(Ctx& c, const Mesh& A, const T3& ta, const Mesh& B, double gapv) {
  T3 t = T3::Identity(); t.linear() = rot(c);
  const fcl::Triangle& x = A.t[c.pick((int)A.t.size())]; double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
  V3 p = ta * V3(A.v[x[0]] * (1 - u - v) + A.v[x[1]] * u + A.v[x[2]] * v);
  const fcl::Triangle& y = B.t[c.pick((int)B.t.size())]; V3 q = c.flip() ? B.v[y[0]] : V3((B.v[y[0]] + B.v[y[1]] + B.v[y[2]]) / 3);
  if (c.chance(1, 6)) { t.linear() = ta.linear() * axisRot(c); t.translation() = p + ta.linear() * V3::Unit(c.pick(3)) * (c.flip() ? gapv : -gapv) - t.linear() * q; return t; }   // edges and faces of the two meshes parallel
  t.translation() = p + dir(c) * gapv - t.linear() * q; return t;
}
MM makeMM(Ctx& c, std::initializer_list<int> bvs, int maxTris) {
  MM m; m.bv = *(bvs.begin() + c.pick((int)bvs.size()));
  m.a = mesh(c, maxTris); m.b = mesh(c, maxTris); m.ta = c.chance(1, 3) ? T3(T3::Identity()) : pose(c, 3);
  m.scale = std::max(m.a.size(), m.b.size()); int g = c.weighted({2, 3, 1}); double s = std::min(m.a.size(), m.b.size());
  m.tb = placeMesh(c, m.a, m.ta, m.b, g == 0 ? 0 : g == 1 ? s * c.uni(0, 0.5) : s * c.uni(0.5, 5));
  m.wa = world(m.a, m.ta); m.wb = world(m.b, m.tb);
  int sa = c.pick(3), sb = c.pick(3), ha = c.pick(7), hb = c.pick(7);
  m.ga = buildAny(m.bv, m.a, sa, ha); m.gb = buildAny(m.bv, m.b, sb, hb); m.name = bvName(m.bv);
  c.note([&](std::ostream& o) { o << m.name << " splitters " << sa << sb << " built " << ha << hb << "\n A "; showMesh(o, m.a); o << "\n  at "; show(o, m.ta); o << "\n B "; showMesh(o, m.b); o << "\n  at "; show(o, m.tb); });
  return m;
}
double triSize(const std::array<V3, 3>& t) { return std::max((t[1] - t[0]).norm(), std::max((t[2] - t[0]).norm(), (t[2] - t[1]).norm())); }
}  // namespace

PBT(C06, "mesh_mesh", 12000, 400000) {
  MM m = makeMM(ctx, {B_AABB, B_OBB, B_RSS, B_OBBRSS, B_KIOS, B_K16, B_K18, B_K24}, ctx.tier ? 120 : 40);
  // brute force
  std::set<std::pair<int, int>> must, may; double tol = 1e-6 * (m.scale + m.ta.translation().norm() + m.tb.translation().norm());
  for (size_t i = 0; i < m.wa.t.size(); i++) for (size_t j = 0; j < m.wb.t.size(); j++) {
    if (boxGap(m.wa.lo[i], m.wa.hi[i], m.wb.lo[j], m.wb.hi[j]) > tol) continue;
    double x = ref::triCross(m.wa.t[i].data(), m.wb.t[j].data());
    if (x > tol) { must.insert({(int)i, (int)j}); may.insert({(int)i, (int)j}); }
    else if (ref::triTri(m.wa.t[i].data(), m.wb.t[j].data()) <= tol) may.insert({(int)i, (int)j});
  }
  ctx.nontrivial(!must.empty() || meshDist(m.wa, m.wb) < m.scale);
  ctx.label(m.name + (must.empty() ? may.empty() ? " apart" : " touching" : " crossing"));
  auto say = [&](std::ostream& o) { o << must.size() << " triangle pairs certainly cross, " << may.size() << " may"; };
  // verdict only
  int mode = ctx.pick(3); bool contact = ctx.flip(); size_t maxc = mode == 0 ? 1 : mode == 1 ? 1000000 : (size_t)ctx.range(1, 6);
  fcl::CollisionRequestd rq(maxc, contact); rq.gjk_solver_type = ctx.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  fcl::CollisionResultd rs; size_t ret = fcl::collide(m.ga.get(), m.ta, m.gb.get(), m.tb, rq, rs);
  ctx.check(ret == rs.numContacts(), m.name + ":return-not-contact-count", [&](std::ostream& o) { o << "collide() returned " << ret << " with " << rs.numContacts() << " contacts"; });
  ctx.check(rs.numContacts() <= maxc, m.name + ":too-many-contacts", [&](std::ostream& o) { o << rs.numContacts() << " contacts for a limit of " << maxc; });
  if (!must.empty()) ctx.check(rs.isCollision(), m.name + ":missed", say);
  if (may.empty()) ctx.check(!rs.isCollision(), m.name + ":phantom", say);
  std::map<std::pair<int, int>, int> got;
  for (size_t k = 0; k < rs.numContacts(); k++) {
    auto& c = rs.getContact(k); std::pair<int, int> p((int)c.b1, (int)c.b2);
    ctx.check(c.o1 == m.ga.get() && c.o2 == m.gb.get(), m.name + ":objects");
    ctx.check(may.count(p) > 0, m.name + ":wrong-pair", [&](std::ostream& o) { o << "contact names triangles " << p.first << " and " << p.second << ", which do not touch"; });
    ctx.check(++got[p] <= (contact ? 2 : 1), m.name + ":pair-repeated", [&](std::ostream& o) { o << "triangles " << p.first << " and " << p.second << " reported " << got[p] << " times"; });
    if (contact) {
      auto& ta = m.wa.t[p.first]; auto& tb = m.wb.t[p.second]; double s = std::max(triSize(ta), triSize(tb)); double ct = 1e-4 * s + 10 * tol;
      auto D = [&](std::ostream& o) { o << "triangles " << p.first << " and " << p.second << " pos "; show(o, c.pos); o << " normal "; show(o, c.normal); o << " depth " << c.penetration_depth; };
      ctx.check(std::abs(c.normal.norm() - 1) < 1e-6, m.name + ":normal-not-unit", D);
      ctx.check(c.penetration_depth >= -ct && c.penetration_depth <= 2 * s + ct, m.name + ":depth-range", D);
      double best = ref::INF; for (auto& x : ta) best = std::min(best, (x - c.pos).norm()); for (auto& x : tb) best = std::min(best, (x - c.pos).norm());
      ctx.check(best < ct, m.name + ":position-not-a-vertex", D);
      if (must.count(p)) {     // moving triangle 2 out by the depth along the normal leaves the pair at most touching
        std::array<V3, 3> q = tb; for (auto& x : q) x += c.normal * c.penetration_depth;
        ctx.check(ref::triCross(ta.data(), q.data()) < ct, m.name + ":does-not-separate", D);
      }
    }
  }
  if (mode == 1) for (auto& p : must) ctx.check(got.count(p) > 0, m.name + ":pair-missing", [&](std::ostream& o) { o << "triangles " << p.first << " and " << p.second << " cross but are not among the " << got.size() << " reported pairs"; });
  if (mode == 2 && !contact) ctx.check(rs.numContacts() >= std::min(maxc, must.size()), m.name + ":too-few-contacts", [&](std::ostream& o) { say(o); o << "; limit " << maxc << ", reported " << rs.numContacts(); });
}

PBT(C07, "mesh_mesh_distance", 12000, 400000) {
  MM m = makeMM(ctx, {B_AABB, B_RSS, B_KIOS, B_OBBRSS}, ctx.tier ? 120 : 40);
  double d0 = meshDist(m.wa, m.wb); double tol = 1e-6 * (m.scale + m.ta.translation().norm() + m.tb.translation().norm());
  fcl::DistanceRequestd rq; rq.enable_nearest_points = ctx.flip(); rq.gjk_solver_type = ctx.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  if (ctx.chance(1, 3)) rq.rel_err = ctx.uni(0, 0.2); if (ctx.chance(1, 3)) rq.abs_err = ctx.uni(0, 0.2) * m.scale;
  fcl::DistanceResultd rs; double d = fcl::distance(m.ga.get(), m.ta, m.gb.get(), m.tb, rq, rs);
  ctx.nontrivial(d0 < 10 * m.scale); ctx.label(m.name + (d0 <= tol ? " touching" : " apart"));
  auto D = [&](std::ostream& o) { o << "distance() returned " << d << ", min_distance " << rs.min_distance << " between triangles " << rs.b1 << " and " << rs.b2 << ", brute force " << d0 << " (rel_err " << rq.rel_err << " abs_err " << rq.abs_err << "), points "; show(o, rs.nearest_points[0]); show(o, rs.nearest_points[1]); };
  ctx.check(d == rs.min_distance, m.name + ":return-differs", D);
  ctx.check(d >= d0 - tol, m.name + ":too-small", D);
  ctx.check(d <= d0 + rq.abs_err + tol && d <= d0 * (1 + rq.rel_err) + tol + rq.abs_err, m.name + ":too-large", D);
  ctx.check(rs.o1 == m.ga.get() && rs.o2 == m.gb.get(), m.name + ":objects", D);
  ctx.check(rs.b1 >= 0 && rs.b1 < (int)m.wa.t.size() && rs.b2 >= 0 && rs.b2 < (int)m.wb.t.size(), m.name + ":primitive-ids", D);
  double dp = ref::triTri(m.wa.t[rs.b1].data(), m.wb.t[rs.b2].data());
  ctx.check(std::abs(dp - d) <= tol, m.name + ":named-triangles-not-at-distance", D);
  if (rq.enable_nearest_points && d0 > tol) {
    auto& a = m.wa.t[rs.b1]; auto& b = m.wb.t[rs.b2];
    ctx.check(ref::pointTri(rs.nearest_points[0], a[0], a[1], a[2]) < 10 * tol && ref::pointTri(rs.nearest_points[1], b[0], b[1], b[2]) < 10 * tol, m.name + ":point-not-on-triangle", D);
    ctx.check(std::abs((rs.nearest_points[0] - rs.nearest_points[1]).norm() - d) < 10 * tol, m.name + ":points-not-at-distance", D);
  }
}

namespace {
struct MS { Mesh a; Shape s; T3 ta, ts; TriWorld w; int bv; std::shared_ptr<fcl::CollisionGeometryd> g; double scale; std::string name; bool swap; fcl::GJKSolverType solver; std::vector<ref::Bounds> b; std::vector<ref::Shape> tri; std::vector<double> sc; };
MS makeMS(Ctx& c, bool unbounded, int maxTris) {
  MS m; static const Kind K[] = {ref::SPHERE, ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL, ref::HALFSPACE, ref::PLANE};
  static const int oriented[] = {B_RSS, B_KIOS, B_OBBRSS}; m.bv = unbounded ? c.pick(8) : oriented[c.pick(3)]; Kind k = K[c.pick(unbounded ? 9 : 7)]; m.solver = c.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD; m.swap = c.flip();
  m.a = mesh(c, maxTris); m.s = shape(c, k, 0.1, 3); m.ta = c.chance(1, 3) ? T3(T3::Identity()) : pose(c, 3);
  m.ts = T3::Identity(); m.ts.linear() = rot(c); place(m.s.r, m.ts);
  const fcl::Triangle& x = m.a.t[c.pick((int)m.a.t.size())]; double u = c.unit(), v = c.unit(); if (u + v > 1) { u = 1 - u; v = 1 - v; }
  V3 p = m.ta * V3(m.a.v[x[0]] * (1 - u - v) + m.a.v[x[1]] * u + m.a.v[x[2]] * v);
  double sz = m.s.r.size(); double g = c.weighted({3, 2, 1}) == 0 ? c.uni(-0.5, 0.5) * sz : c.uni(-1, 3) * sz; V3 d = dir(c);
  if (m.s.r.bounded()) m.ts.translation() = p + d * g - m.s.r.sup(-d); else { V3 n = m.s.r.wn(); double mx = -1e9, mn = 1e9; for (auto& q : m.a.v) { double h = n.dot(m.ta * q); mx = std::max(mx, h); mn = std::min(mn, h); } double o = c.uni(mn - 0.3 * (mx - mn) - 0.1, mx + 0.3 * (mx - mn) + 0.1); m.ts.translation() = n * (o - m.s.r.d); }
  place(m.s.r, m.ts); m.w = world(m.a, m.ta); m.scale = std::max(m.a.size(), sz);
  int sp = c.pick(3), how = c.pick(7); m.g = buildAny(m.bv, m.a, sp, how);
  m.name = std::string(bvName(m.bv)) + "-" + kindName(k) + "/" + (m.solver == fcl::GST_LIBCCD ? "libccd" : "indep");
  for (auto& t : m.w.t) { ref::Shape T; T.k = ref::TRI; V3 o = (t[0] + t[1] + t[2]) / 3; T.t = o; for (auto& q : t) T.v.push_back(q - o); T.f.push_back({{0, 1, 2}}); double s = std::max(T.size(), sz); m.tri.push_back(T); m.sc.push_back(s); m.b.push_back(ref::sd(T, m.s.r, 1e-7 * s)); }
  c.note([&](std::ostream& o) { o << m.name << (m.swap ? " shape first" : " mesh first") << " splitter " << sp << " built " << how << "\n mesh "; showMesh(o, m.a); o << "\n  at "; show(o, m.ta); o << "\n shape " << m.s.desc << " at "; show(o, m.ts); o << "\n signed distances per triangle:"; for (auto& b : m.b) o << " [" << b.lo << "," << b.hi << "]"; });
  return m;
}
}  // namespace

PBT(C08, "mesh_shape", 15000, 400000) {
  MS m = makeMS(ctx, true, ctx.tier ? 60 : 20);
  std::set<int> must, may; double near = 1e9;
  for (size_t i = 0; i < m.b.size(); i++) { double tol = 1e-3 * m.sc[i]; if (m.b[i].hi < -tol) must.insert((int)i); if (m.b[i].lo <= tol) may.insert((int)i); near = std::min(near, std::abs(m.b[i].mid())); }
  ctx.nontrivial(near < m.scale); ctx.label(m.name + (must.empty() ? may.empty() ? " apart" : " touching" : " overlap"));
  int mode = ctx.pick(3); bool contact = ctx.flip(); size_t maxc = mode == 0 ? 1 : mode == 1 ? 1000000 : (size_t)ctx.range(1, 6);
  fcl::CollisionRequestd rq(maxc, contact); rq.gjk_solver_type = m.solver; fcl::CollisionResultd rs;
  size_t ret = m.swap ? fcl::collide(m.s.g.get(), m.ts, m.g.get(), m.ta, rq, rs) : fcl::collide(m.g.get(), m.ta, m.s.g.get(), m.ts, rq, rs);
  auto say = [&](std::ostream& o) { o << must.size() << " triangles certainly overlap the shape, " << may.size() << " may; " << rs.numContacts() << " contacts"; };
  ctx.check(ret == rs.numContacts() && ret <= maxc, m.name + ":contact-count", say);
  if (!must.empty()) ctx.check(rs.isCollision(), m.name + ":missed", say);
  if (may.empty()) ctx.check(!rs.isCollision(), m.name + ":phantom", say);
  std::set<int> got;
  for (size_t k = 0; k < rs.numContacts(); k++) {
    auto& c = rs.getContact(k); bool fwd = c.o1 == m.g.get() && c.o2 == m.s.g.get(), bwd = c.o2 == m.g.get() && c.o1 == m.s.g.get();
    ctx.check(fwd || bwd, m.name + ":objects"); int id = (int)(fwd ? c.b1 : c.b2);
    ctx.check((fwd ? c.b2 : c.b1) == fcl::Contactd::NONE && id >= 0 && id < (int)m.b.size(), m.name + ":primitive-ids");
    ctx.check(may.count(id) > 0, m.name + ":wrong-triangle", [&](std::ostream& o) { o << "contact names triangle " << id << ", which is apart from the shape"; });
    ctx.check(got.insert(id).second, m.name + ":triangle-repeated");
    if (contact && must.count(id)) {
      double tol = 1e-3 * m.sc[id]; V3 n = fwd ? V3(c.normal) : V3(-c.normal); ref::Shape& T = m.tri[id];     // n from the mesh to the shape
      double r; if (m.s.r.bounded()) r = T.h_(n) + m.s.r.h_(-n) - c.penetration_depth; else { ref::Shape b = m.s.r; b.t += n * c.penetration_depth; r = -ref::sd(T, b).lo; }
      auto D = [&](std::ostream& o) { o << "triangle " << id << " normal "; show(o, c.normal); o << " pos "; show(o, c.pos); o << " depth " << c.penetration_depth << " overlap left " << r << " reference [" << m.b[id].lo << "," << m.b[id].hi << "]"; };
      ctx.check(std::abs(c.normal.norm() - 1) < 1e-6, m.name + ":normal-not-unit", D);
      ctx.check(c.penetration_depth >= -tol, m.name + ":depth-negative", D);
      bool exact = m.s.r.k == ref::SPHERE || m.s.r.k == ref::HALFSPACE || m.s.r.k == ref::PLANE;
      if (exact || m.solver == fcl::GST_LIBCCD) ctx.check(r >= -10 * tol, m.name + ":depth-beyond-overlap", D);
      if (exact) ctx.check(r <= 10 * tol, m.name + ":does-not-separate", D);
      double off = std::max(m.s.r.outside(c.pos), ref::pointTri(c.pos, m.w.t[id][0], m.w.t[id][1], m.w.t[id][2]));
      if (exact || m.solver == fcl::GST_LIBCCD) ctx.check(off <= c.penetration_depth + 10 * tol, m.name + ":position-off", D);
    }
  }
  if (mode == 1) for (int p : must) ctx.check(got.count(p) > 0, m.name + ":triangle-missing", [&](std::ostream& o) { o << "triangle " << p << " overlaps the shape but is not among the " << got.size() << " reported"; });
  if (mode == 2) ctx.check(rs.numContacts() >= std::min(maxc, must.size()), m.name + ":too-few-contacts", say);
}

PBT(C08, "mesh_shape_distance", 15000, 400000) {
  MS m = makeMS(ctx, false, ctx.tier ? 60 : 20);
  double lo = 1e18, hi = 1e18; for (auto& b : m.b) { lo = std::min(lo, b.lo); hi = std::min(hi, b.hi); }
  double tol = 1e-3 * *std::max_element(m.sc.begin(), m.sc.end()); bool sep = lo > tol, ovl = hi < -tol; if (!sep && !ovl) ctx.discard("touching within tolerance");
  fcl::DistanceRequestd rq; rq.enable_nearest_points = ctx.flip(); rq.gjk_solver_type = m.solver; fcl::DistanceResultd rs;
  double d = m.swap ? fcl::distance(m.s.g.get(), m.ts, m.g.get(), m.ta, rq, rs) : fcl::distance(m.g.get(), m.ta, m.s.g.get(), m.ts, rq, rs);
  ctx.nontrivial(lo < 2 * m.scale); ctx.label(m.name + (sep ? " apart" : " overlap"));
  bool fwd = rs.o1 == m.g.get();
  auto D = [&](std::ostream& o) { o << "distance() returned " << d << ", min_distance " << rs.min_distance << ", ids " << rs.b1 << " " << rs.b2 << ", reference [" << lo << ", " << hi << "], points "; show(o, rs.nearest_points[0]); show(o, rs.nearest_points[1]); };
  ctx.check(d == rs.min_distance, m.name + ":return-differs", D);
  if (ovl) { ctx.check(d <= 1e-12 * m.scale, m.name + ":positive-when-overlapping", D); return; }
  ctx.check(d >= lo - tol && d <= hi + tol, m.name + ":wrong-distance", D);
  ctx.check(fwd ? rs.o2 == m.s.g.get() : rs.o1 == m.s.g.get() && rs.o2 == m.g.get(), m.name + ":objects", D);
  int id = fwd ? rs.b1 : rs.b2; ctx.check(id >= 0 && id < (int)m.b.size(), m.name + ":primitive-ids", D);
  ctx.check(m.b[id].lo <= hi + 2 * tol, m.name + ":named-triangle-not-nearest", D);
  if (rq.enable_nearest_points) {
    V3 p = fwd ? rs.nearest_points[0] : rs.nearest_points[1], q = fwd ? rs.nearest_points[1] : rs.nearest_points[0];
    ctx.check(ref::pointTri(p, m.w.t[id][0], m.w.t[id][1], m.w.t[id][2]) < 10 * tol && m.s.r.outside(q) < 10 * tol, m.name + ":point-not-on-object", D);
    ctx.check(std::abs((p - q).norm() - d) < 10 * tol, m.name + ":points-not-at-distance", D);
  }
}
PBT_MAIN
