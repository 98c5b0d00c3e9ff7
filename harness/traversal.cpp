// PBT-NEEDS: distance
// C23 traversal services below collide()/distance(): front lists kept over motions, self-collision, bounded-queue distance, parent-relative trees: against brute force over triangles.
#include "gen_mesh.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/detail/traversal/collision_node.h"
#include "fcl/narrowphase/detail/traversal/collision/mesh_collision_traversal_node.h"
#include "fcl/narrowphase/detail/traversal/distance/mesh_distance_traversal_node.h"
using namespace gen;
namespace fd = fcl::detail;

namespace {
typedef std::pair<int, int> P;
template <class BV> struct Or { static const bool yes = false; typedef fd::MeshCollisionTraversalNode<BV> Col; typedef fd::MeshDistanceTraversalNode<BV> Dist; };
template <> struct Or<fcl::OBBd> { static const bool yes = true; typedef fd::MeshCollisionTraversalNodeOBB<double> Col; typedef void Dist; };
template <> struct Or<fcl::RSSd> { static const bool yes = true; typedef fd::MeshCollisionTraversalNodeRSS<double> Col; typedef fd::MeshDistanceTraversalNodeRSS<double> Dist; };
template <> struct Or<fcl::kIOSd> { static const bool yes = true; typedef fd::MeshCollisionTraversalNodekIOS<double> Col; typedef fd::MeshDistanceTraversalNodekIOS<double> Dist; };
template <> struct Or<fcl::OBBRSSd> { static const bool yes = true; typedef fd::MeshCollisionTraversalNodeOBBRSS<double> Col; typedef fd::MeshDistanceTraversalNodeOBBRSS<double> Dist; };

struct Sets { std::set<P> must, may; };
Sets brute(const TriWorld& a, const TriWorld& b, double tol, bool self = false) {
  Sets s;
  for (size_t i = 0; i < a.t.size(); i++) for (size_t j = self ? i + 1 : 0; j < b.t.size(); j++) {
    if (boxGap(a.lo[i], a.hi[i], b.lo[j], b.hi[j]) > tol) continue;
    P p((int)i, (int)j); double x = ref::triCross(a.t[i].data(), b.t[j].data());
    if (x > tol) { s.must.insert(p); s.may.insert(p); } else if (ref::triTri(a.t[i].data(), b.t[j].data()) <= tol) s.may.insert(p);
  }
  return s;
}
template <class BV> void leaves(const fcl::BVHModel<BV>& m, int b, std::vector<int>& out) { auto& n = m.getBV(b); if (n.isLeaf()) out.push_back(n.primitiveId()); else { leaves(m, n.leftChild(), out); leaves(m, n.rightChild(), out); } }
// how often each pair of triangles lies below an entry of the front list
template <class BV> void checkFront(Ctx& c, const fd::BVHFrontList& fl, const fcl::BVHModel<BV>& a, const fcl::BVHModel<BV>& b, int na, int nb, bool self, const std::string& name, int step) {
  std::map<P, int> cov;
  for (auto& e : fl) { std::vector<int> x, y; leaves(a, e.left, x); leaves(b, e.right, y); for (int i : x) for (int j : y) cov[self ? P(std::min(i, j), std::max(i, j)) : P(i, j)]++; c.check(e.valid, name + ":front-entry-invalid"); }
  for (int i = 0; i < na; i++) for (int j = self ? i + 1 : 0; j < nb; j++) { int k = cov.count(P(i, j)) ? cov[P(i, j)] : 0; c.check(k == 1, name + (k ? ":front-overlaps" : ":front-incomplete"), [&](std::ostream& o) { o << "after step " << step << " the front list of " << fl.size() << " entries covers triangles " << i << " and " << j << " " << k << " times"; }); }
}
void checkSet(Ctx& c, const fcl::CollisionResultd& rs, const Sets& s, bool self, const std::string& name, int step, size_t maxc, bool twice) {
  std::map<P, int> got;
  for (size_t k = 0; k < rs.numContacts(); k++) { auto& x = rs.getContact(k); P p((int)x.b1, (int)x.b2); if (self && p.first > p.second) std::swap(p.first, p.second);
    c.check(s.may.count(p) > 0, name + ":wrong-pair", [&](std::ostream& o) { o << "step " << step << ": triangles " << p.first << " and " << p.second << " reported, which do not touch"; });
    c.check(++got[p] <= (twice ? 2 : 1), name + ":pair-repeated", [&](std::ostream& o) { o << "step " << step << ": triangles " << p.first << " and " << p.second << " reported " << got[p] << " times"; }); }
  c.check(rs.numContacts() <= maxc, name + ":too-many-contacts", [&](std::ostream& o) { o << rs.numContacts() << " for a limit of " << maxc; });
  if (maxc > 1000) for (auto& p : s.must) c.check(got.count(p) > 0, name + ":pair-missing", [&](std::ostream& o) { o << "step " << step << ": triangles " << p.first << " and " << p.second << " cross but are not among the " << got.size() << " reported pairs"; });
  else if (!s.must.empty()) c.check(rs.isCollision(), name + ":missed", [&](std::ostream& o) { o << "step " << step << ": " << s.must.size() << " pairs of triangles cross, none reported"; });
}
T3 near(Ctx& c, const Mesh& A, const T3& ta, const Mesh& B) {     // a pose bringing a point of B near a point of A
  T3 t = T3::Identity(); t.linear() = c.flip() ? rot(c) : M3(M3::Identity()); auto& x = A.t[c.pick((int)A.t.size())]; auto& y = B.t[c.pick((int)B.t.size())]; double w = c.unit();
  V3 p = ta * V3(A.v[x[0]] * w + (A.v[x[1]] + A.v[x[2]]) * ((1 - w) / 2)); V3 q = c.flip() ? B.v[y[0]] : V3((B.v[y[0]] + B.v[y[1]] + B.v[y[2]]) / 3);
  double s = std::min(A.size(), B.size()); t.translation() = p + dir(c) * (c.weighted({2, 3, 1}) < 2 ? c.uni(0, 0.5) : c.uni(0.5, 4)) * s - t.linear() * q; return t;
}
T3 moved(Ctx& c, const Mesh& A, const T3& ta, const Mesh& B, const T3& tb) {     // the next pose of B: still, a step, a jump
  switch (c.weighted({1, 4, 2})) { case 0: return tb; case 1: { T3 r = T3::Identity(); V3 d = dir(c); r.linear() = Eigen::AngleAxisd(c.uni(-0.3, 0.3), d).toRotationMatrix(); V3 s = vec(c, 0.3 * B.size()); T3 t = tb; t.linear() = tb.linear() * r.linear(); t.translation() += s; return t; } default: return near(c, A, ta, B); }
}
std::vector<V3> apply(const T3& t, const std::vector<V3>& v) { std::vector<V3> r; for (auto& x : v) r.push_back(t * x); return r; }
Mesh at(const Mesh& m, const T3& t) { Mesh r = m; r.v = apply(t, m.v); return r; }
bool healthy(const Mesh& m) { for (auto& t : m.t) if (sliverTri(m.v[t[0]], m.v[t[1]], m.v[t[2]])) return false; return true; }

// ---- front list over a motion, generic nodes: the meshes are moved by replacing or updating their vertices
template <class BV> void frontGeneric(Ctx& c, const std::string& bn, int maxT) {
  Mesh A = mesh(c, maxT), B = mesh(c, maxT); T3 ta = c.flip() ? T3(T3::Identity()) : pose(c, 2), tb = near(c, A, ta, B); int steps = c.range(1, 5), sp = c.pick(3); bool contact = c.chance(1, 4), one = c.chance(1, 6);
  auto ga = buildBVH<BV>(A, sp), gb = buildBVH<BV>(B, sp); std::string name = "front:" + bn; Mesh a = at(A, ta), b = at(B, tb);
  fcl::CollisionRequestd rq(one ? 1 : 1000000, contact); fcl::CollisionResultd rs; fd::MeshCollisionTraversalNode<BV> node; T3 p1 = ta, p2 = tb; fd::BVHFrontList fl;
  c.note([&](std::ostream& o) { o << name << " splitter " << sp << " steps " << steps << " contact " << contact << " one " << one << "\n A "; showMesh(o, a); o << "\n B "; showMesh(o, b); });
  c.check(fd::initialize<BV>(node, *ga, p1, *gb, p2, rq, rs), name + ":initialize"); bool hit = false;
  for (int k = 0; k <= steps; k++) {
    if (k) {
      bool bottomup = c.flip(), upd = c.flip(), morph = c.chance(1, 4); tb = moved(c, A, ta, B, tb); b = at(B, tb); if (c.chance(1, 3)) { ta = moved(c, B, tb, A, ta); a = at(A, ta); }
      if (morph) { for (auto& x : b.v) x += vec(c, 0.1 * B.size()); if (!healthy(b)) c.discard("sliver after deformation"); }
      for (int q = 0; q < 2; q++) { auto& g = q ? *gb : *ga; auto& m = q ? b : a; if (upd) { g.beginUpdateModel(); g.updateSubModel(m.v); c.check(g.endUpdateModel(true, bottomup) == 0, name + ":update"); } else { g.beginReplaceModel(); g.replaceSubModel(m.v); c.check(g.endReplaceModel(true, bottomup) == 0, name + ":replace"); } }
      // volumes fitted over the previous frame too stay conservative; the leaf tests use the current vertices
      node.vertices1 = ga->vertices; node.vertices2 = gb->vertices; rs.clear();
      c.note([&](std::ostream& o) { o << " step " << k << (upd ? " update" : " replace") << " A at "; show(o, ta); o << " B at "; show(o, tb); });
    }
    fd::collide(&node, &fl);
    double scale = std::max(a.size(), b.size()), tol = 1e-6 * scale; TriWorld wa = world(a, T3::Identity()), wb = world(b, T3::Identity()); Sets s = brute(wa, wb, tol); if (!s.must.empty()) hit = true;
    checkSet(c, rs, s, false, name, k, rq.num_max_contacts, contact); checkFront(c, fl, *ga, *gb, (int)a.t.size(), (int)b.t.size(), false, name, k);
  }
  c.nontrivial(hit); c.label(name + (hit ? " crossing" : " apart"));
}
// ---- front list over a motion, oriented nodes: the poses change
template <class BV> void frontOriented(Ctx& c, const std::string& bn, int maxT) {
  Mesh A = mesh(c, maxT), B = mesh(c, maxT); T3 ta = c.flip() ? T3(T3::Identity()) : pose(c, 2), tb = near(c, A, ta, B); int steps = c.range(1, 5), sp = c.pick(3), ha = c.pick(7), hb = c.pick(7); bool contact = c.chance(1, 4), one = c.chance(1, 6);
  auto ga = buildBVH<BV>(A, sp, ha), gb = buildBVH<BV>(B, sp, hb); std::string name = "front-oriented:" + bn; bool hit = false; typename Or<BV>::Col node; fd::BVHFrontList fl; fcl::CollisionRequestd rq(one ? 1 : 1000000, contact);
  c.note([&](std::ostream& o) { o << name << " splitter " << sp << " built " << ha << hb << " steps " << steps << " contact " << contact << " one " << one << "\n A "; showMesh(o, A); o << "\n B "; showMesh(o, B); });
  for (int k = 0; k <= steps; k++) {
    if (k) { tb = moved(c, A, ta, B, tb); if (c.chance(1, 3)) ta = moved(c, B, tb, A, ta); }
    c.note([&](std::ostream& o) { o << " step " << k << " A at "; show(o, ta); o << " B at "; show(o, tb); });
    fcl::CollisionResultd rs; c.check(fd::initialize(node, (const fcl::BVHModel<BV>&)*ga, ta, (const fcl::BVHModel<BV>&)*gb, tb, rq, rs), name + ":initialize"); fd::collide(&node, &fl);
    double scale = std::max(A.size(), B.size()), tol = 1e-6 * (scale + ta.translation().norm() + tb.translation().norm()); Sets s = brute(world(A, ta), world(B, tb), tol); if (!s.must.empty()) hit = true;
    checkSet(c, rs, s, false, name, k, rq.num_max_contacts, contact); checkFront(c, fl, *ga, *gb, (int)A.t.size(), (int)B.t.size(), false, name, k);
  }
  c.nontrivial(hit); c.label(name + (hit ? " crossing" : " apart"));
}
// ---- self-collision, with and without a front list, while the mesh deforms
template <class BV> void self(Ctx& c, const std::string& bn, int maxT, std::true_type) {
  Mesh A = mesh(c, maxT); int sp = c.pick(3), ha = c.pick(5) + 2, steps = c.range(0, 3); bool contact = c.chance(1, 4), front = c.chance(2, 3), one = c.chance(1, 6); auto g = buildBVH<BV>(A, sp, ha == 2 ? 0 : ha); std::string name = "self:" + bn; T3 t = pose(c, 2);
  typename Or<BV>::Col node; fd::BVHFrontList fl; bool hit = false; fcl::CollisionRequestd rq(one ? 1 : 1000000, contact);
  c.note([&](std::ostream& o) { o << name << " splitter " << sp << " built " << ha << " front " << front << " contact " << contact << " one " << one << "\n A "; showMesh(o, A); o << " at "; show(o, t); });
  for (int k = 0; k <= steps; k++) {
    if (k) { double e = c.uni(0, 0.5) * A.size(); for (auto& x : A.v) x += vec(c, e); if (!healthy(A)) c.discard("sliver after deformation"); g->beginReplaceModel(); c.check(g->replaceSubModel(A.v) == 0, name + ":replace"); c.check(g->endReplaceModel(true, c.flip()) == 0, name + ":replace"); c.note([&](std::ostream& o) { o << " step " << k << " "; showMesh(o, A); }); }
    fcl::CollisionResultd rs; c.check(fd::initialize(node, (const fcl::BVHModel<BV>&)*g, t, (const fcl::BVHModel<BV>&)*g, t, rq, rs), name + ":initialize"); fd::selfCollide(&node, front ? &fl : nullptr);
    double tol = 1e-6 * A.size(); TriWorld w = world(A, T3::Identity()); Sets s = brute(w, w, tol, true); if (!s.must.empty()) hit = true;
    checkSet(c, rs, s, true, name, k, rq.num_max_contacts, contact); if (front) checkFront(c, fl, *g, *g, (int)A.t.size(), (int)A.t.size(), true, name, k);
  }
  c.nontrivial(hit); c.label(name + (hit ? " crossing" : " free"));
}
template <class BV> void self(Ctx& c, const std::string& bn, int maxT, std::false_type) {
  Mesh A = mesh(c, maxT); int sp = c.pick(3), ha = c.pick(5) + 2, steps = c.range(0, 3); bool contact = c.chance(1, 4), front = c.chance(2, 3), one = c.chance(1, 6); auto g = buildBVH<BV>(A, sp, ha == 2 ? 0 : ha); std::string name = "self:" + bn; T3 i1 = T3::Identity(), i2 = i1;
  fd::MeshCollisionTraversalNode<BV> node; fd::BVHFrontList fl; bool hit = false; fcl::CollisionRequestd rq(one ? 1 : 1000000, contact); fcl::CollisionResultd rs;
  c.note([&](std::ostream& o) { o << name << " splitter " << sp << " built " << ha << " front " << front << " contact " << contact << " one " << one << "\n A "; showMesh(o, A); });
  c.check(fd::initialize<BV>(node, *g, i1, *g, i2, rq, rs), name + ":initialize");
  for (int k = 0; k <= steps; k++) {
    if (k) { double e = c.uni(0, 0.5) * A.size(); for (auto& x : A.v) x += vec(c, e); if (!healthy(A)) c.discard("sliver after deformation"); g->beginReplaceModel(); c.check(g->replaceSubModel(A.v) == 0, name + ":replace"); c.check(g->endReplaceModel(true, c.flip()) == 0, name + ":replace"); rs.clear(); c.note([&](std::ostream& o) { o << " step " << k << " "; showMesh(o, A); }); }
    fd::selfCollide(&node, front ? &fl : nullptr);
    double tol = 1e-6 * A.size(); TriWorld w = world(A, T3::Identity()); Sets s = brute(w, w, tol, true); if (!s.must.empty()) hit = true;
    checkSet(c, rs, s, true, name, k, rq.num_max_contacts, contact); if (front) checkFront(c, fl, *g, *g, (int)A.t.size(), (int)A.t.size(), true, name, k);
  }
  c.nontrivial(hit); c.label(name + (hit ? " crossing" : " free"));
}
// ---- distance with a bounded queue
template <class BV> bool initDist(fd::MeshDistanceTraversalNode<BV>& n, fcl::BVHModel<BV>& a, T3& ta, fcl::BVHModel<BV>& b, T3& tb, const fcl::DistanceRequestd& q, fcl::DistanceResultd& r, std::false_type) { return fd::initialize<BV>(n, a, ta, b, tb, q, r); }
template <class BV, class N> bool initDist(N& n, fcl::BVHModel<BV>& a, T3& ta, fcl::BVHModel<BV>& b, T3& tb, const fcl::DistanceRequestd& q, fcl::DistanceResultd& r, std::true_type) { return fd::initialize(n, (const fcl::BVHModel<BV>&)a, ta, (const fcl::BVHModel<BV>&)b, tb, q, r); }
template <class BV> void queue(Ctx& c, const std::string& bn, int maxT) {
  Mesh A = mesh(c, maxT), B = mesh(c, maxT); T3 ta = c.flip() ? T3(T3::Identity()) : pose(c, 2), tb = near(c, A, ta, B); int sp = c.pick(3), ha = c.pick(7), hb = c.pick(7), qs = c.flip() ? c.range(0, 8) : c.range(0, 200); std::string name = "queue:" + bn;
  auto ga = buildBVH<BV>(A, sp, ha), gb = buildBVH<BV>(B, sp, hb); fcl::DistanceRequestd rq(true); fcl::DistanceResultd rs; typename Or<BV>::Dist node; T3 p1 = ta, p2 = tb;
  c.note([&](std::ostream& o) { o << name << " queue " << qs << " splitter " << sp << " built " << ha << hb << "\n A "; showMesh(o, A); o << " at "; show(o, ta); o << "\n B "; showMesh(o, B); o << " at "; show(o, tb); });
  c.check(initDist<BV>(node, *ga, p1, *gb, p2, rq, rs, std::integral_constant<bool, Or<BV>::yes>()), name + ":initialize"); fd::distance(&node, (fd::BVHFrontList*)nullptr, qs);
  TriWorld wa = world(A, ta), wb = world(B, tb); double d0 = meshDist(wa, wb), scale = std::max(A.size(), B.size()), tol = 1e-6 * (scale + ta.translation().norm() + tb.translation().norm());
  c.nontrivial(d0 < 10 * scale); c.label(name + (d0 <= tol ? " touching" : " apart") + (qs > 2 ? " queue" : " recursive"));
  auto D = [&](std::ostream& o) { o << "queue size " << qs << ": distance " << rs.min_distance << " between triangles " << rs.b1 << " and " << rs.b2 << ", brute force " << d0; };
  c.check(std::abs(rs.min_distance - d0) <= tol, name + ":distance", D);
  c.check(rs.b1 >= 0 && rs.b1 < (int)A.t.size() && rs.b2 >= 0 && rs.b2 < (int)B.t.size() && std::abs(ref::triTri(wa.t[rs.b1].data(), wb.t[rs.b2].data()) - d0) <= tol, name + ":triangles", D);
  if (d0 > tol) { auto& a = wa.t[rs.b1]; auto& b = wb.t[rs.b2]; c.check(ref::pointTri(rs.nearest_points[0], a[0], a[1], a[2]) < 10 * tol && ref::pointTri(rs.nearest_points[1], b[0], b[1], b[2]) < 10 * tol, name + ":points", D); }
}
}  // namespace

PBT(C23, "front_list", 9000, 300000) {
  int m = ctx.tier ? 40 : 20, k = ctx.pick(12);
  switch (k) { case 0: return frontGeneric<fcl::AABBd>(ctx, "AABB", m); case 1: return frontGeneric<fcl::OBBd>(ctx, "OBB", m); case 2: return frontGeneric<fcl::RSSd>(ctx, "RSS", m); case 3: return frontGeneric<fcl::KDOPd<16>>(ctx, "KDOP16", m);
    case 4: return frontGeneric<fcl::KDOPd<18>>(ctx, "KDOP18", m); case 5: return frontGeneric<fcl::KDOPd<24>>(ctx, "KDOP24", m); case 6: return frontGeneric<fcl::kIOSd>(ctx, "kIOS", m); case 7: return frontGeneric<fcl::OBBRSSd>(ctx, "OBBRSS", m);
    case 8: return frontOriented<fcl::OBBd>(ctx, "OBB", m); case 9: return frontOriented<fcl::RSSd>(ctx, "RSS", m); case 10: return frontOriented<fcl::kIOSd>(ctx, "kIOS", m); default: return frontOriented<fcl::OBBRSSd>(ctx, "OBBRSS", m); }
}
PBT(C23, "self_collision", 8000, 250000) {
  int m = ctx.tier ? 40 : 20, k = ctx.pick(8); std::true_type y; std::false_type n;
  switch (k) { case 0: return self<fcl::AABBd>(ctx, "AABB", m, n); case 1: return self<fcl::KDOPd<16>>(ctx, "KDOP16", m, n); case 2: return self<fcl::KDOPd<18>>(ctx, "KDOP18", m, n); case 3: return self<fcl::KDOPd<24>>(ctx, "KDOP24", m, n);
    case 4: return self<fcl::OBBd>(ctx, "OBB", m, y); case 5: return self<fcl::RSSd>(ctx, "RSS", m, y); case 6: return self<fcl::kIOSd>(ctx, "kIOS", m, y); default: return self<fcl::OBBRSSd>(ctx, "OBBRSS", m, y); }
}
PBT(C23, "distance_queue", 8000, 250000) {
  int m = ctx.tier ? 80 : 40;
  switch (ctx.pick(4)) { case 0: return queue<fcl::AABBd>(ctx, "AABB", m); case 1: return queue<fcl::RSSd>(ctx, "RSS", m); case 2: return queue<fcl::kIOSd>(ctx, "kIOS", m); default: return queue<fcl::OBBRSSd>(ctx, "OBBRSS", m); }
}
// OBB trees stored relative to the parents, traversed with the composed transform
PBT(C23, "parent_relative", 6000, 150000) {
  int mt = ctx.tier ? 80 : 40; Mesh A = mesh(ctx, mt), B = mesh(ctx, mt); T3 ta = ctx.flip() ? T3(T3::Identity()) : pose(ctx, 2), tb = near(ctx, A, ta, B); int sp = ctx.pick(3), ha = ctx.pick(7), hb = ctx.pick(7); bool contact = ctx.chance(1, 4);
  auto ga = buildBVH<fcl::OBBd>(A, sp, ha), gb = buildBVH<fcl::OBBd>(B, sp, hb); ga->makeParentRelative(); gb->makeParentRelative();
  ctx.note([&](std::ostream& o) { o << "parent relative OBB splitter " << sp << " built " << ha << hb << " contact " << contact << "\n A "; showMesh(o, A); o << " at "; show(o, ta); o << "\n B "; showMesh(o, B); o << " at "; show(o, tb); });
  fcl::CollisionRequestd rq(1000000, contact); fcl::CollisionResultd rs; fd::MeshCollisionTraversalNodeOBB<double> node; ctx.check(fd::initialize(node, (const fcl::BVHModel<fcl::OBBd>&)*ga, ta, (const fcl::BVHModel<fcl::OBBd>&)*gb, tb, rq, rs), "relative:initialize"); fd::collide2(&node, (fd::BVHFrontList*)nullptr);
  double tol = 1e-6 * (std::max(A.size(), B.size()) + ta.translation().norm() + tb.translation().norm()); Sets s = brute(world(A, ta), world(B, tb), tol);
  ctx.nontrivial(!s.must.empty()); ctx.label(s.must.empty() ? "apart" : "crossing"); checkSet(ctx, rs, s, false, "relative:OBB", 0, 1000000, contact);
}
PBT_MAIN
