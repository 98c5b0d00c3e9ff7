// C28: objects, requests and results keep what they are given (histories of calls against plain models).
// PBT-NEEDS: collide distance
#include "gen_any.h"
#include <thread>
#include "fcl/narrowphase/collision_object.h"
#include "fcl/narrowphase/continuous_collision_object.h"
#include "fcl/narrowphase/collision_result.h"
#include "fcl/narrowphase/distance_result.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace gen;

namespace {
typedef std::shared_ptr<fcl::CollisionGeometryd> Geo;
const fcl::NODE_TYPE SHAPE_NODE[] = {fcl::GEOM_BOX, fcl::GEOM_SPHERE, fcl::GEOM_ELLIPSOID, fcl::GEOM_CAPSULE, fcl::GEOM_CYLINDER, fcl::GEOM_CONE, fcl::GEOM_CONVEX, fcl::GEOM_TRIANGLE, fcl::GEOM_HALFSPACE, fcl::GEOM_PLANE};
const fcl::NODE_TYPE BV_NODE[] = {fcl::BV_AABB, fcl::BV_OBB, fcl::BV_RSS, fcl::BV_kIOS, fcl::BV_OBBRSS, fcl::BV_KDOP16, fcl::BV_KDOP18, fcl::BV_KDOP24};
struct Typed { Geo g; fcl::NODE_TYPE n; fcl::OBJECT_TYPE o; std::string desc; };
fcl::NODE_TYPE bvNode(int b) { std::string n = bvName(b); static const char* names[] = {"AABB", "OBB", "RSS", "kIOS", "OBBRSS", "KDOP16", "KDOP18", "KDOP24"}; for (int i = 0; i < 8; i++) if (n == names[i]) return BV_NODE[i]; return fcl::BV_UNKNOWN; }
Typed typed(Ctx& c) {
  Typed t; int what = c.weighted({10, 3, 1});
  if (what == 0) { Kind k = (Kind)c.pick(10); Shape s = shape(c, k); t.g = s.g; t.n = SHAPE_NODE[k]; t.o = fcl::OT_GEOM; t.desc = s.desc; }
  else if (what == 1) { Mesh m = mesh(c, 8); int b = c.pick(8); t.g = buildAny(b, m, 0, 0); t.n = bvNode(b); t.o = fcl::OT_BVH; t.desc = bvName(b); }
  else { auto o = octree(c, 2, 1); t.g = o.g; t.n = fcl::GEOM_OCTREE; t.o = fcl::OT_OCTREE; t.desc = "octree"; }
  return t;
}
double same(const T3& a, const T3& b) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff(); }
intptr_t bigId(Ctx& c) { switch (c.weighted({4, 2, 2})) { case 0: return c.range(-1, 30); case 1: return (intptr_t)c.range(-1000, 1000) * 0x7fffffffLL; default: return (intptr_t)c.range(-1000, 1000) * 0x200000000LL + c.range(-2, 2); } }
V3 nanv() { return V3::Constant(std::nan("")); }
}  // namespace

// ------------------------------------------------ the attributes of objects and geometries
PBT(C28, "object", 20000, 400000) {
  // up to three objects over two geometries: what is set on one object may not leak into another, what belongs to the geometry is shared
  Typed G[2] = {typed(ctx), typed(ctx)}; struct M { double cost = 1, occ = 1, fre = 0; void* data = nullptr; } mg[2]; struct O { std::unique_ptr<fcl::CollisionObjectd> o; int g; T3 x = T3::Identity(); void* data = nullptr; }; std::vector<O> v; std::string h; int tags[6];
  { // nothing is left to what the memory held before
    alignas(64) unsigned char mem[sizeof(fcl::CollisionObjectd) + sizeof(fcl::ContinuousCollisionObjectd)]; int k = ctx.pick(5); T3 y = pose(ctx, 2); for (auto& x : mem) x = 0xA5; auto at = (fcl::CollisionObjectd*)mem; auto cat = (fcl::ContinuousCollisionObjectd*)mem; void* data;
    switch (k) { case 0: new (at) fcl::CollisionObjectd(G[0].g); break; case 1: new (at) fcl::CollisionObjectd(G[0].g, y); break; case 2: new (at) fcl::CollisionObjectd(G[0].g, M3(y.linear()), V3(y.translation())); break; case 3: new (cat) fcl::ContinuousCollisionObjectd(G[0].g); break; default: new (cat) fcl::ContinuousCollisionObjectd(G[0].g, std::make_shared<fcl::InterpMotion<double>>(y, y)); }
    if (k < 3) { data = at->getUserData(); at->~CollisionObject(); } else { data = cat->getUserData(); cat->~ContinuousCollisionObject(); } ctx.check(data == nullptr, "object:user-data-initially", [&](std::ostream& o) { o << "a new " << (k < 3 ? "object" : "continuous object") << " (constructor " << k << ") has user data " << data << " that nobody set"; }); }
  int n = ctx.range(1, 3); for (int i = 0; i < n; i++) {
    O o; o.g = ctx.pick(2);
    switch (ctx.pick(3)) { case 0: o.o.reset(new fcl::CollisionObjectd(G[o.g].g)); break; case 1: o.x = pose(ctx, 3); o.o.reset(new fcl::CollisionObjectd(G[o.g].g, o.x)); break; default: o.x = pose(ctx, 3); o.o.reset(new fcl::CollisionObjectd(G[o.g].g, M3(o.x.linear()), V3(o.x.translation()))); }
    v.push_back(std::move(o));
  }
  int steps = ctx.range(0, 8);
  for (int s = 0; s < steps; s++) {
    O& o = v[ctx.pick((int)v.size())]; T3 y = pose(ctx, 4); auto& g = *G[o.g].g; auto& m = mg[o.g];
    switch (ctx.pick(12)) {
      case 0: o.o->setTranslation(y.translation()); o.x.translation() = y.translation(); h += "T "; break;
      case 1: o.o->setRotation(y.linear()); o.x.linear() = y.linear(); h += "R "; break;
      case 2: { fcl::Quaterniond q(y.linear()); o.o->setQuatRotation(q); o.x.linear() = q.toRotationMatrix(); h += "q "; break; }
      case 3: o.o->setTransform(M3(y.linear()), V3(y.translation())); o.x = y; h += "RT "; break;
      case 4: { fcl::Quaterniond q(y.linear()); o.o->setTransform(q, V3(y.translation())); o.x.linear() = q.toRotationMatrix(); o.x.translation() = y.translation(); h += "qT "; break; }
      case 5: o.o->setTransform(y); o.x = y; h += "X "; break;
      case 6: o.o->setIdentityTransform(); o.x = T3::Identity(); h += "I "; break;
      case 7: o.data = &tags[ctx.pick(3)]; o.o->setUserData(o.data); h += "u "; break;
      case 8: m.data = &tags[3 + ctx.pick(3)]; g.setUserData(m.data); h += "gu "; break;
      case 9: m.cost = ctx.uni(-1, 3); if (ctx.flip()) o.o->setCostDensity(m.cost); else g.cost_density = m.cost; h += "c "; break;
      case 10: m.occ = ctx.flip() ? m.cost : ctx.uni(-1, 3); g.threshold_occupied = m.occ; h += "to "; break;
      default: m.fre = ctx.flip() ? m.cost : ctx.uni(-1, 3); g.threshold_free = m.fre; h += "tf "; break;
    }
  }
  auto D = [&](std::ostream& o) { o << "after " << h << "on " << v.size() << " objects over " << G[0].desc << " and " << G[1].desc; }; ctx.note(D); ctx.nontrivial(steps > 1); ctx.label(G[v[0].g].desc.substr(0, G[v[0].g].desc.find('(')));
  for (auto& o : v) {
    auto& t = G[o.g]; auto& m = mg[o.g]; const fcl::CollisionObjectd& q = *o.o;
    ctx.check(q.getObjectType() == t.o && t.g->getObjectType() == t.o, "object:type", D); ctx.check(q.getNodeType() == t.n && t.g->getNodeType() == t.n, "object:node-type", D);
    ctx.check(q.collisionGeometry().get() == t.g.get() && q.getCollisionGeometry() == t.g.get(), "object:geometry", D);
    ctx.check(same(q.getTransform(), o.x) == 0 && (q.getRotation() - M3(o.x.linear())).norm() == 0 && (q.getTranslation() - V3(o.x.translation())).norm() == 0, "object:transform", D);
    ctx.check((M3(q.getQuatRotation().toRotationMatrix()) - M3(o.x.linear())).norm() < 1e-6, "object:quaternion", D);
    bool id = o.x.matrix() == T3::Identity().matrix(); if (id || !o.x.matrix().isIdentity(1e-6)) ctx.check(q.isIdentityTransform() == id, "object:is-identity", D);
    ctx.check(q.getUserData() == o.data, "object:user-data", D); ctx.check(t.g->getUserData() == m.data, "geometry:user-data", D); ctx.check(q.getCostDensity() == m.cost && t.g->cost_density == m.cost, "object:cost-density", D);
    bool occ = m.cost >= m.occ, fre = m.cost <= m.fre; ctx.check(q.isOccupied() == occ && t.g->isOccupied() == occ, "object:occupied", D); ctx.check(q.isFree() == fre && t.g->isFree() == fre, "object:free", D); ctx.check(q.isUncertain() == (!occ && !fre) && t.g->isUncertain() == (!occ && !fre), "object:uncertain", D);
  }
}
PBT(C28, "continuous_object", 4000, 60000) {
  Typed t = typed(ctx); while (t.o == fcl::OT_GEOM && (t.n == fcl::GEOM_HALFSPACE || t.n == fcl::GEOM_PLANE)) t = typed(ctx);
  T3 a = pose(ctx, 3), b = pose(ctx, 3); std::shared_ptr<fcl::MotionBased> m = std::make_shared<fcl::InterpMotion<double>>(a, b); int x; auto D = [&](std::ostream& o) { o << t.desc << " from "; show(o, a); o << " to "; show(o, b); }; ctx.note(D); ctx.nontrivial();
  fcl::ContinuousCollisionObjectd c(t.g, m); ctx.check(c.getObjectType() == t.o && c.getNodeType() == t.n, "continuous:type", D); ctx.check(c.getMotion() == m.get() && c.collisionGeometry().get() == t.g.get() && c.getCollisionGeometry() == t.g.get(), "continuous:parts", D);
  c.setUserData(&x); ctx.check(c.getUserData() == &x, "continuous:user-data", D); fcl::ContinuousCollisionObjectd d(t.g); ctx.check(d.getMotion() == nullptr && d.collisionGeometry().get() == t.g.get() && d.getNodeType() == t.n, "continuous:parts", D);
}
// ------------------------------------------------ results
PBT(C28, "distance_result", 40000, 800000) {
  Geo g[3] = {std::make_shared<fcl::Sphered>(1), std::make_shared<fcl::Sphered>(2), std::make_shared<fcl::Sphered>(3)}; double init = ctx.chance(1, 3) ? ctx.uni(-1, 3) : std::numeric_limits<double>::max(); bool given = init < 1e300;
  fcl::DistanceResultd r = given ? fcl::DistanceResultd(init) : fcl::DistanceResultd(); struct { double d; const fcl::CollisionGeometryd *o1 = 0, *o2 = 0; intptr_t b1 = -1, b2 = -1; V3 p[2]; } m; m.d = init; r.nearest_points[0] = m.p[0] = V3(1, 2, 3); r.nearest_points[1] = m.p[1] = V3(4, 5, 6); std::ostringstream h; if (given) h << "start at " << init << "; ";
  auto agree = [&](const char* when) { auto D = [&](std::ostream& o) { o << h.str() << when << ": holds " << r.min_distance << " of (" << r.b1 << "," << r.b2 << "), expected " << m.d << " of (" << m.b1 << "," << m.b2 << ")"; };
    ctx.check(r.min_distance == m.d, "distance-result:distance", D); ctx.check(r.o1 == m.o1 && r.o2 == m.o2, "distance-result:objects", D); ctx.check(r.b1 == m.b1 && r.b2 == m.b2, "distance-result:ids", D); ctx.check(r.nearest_points[0] == m.p[0] && r.nearest_points[1] == m.p[1], "distance-result:points", D);
    fcl::DistanceRequestd rq; ctx.check(rq.isSatisfied(r) == (m.d <= 0), "distance-request:satisfied", D); };
  agree("at the start"); int n = ctx.range(1, 8); ctx.nontrivial(n > 1); bool improved = false;
  for (int i = 0; i < n; i++) {
    double d = ctx.chance(1, 5) ? m.d : ctx.chance(1, 8) ? 0.0 : ctx.uni(-1, 4); auto o1 = g[ctx.pick(3)].get(), o2 = g[ctx.pick(3)].get(); intptr_t b1 = bigId(ctx), b2 = bigId(ctx); V3 p = vec(ctx, 1), q = vec(ctx, 1); bool better = d < m.d; improved |= better && i; int k = ctx.pick(4); h << "update" << k << "(" << d << "," << b1 << "," << b2 << ") ";
    if (k == 0) { r.update(d, o1, o2, b1, b2); if (better) { m.d = d; m.o1 = o1; m.o2 = o2; m.b1 = b1; m.b2 = b2; } }
    else if (k == 1) { r.update(d, o1, o2, b1, b2, p, q); if (better) { m.d = d; m.o1 = o1; m.o2 = o2; m.b1 = b1; m.b2 = b2; m.p[0] = p; m.p[1] = q; } }
    else if (k == 2) { fcl::DistanceResultd e; e.min_distance = d; e.o1 = o1; e.o2 = o2; e.b1 = b1; e.b2 = b2; e.nearest_points[0] = p; e.nearest_points[1] = q; r.update(e); if (better) { m.d = d; m.o1 = o1; m.o2 = o2; m.b1 = b1; m.b2 = b2; m.p[0] = p; m.p[1] = q; } }
    else if (ctx.chance(1, 3)) { r.clear(); h << "clear "; m.d = std::numeric_limits<double>::max(); m.o1 = m.o2 = nullptr; m.b1 = m.b2 = -1; r.nearest_points[0] = m.p[0]; r.nearest_points[1] = m.p[1]; }
    agree("then");
  }
  ctx.label(improved ? "improved after the first" : "not improved after the first");
}
PBT(C28, "collision_result", 30000, 600000) {
  Geo g[3] = {std::make_shared<fcl::Sphered>(1), std::make_shared<fcl::Sphered>(2), std::make_shared<fcl::Sphered>(3)}; fcl::CollisionResultd r; std::vector<fcl::Contactd> mc; struct CS { V3 lo, hi; double den, tot; }; std::vector<CS> ms; std::ostringstream h; int n = ctx.range(1, 10); ctx.nontrivial(n > 1);
  auto D = [&](std::ostream& o) { o << h.str() << "-> " << r.numContacts() << " contacts (expected " << mc.size() << "), " << r.numCostSources() << " sources (expected " << ms.size() << ")"; };
  auto eq = [](const fcl::Contactd& a, const fcl::Contactd& b) { return a.o1 == b.o1 && a.o2 == b.o2 && a.b1 == b.b1 && a.b2 == b.b2 && a.pos == b.pos && a.normal == b.normal && a.penetration_depth == b.penetration_depth; };
  size_t limit = ctx.range(0, 5);
  for (int i = 0; i < n; i++) {
    switch (ctx.weighted({5, 5, 1, 1, 1})) {
      case 0: { auto o1 = g[ctx.pick(3)].get(), o2 = g[ctx.pick(3)].get(); intptr_t b1 = bigId(ctx), b2 = bigId(ctx); V3 p = vec(ctx, 2), q = dir(ctx); double d = ctx.uni(0, 1); fcl::Contactd c(o1, o2, b1, b2, p, q, d), e(o1, o2, b1, b2), z; h << "contact(" << b1 << "," << b2 << ") ";
        ctx.check(c.o1 == o1 && c.o2 == o2 && c.pos == p && c.normal == q && c.penetration_depth == d && e.o1 == o1 && e.o2 == o2, "contact:fields", D); ctx.check(c.b1 == b1 && c.b2 == b2 && e.b1 == b1 && e.b2 == b2, "contact:ids", D); ctx.check(!z.o1 && !z.o2 && z.b1 == fcl::Contactd::NONE && z.b2 == fcl::Contactd::NONE, "contact:default", D); r.addContact(c); mc.push_back(c); break; }
      case 1: { V3 lo = V3(ctx.pick(3), ctx.pick(2), ctx.pick(2)), hi = lo + V3(1 + ctx.pick(2), 1 + ctx.pick(2), 1); double den = ctx.chance(1, 3) ? ctx.uni(0, 2) : 1 + ctx.pick(2); fcl::CostSourced c = ctx.flip() ? fcl::CostSourced(lo, hi, den) : fcl::CostSourced(fcl::AABBd(lo, hi), den); double tot = den * (hi - lo).prod(); h << "source(" << tot << ") ";
        ctx.check(c.aabb_min == lo && c.aabb_max == hi && c.cost_density == den && std::abs(c.total_cost - tot) < 1e-12, "cost-source:fields", D); r.addCostSource(c, limit); CS s{lo, hi, den, c.total_cost}; bool dup = false; for (auto& x : ms) dup |= x.lo == lo && x.hi == hi && x.den == den; if (!dup) ms.push_back(s);
        // the cheapest go first
        std::stable_sort(ms.begin(), ms.end(), [](const CS& a, const CS& b) { return a.tot > b.tot; }); 
        while (ms.size() > limit) { // ties may be cut either way: follow the code
          double worst = ms.back().tot; size_t k = ms.size() - 1; std::vector<fcl::CostSourced> have; r.getCostSources(have); for (size_t j = 0; j < ms.size(); j++) if (ms[j].tot == worst) { bool in = false; for (auto& x : have) in |= x.aabb_min == ms[j].lo && x.aabb_max == ms[j].hi && x.cost_density == ms[j].den; if (!in) k = j; } ms.erase(ms.begin() + k); }
        break; }
      case 2: { auto from = g[ctx.pick(3)].get(), to = g[ctx.pick(3)].get(); r.replaceContactGeometry(from, to); for (auto& c : mc) { if (c.o1 == from) c.o1 = to; if (c.o2 == from) c.o2 = to; } h << "replace "; break; }
      case 3: r.clear(); mc.clear(); ms.clear(); h << "clear "; break;
      default: { fcl::CollisionResultd q = r; r.clear(); r = q; h << "copy "; }
    }
    ctx.check(r.isCollision() == !mc.empty() && r.numContacts() == mc.size() && r.numCostSources() == ms.size(), "collision-result:count", D);
    std::vector<fcl::Contactd> got(ctx.pick(3)); r.getContacts(got); ctx.check(got.size() == mc.size(), "collision-result:get-contacts", D); for (size_t k = 0; k < mc.size(); k++) ctx.check(eq(got[k], mc[k]) && eq(r.getContact(k), mc[k]), "collision-result:contact", D); if (!mc.empty()) ctx.check(eq(r.getContact(mc.size() + ctx.pick(3)), mc.back()), "collision-result:past-end", D);
    std::vector<fcl::CostSourced> cs(ctx.pick(3)); r.getCostSources(cs); ctx.check(cs.size() == ms.size(), "collision-result:get-sources", D); for (size_t k = 0; k < cs.size(); k++) { ctx.check(k == 0 || cs[k - 1].total_cost >= cs[k].total_cost, "collision-result:source-order", D); bool in = false; for (auto& x : ms) in |= cs[k].aabb_min == x.lo && cs[k].aabb_max == x.hi && cs[k].cost_density == x.den; ctx.check(in, "collision-result:source", D); }
    fcl::CollisionRequestd rq(ctx.range(0, 4), ctx.flip(), 1, ctx.flip()); ctx.check(rq.isSatisfied(r) == (!rq.enable_cost && !mc.empty() && mc.size() >= rq.num_max_contacts), "collision-request:satisfied", D);
  }
}
// strict weak orders, as sorting and sets need them
PBT(C28, "orders", 30000, 600000) {
  fcl::Contactd a[3]; fcl::CostSourced s[3]; fcl::ContactPointd p[3]; double dep[3]; for (int i = 0; i < 3; i++) { a[i].b1 = ctx.chance(1, 4) ? bigId(ctx) : ctx.pick(2); a[i].b2 = ctx.chance(1, 4) ? bigId(ctx) : ctx.pick(3); V3 lo(ctx.pick(2), ctx.pick(2), ctx.pick(2)), e(1 + ctx.pick(2), 1 + ctx.pick(2), 1 + ctx.pick(2)); s[i] = fcl::CostSourced(lo, lo + e, 1 + ctx.pick(2)); dep[i] = ctx.chance(1, 3) ? 1 : ctx.uni(0, 2); p[i] = fcl::ContactPointd(dir(ctx), vec(ctx, 1), dep[i]); }
  ctx.nontrivial(); auto D = [&](std::ostream& o) { for (int i = 0; i < 3; i++) { o << "contact ids (" << a[i].b1 << "," << a[i].b2 << ") source "; show(o, s[i].aabb_min); show(o, s[i].aabb_max); o << "x" << s[i].cost_density << " depth " << dep[i] << "; "; } }; ctx.note(D);
  auto laws = [&](auto& v, auto lt, const char* n) { for (int i = 0; i < 3; i++) { ctx.check(!lt(v[i], v[i]), std::string(n) + ":irreflexive", D); for (int j = 0; j < 3; j++) { ctx.check(!(lt(v[i], v[j]) && lt(v[j], v[i])), std::string(n) + ":antisymmetric", D); for (int k = 0; k < 3; k++) { if (lt(v[i], v[j]) && lt(v[j], v[k])) ctx.check(lt(v[i], v[k]), std::string(n) + ":transitive", D); auto e = [&](int x, int y) { return !lt(v[x], v[y]) && !lt(v[y], v[x]); }; if (e(i, j) && e(j, k)) ctx.check(e(i, k), std::string(n) + ":equivalence", D); } } } };
  laws(a, [](const fcl::Contactd& x, const fcl::Contactd& y) { return x < y; }, "contact-order"); laws(s, [](const fcl::CostSourced& x, const fcl::CostSourced& y) { return x < y; }, "source-order"); laws(p, [](const fcl::ContactPointd& x, const fcl::ContactPointd& y) { return fcl::comparePenDepth(x, y); }, "depth-order");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    ctx.check((a[i] < a[j]) == (std::make_pair(a[i].b1, a[i].b2) < std::make_pair(a[j].b1, a[j].b2)), "contact-order:by-ids", D); ctx.check(fcl::comparePenDepth(p[i], p[j]) == (dep[i] < dep[j]), "depth-order:by-depth", D); if (s[i].total_cost > s[j].total_cost) ctx.check(s[i] < s[j], "source-order:costly-first", D);
    bool eqs = s[i].aabb_min == s[j].aabb_min && s[i].aabb_max == s[j].aabb_max && s[i].cost_density == s[j].cost_density; ctx.check((!(s[i] < s[j]) && !(s[j] < s[i])) == eqs, "source-order:distinct", D); }
  fcl::ContactPointd z; ctx.check(z.normal == V3(0, 0, 0) && z.pos == V3(0, 0, 0) && z.penetration_depth == 0, "contact-point:default"); std::vector<fcl::ContactPointd> v(p, p + ctx.range(0, 3)), w = v; fcl::flipNormal(w); ctx.check(v.size() == w.size(), "flip", D); for (size_t i = 0; i < v.size(); i++) ctx.check(w[i].normal == V3(-v[i].normal) && w[i].pos == v[i].pos && w[i].penetration_depth == v[i].penetration_depth, "flip", D);
}
PBT(C28, "requests", 5000, 50000) {
  size_t n = ctx.range(0, 9), m = ctx.range(0, 9); bool a = ctx.flip(), b = ctx.flip(), c = ctx.flip(), d = ctx.flip(); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; double t = ctx.uni(1e-8, 1e-3), e = ctx.uni(0, 1), f = ctx.uni(0, 1); ctx.nontrivial();
  fcl::CollisionRequestd r0, r(n, a, m, b, c, k, t); ctx.check(r.num_max_contacts == n && r.enable_contact == a && r.num_max_cost_sources == m && r.enable_cost == b && r.use_approximate_cost == c && r.gjk_solver_type == k && r.gjk_tolerance == t && !r.enable_cached_gjk_guess, "collision-request:fields");
  ctx.check(r0.num_max_contacts == 1 && !r0.enable_contact && r0.num_max_cost_sources == 1 && !r0.enable_cost && r0.use_approximate_cost && r0.gjk_solver_type == fcl::GST_LIBCCD && r0.gjk_tolerance == 1e-6, "collision-request:defaults");
  fcl::DistanceRequestd q0, q(a, d, e, f, t, k); ctx.check(q.enable_nearest_points == a && q.enable_signed_distance == d && q.rel_err == e && q.abs_err == f && q.distance_tolerance == t && q.gjk_solver_type == k, "distance-request:fields"); ctx.check(!q0.enable_nearest_points && !q0.enable_signed_distance && q0.rel_err == 0 && q0.abs_err == 0 && q0.distance_tolerance == 1e-6 && q0.gjk_solver_type == fcl::GST_LIBCCD, "distance-request:defaults");
  auto mt = (fcl::CCDMotionType)ctx.pick(4); auto st = (fcl::CCDSolverType)ctx.pick(4); fcl::ContinuousCollisionRequestd c0, cr(n, t, mt, k, st); ctx.check(cr.num_max_iterations == n && cr.toc_err == t && cr.ccd_motion_type == mt && cr.gjk_solver_type == k && cr.ccd_solver_type == st, "continuous-request:fields"); ctx.check(c0.num_max_iterations == 10 && c0.toc_err == 0.0001 && c0.ccd_motion_type == fcl::CCDM_TRANS && c0.gjk_solver_type == fcl::GST_LIBCCD && c0.ccd_solver_type == fcl::CCDC_NAIVE, "continuous-request:defaults");
  fcl::ContinuousCollisionResultd cc; ctx.check(!cc.is_collide && cc.time_of_contact == 1, "continuous-result:default"); fcl::DistanceResultd dr; ctx.check(dr.min_distance == std::numeric_limits<double>::max() && !dr.o1 && !dr.o2 && dr.b1 == -1 && dr.b2 == -1, "distance-result:default"); fcl::CollisionResultd rr; ctx.check(!rr.isCollision() && rr.numContacts() == 0 && rr.numCostSources() == 0, "collision-result:default");
}
// ------------------------------------------------ the ready-made broadphase callbacks over a sequence of pairs
PBT(C28, "callbacks", 4000, 60000) {
  int n = ctx.range(2, 5); std::vector<Any> A; std::vector<std::unique_ptr<fcl::CollisionObjectd>> ob; for (int i = 0; i < n; i++) { A.push_back(any(ctx, 1, 0, false, true)); ob.emplace_back(new fcl::CollisionObjectd(A[i].g, pose(ctx, ctx.flip() ? 1 : 2.5))); }
  auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; size_t maxc = ctx.weighted({2, 2, 1}) == 0 ? 1 : ctx.range(1, 4); int m = ctx.range(1, 8); std::vector<std::pair<int, int>> seq; for (int i = 0; i < m; i++) { int a = ctx.pick(n), b = (a + 1 + ctx.pick(n - 1)) % n; seq.push_back({a, b}); }
  auto D = [&](std::ostream& o) { for (int i = 0; i < n; i++) { o << A[i].desc << " at "; show(o, ob[i]->getTransform()); o << "; "; } o << " pairs"; for (auto& p : seq) o << " " << p.first << "-" << p.second; o << " at most " << maxc << " contacts, " << solverName(k); }; ctx.note(D); ctx.nontrivial(m > 1);
  if (ctx.flip()) {
    fcl::DefaultCollisionData<double> cd; ctx.check(!cd.done, "callback:starts-done"); cd.request.num_max_contacts = maxc; cd.request.gjk_solver_type = k; cd.request.enable_contact = ctx.chance(1, 4); cd.request.enable_cost = ctx.chance(1, 5); fcl::CollisionResultd r; bool done = false, any = false;
    for (auto& p : seq) {
      if (!done) { size_t before = r.numContacts(); fcl::collide(ob[p.first].get(), ob[p.second].get(), cd.request, r); any |= r.numContacts() > before; done = !cd.request.enable_cost && r.numContacts() > 0 && r.numContacts() >= maxc; }
      bool got = fcl::DefaultCollisionFunction(ob[p.first].get(), ob[p.second].get(), &cd); ctx.check(got == done && cd.done == done, "callback:collision-stop", [&](std::ostream& o) { o << "returned " << got << " with " << r.numContacts() << " contacts; "; D(o); });
      ctx.check(cd.result.numContacts() == r.numContacts() && cd.result.numCostSources() == r.numCostSources(), "callback:collision-result", D); for (size_t i = 0; i < r.numContacts(); i++) ctx.check(cd.result.getContact(i).o1 == r.getContact(i).o1 && cd.result.getContact(i).o2 == r.getContact(i).o2, "callback:collision-contact", D);
    }
    ctx.label(done ? "collision, stopped" : any ? "collision, contacts" : "collision, none");
  } else {
    fcl::DefaultDistanceData<double> dd; ctx.check(!dd.done, "callback:starts-done"); dd.request.gjk_solver_type = k; double best = std::numeric_limits<double>::max(); bool done = false; std::pair<const void*, const void*> who{nullptr, nullptr};
    for (auto& p : seq) {
      if (!done) { fcl::DistanceResultd r; double d = fcl::distance(ob[p.first].get(), ob[p.second].get(), dd.request, r); if (d < best) { best = d; who = {A[p.first].g.get(), A[p.second].g.get()}; } done = best <= 0; }
      double dist = -77; bool got = fcl::DefaultDistanceFunction(ob[p.first].get(), ob[p.second].get(), &dd, dist); auto E = [&](std::ostream& o) { o << "returned " << got << " with distance " << dist << ", nearest so far " << best << "; "; D(o); };
      ctx.check(got == done, "callback:distance-stop", E); ctx.check(std::abs(dist - best) <= 1e-9 * (1 + std::abs(best)) && dd.result.min_distance == dist, "callback:distance-value", E); if (best < 1e300) ctx.check((dd.result.o1 == who.first && dd.result.o2 == who.second) || (dd.result.o1 == who.second && dd.result.o2 == who.first), "callback:distance-objects", E);
    }
    if (ctx.chance(1, 4)) { dd.done = true; double keep = dd.result.min_distance, dist = -77; bool got = fcl::DefaultDistanceFunction(ob[0].get(), ob[1].get(), &dd, dist); ctx.check(got && dist == keep && dd.result.min_distance == keep, "callback:distance-done", D); }
    ctx.label(done ? "distance, stopped" : "distance");
  }
}
PBT_MAIN
