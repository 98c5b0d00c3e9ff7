// C12: bounding volumes and boxes computed for geometries and objects enclose them.
#include "gen_bv.h"
#include "fcl/geometry/shape/utility.h"
#include "fcl/geometry/octree/octree.h"
#include "fcl/narrowphase/collision_object.h"
using namespace gen;

namespace {
const Kind KINDS[] = {ref::BOX, ref::SPHERE, ref::ELLIPSOID, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::HULL, ref::TRI, ref::HALFSPACE, ref::PLANE};
// points of the posed shape: supports along random and axis directions (a half-space or plane: points on and below it)
std::vector<V3> points(Ctx& c, const ref::Shape& r, int n) {
  std::vector<V3> p;
  if (r.bounded()) { for (auto& v : r.v) p.push_back(r.R * v + r.t); for (int i = 0; i < n; i++) p.push_back(r.sup(dir(c))); for (int i = 0; i < 12; i++) { V3 u = kdir(i); p.push_back(r.sup(u)); p.push_back(r.sup(-u)); } for (int i = 0; i < 3; i++) { p.push_back(r.sup(r.R.col(i))); p.push_back(r.sup(-r.R.col(i))); } return p; }
  V3 w = r.wn();
  for (int i = 0; i < n; i++) { V3 x = vec(c, std::pow(10.0, c.pick(6))); x -= w * (w.dot(x) - r.wd()); if (r.k == ref::HALFSPACE && c.flip()) x -= w * std::pow(10.0, c.uni(-2, 5)); p.push_back(x); }
  return p;
}
template <class BV> void bvOf(const fcl::ShapeBased* g, Kind k, const T3& x, BV& b) {
  switch (k) {
#define CASE(K, T) case ref::K: fcl::computeBV(*static_cast<const fcl::T*>(g), x, b); break;
    CASE(BOX, Boxd) CASE(SPHERE, Sphered) CASE(ELLIPSOID, Ellipsoidd) CASE(CAPSULE, Capsuled) CASE(CYLINDER, Cylinderd) CASE(CONE, Coned) CASE(HULL, Convexd) CASE(TRI, TrianglePd) CASE(HALFSPACE, Halfspaced) CASE(PLANE, Planed)
#undef CASE
  }
}
template <class B> double bigOK(const B&) { return 1e7; }
template <class BV> void bvCase(Ctx& c) {
  Kind k = KINDS[c.pick(10)]; Shape s = shape(c, k); T3 x = pose(c, 4);
  if (!s.r.bounded() && c.flip()) {   // a normal that is exactly one of the k-DOP directions, in either sense, in an axis-permuting pose
    V3 n = kdir(c.pick(12)) * (c.flip() ? 1 : -1); double d = c.real(-3, 3); x.linear() = axisRot(c); if (k == ref::HALFSPACE) { auto h = std::make_shared<fcl::Halfspaced>(n, d); s.g = h; s.r.n = h->n; s.r.d = h->d; } else { auto h = std::make_shared<fcl::Planed>(n, d); s.g = h; s.r.n = h->n; s.r.d = h->d; }
    s.r.n = n.normalized(); s.r.d = d / n.norm(); std::ostringstream o; o.precision(17); o << kindName(k) << " n "; show(o, n); o << " d " << d; s.desc = o.str(); c.label("normal along a k-DOP direction");
  }
  place(s.r, x); BV b; bvOf(s.g.get(), k, x, b); std::string n = std::string(Nm<BV>::n()) + ":" + kindName(k);
  c.label(n); c.note([&](std::ostream& o) { o << n << " " << s.desc << " at "; show(o, x); }); c.nontrivial(!x.linear().isIdentity());
  double sc = s.r.size() + x.translation().norm() + 1;
  if (s.r.bounded()) c.check(bad(b) < 1e-6, "computeBV:malformed:" + n, [&](std::ostream& o) { o << n << " computed for " << s.desc << " has broken axes or negative sizes"; });
  for (auto& p : points(c, s.r, 20)) { double e = out(b, p); double tol = 1e-9 * (sc + p.norm()) + (s.r.bounded() ? 0 : 1e-6 * p.norm());
    c.check(e <= tol, "computeBV:outside:" + n, [&](std::ostream& o) { o << n << " computed for " << s.desc << " at "; show(o, x); o << " leaves out "; show(o, p); o << " by " << e; }); }
  if (s.r.bounded()) {   // no looser than three times the radius of the geometry around its centre
    V3 d = dir(c); V3 ctr = x * s.g->aabb_center; V3 far = ctr + d * (4 * s.g->aabb_radius + 1e-6);
    c.check(out(b, far) > 0, "computeBV:loose:" + n, [&](std::ostream& o) { o << n << " computed for " << s.desc << " at "; show(o, x); o << " reaches "; show(o, far); });
  }
}
std::vector<V3> boundVerts(const fcl::ShapeBased* g, Kind k, const T3& x) {
  switch (k) {
#define CASE(K, T) case ref::K: return static_cast<const fcl::T*>(g)->getBoundVertices(x);
    CASE(BOX, Boxd) CASE(SPHERE, Sphered) CASE(ELLIPSOID, Ellipsoidd) CASE(CAPSULE, Capsuled) CASE(CYLINDER, Cylinderd) CASE(CONE, Coned) CASE(HULL, Convexd) CASE(TRI, TrianglePd) default: return {};
#undef CASE
  }
}
template <class BV> void boxOf(Ctx& c) {   // constructBox: the box shape stands for the volume (a box, or a superset of it)
  std::vector<V3> p; int n = c.range(2, 8); for (int i = 0; i < n; i++) p.push_back(vec(c, 3)); BV b; fcl::fit<BV>(p.data(), n, b);
  fcl::Boxd box; T3 tf; std::string nm = Nm<BV>::n(); c.label("constructBox " + nm); c.nontrivial(); c.note([&](std::ostream& o) { o << nm; for (auto& x : p) show(o, x); });
  T3 x = c.flip() ? T3(T3::Identity()) : pose(c, 3); if (c.flip()) fcl::constructBox(b, x, box, tf); else { x = T3::Identity(); fcl::constructBox(b, box, tf); }
  ref::Shape r; r.k = ref::BOX; r.h = box.side / 2; place(r, tf);
  for (auto& q : p) c.check(r.outside(x * q) <= 1e-9 * 20, "constructBox:" + nm, [&](std::ostream& o) { o << "box constructed from " << nm << " of"; for (auto& y : p) show(o, y); o << " posed at "; show(o, x); o << " leaves out "; show(o, q); o << " by " << r.outside(x * q); });
}
}  // namespace

#define EACH(f) switch (ctx.pick(8)) { case 0: f<AABB>(ctx); break; case 1: f<OBB>(ctx); break; case 2: f<RSS>(ctx); break; case 3: f<OBBRSS>(ctx); break; case 4: f<kIOS>(ctx); break; case 5: f<K16>(ctx); break; case 6: f<K18>(ctx); break; default: f<K24>(ctx); }
PBT(C12, "computeBV", 40000, 1000000) { EACH(bvCase) }
PBT(C12, "constructBox", 10000, 200000) { EACH(boxOf) }
PBT(C12, "object_aabb", 40000, 1000000) {
  // a history of pose changes through every setter; the box must enclose the geometry at the current pose
  std::shared_ptr<fcl::CollisionGeometryd> g; std::vector<V3> loc; ref::Shape r; bool unb = false; std::string desc; double sc = 1; int what = ctx.weighted({6, 2, 1});
  if (what == 0) { Kind k = KINDS[ctx.pick(10)]; Shape s = shape(ctx, k); g = s.g; r = s.r; unb = !s.r.bounded(); desc = s.desc; loc = points(ctx, s.r, 20); sc = s.r.size() + 1; }
  else if (what == 1) { Mesh m = mesh(ctx, 20); int b = ctx.pick(8); g = buildAny(b, m, ctx.pick(3), ctx.pick(7)); loc = m.v; desc = std::string("mesh ") + m.kind + " " + bvName(b); sc = m.size() + 1; }
  else { auto t = std::make_shared<octomap::OcTree>(ctx.pos_real(0.05, 0.5)); int n = ctx.range(1, 6); std::vector<V3> c0; for (int i = 0; i < n; i++) { V3 p = vec(ctx, 3); t->updateNode(octomap::point3d(p[0], p[1], p[2]), true); c0.push_back(p); } g = std::make_shared<fcl::OcTreed>(t); loc = c0; desc = "octree"; sc = 4; unb = false; }
  ctx.note([&](std::ostream& o) { o << desc; }); ctx.label(desc.substr(0, desc.find('('))); ctx.nontrivial();
  T3 x = T3::Identity(); std::unique_ptr<fcl::CollisionObjectd> ob;
  if (ctx.flip()) { x = pose(ctx, 4); if (ctx.flip()) ob.reset(new fcl::CollisionObjectd(g, x)); else ob.reset(new fcl::CollisionObjectd(g, M3(x.linear()), V3(x.translation()))); } else ob.reset(new fcl::CollisionObjectd(g));
  int steps = ctx.range(0, 4); bool stale = false; std::string hist;
  for (int i = 0; i <= steps; i++) {
    if (i) {
      T3 y = pose(ctx, 4); stale = true;
      switch (ctx.pick(7)) {
        case 0: ob->setTranslation(y.translation()); x.translation() = y.translation(); hist += "setTranslation "; break;
        case 1: ob->setRotation(y.linear()); x.linear() = y.linear(); hist += "setRotation "; break;
        case 2: { fcl::Quaterniond q(y.linear()); ob->setQuatRotation(q); x.linear() = q.toRotationMatrix(); hist += "setQuatRotation "; break; }
        case 3: ob->setTransform(M3(y.linear()), V3(y.translation())); x = y; hist += "setTransform(R,T) "; break;
        case 4: { fcl::Quaterniond q(y.linear()); ob->setTransform(q, V3(y.translation())); x.linear() = q.toRotationMatrix(); x.translation() = y.translation(); hist += "setTransform(q,T) "; break; }
        case 5: ob->setTransform(y); x = y; hist += "setTransform "; break;
        default: ob->setIdentityTransform(); x = T3::Identity(); hist += "setIdentityTransform "; break;
      }
      if (ctx.flip()) { ob->computeAABB(); stale = false; }
    }
    ctx.check((ob->getTransform().matrix() - x.matrix()).norm() < 1e-9 && (ob->getRotation() - M3(x.linear())).norm() < 1e-9 && (ob->getTranslation() - V3(x.translation())).norm() < 1e-9 && (M3(ob->getQuatRotation().toRotationMatrix()) - M3(x.linear())).norm() < 1e-6, "object:transform", [&](std::ostream& o) { o << "after " << hist << "the object reports "; show(o, ob->getTransform()); o << " instead of "; show(o, x); });
    ctx.check(!ob->isIdentityTransform() || x.matrix().isIdentity(1e-6), "object:isIdentity"); if (x.matrix() == T3::Identity().matrix()) ctx.check(ob->isIdentityTransform(), "object:isIdentity");
  }
  if (stale) ob->computeAABB();
  const AABB& a = ob->getAABB();
  for (auto& p : loc) { double e = out(a, x * p), tol = 1e-6 * p.norm() * unb + 1e-9 * (sc + x.translation().norm() + p.norm()); ctx.check(e <= tol, "object:aabb-outside", [&](std::ostream& o) { o << "after " << hist << "the box of " << desc << " at "; show(o, x); o << " leaves out "; show(o, V3(x * p)); o << " by " << e; }); }
  // local box, centre and radius
  for (auto& p : loc) { ctx.check(out(g->aabb_local, p) <= 1e-9 * (sc + p.norm()), "local-aabb", [&](std::ostream& o) { o << "local box of " << desc << " leaves out "; show(o, p); o << " by " << out(g->aabb_local, p); });
    if (!unb) ctx.check((p - g->aabb_center).norm() <= g->aabb_radius + 1e-9 * sc, "local-radius", [&](std::ostream& o) { o << desc << ": "; show(o, p); o << " is " << (p - g->aabb_center).norm() << " from the centre, radius " << g->aabb_radius; }); }
  if (what == 0 && !unb) {   // and is tight along the axes for shapes at the identity
    for (int i = 0; i < 3; i++) { V3 e = V3::Unit(i); double h = r.h_(e), l = -r.h_(-e); ctx.check(std::abs(g->aabb_local.max_[i] - h) <= 1e-6 * sc && std::abs(g->aabb_local.min_[i] - l) <= 1e-6 * sc, "local-aabb-tight", [&](std::ostream& o) { o << "local box of " << desc << " is [" << g->aabb_local.min_[i] << "," << g->aabb_local.max_[i] << "] along axis " << i << " but the shape spans [" << l << "," << h << "]"; }); }
  }
}
PBT(C12, "bound_vertices", 20000, 400000) {
  Kind k = KINDS[ctx.pick(8)]; Shape s = shape(ctx, k); T3 x = pose(ctx, 4); place(s.r, x); auto v = boundVerts(s.g.get(), k, x); std::string n = kindName(k); ctx.label(n); ctx.nontrivial(); ctx.note([&](std::ostream& o) { o << s.desc << " at "; show(o, x); });
  ctx.check(!v.empty(), "bound-vertices:none");
  for (int i = 0; i < 12; i++) { V3 u = dir(ctx); if (i < 6) { u = x.linear() * V3::Unit(i / 2) * (i % 2 ? 1 : -1); } double h = s.r.h_(u), m = -ref::INF; for (auto& p : v) m = std::max(m, u.dot(p)); ctx.check(m >= h - 1e-9 * (s.r.size() + x.translation().norm() + 1), "bound-vertices:" + n, [&](std::ostream& o) { o << "the bounding vertices of " << s.desc << " at "; show(o, x); o << " reach " << m << " along "; show(o, u); o << " but the shape reaches " << h; }); }
}
PBT_MAIN
