// C32: the single-precision instantiation answers as the double-precision one does.
// PBT-NEEDS: collide distance
#include "gen_float.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
using namespace gen;

namespace {
std::vector<V3> moves(double e) { std::vector<V3> v{V3::Zero()}; for (int i = 0; i < 3; i++) for (int s : {-1, 1}) v.push_back(V3::Unit(i) * (s * e)); return v; }
typedef std::pair<intptr_t, intptr_t> PP;
template <class S> std::set<PP> hit(const fcl::CollisionGeometry<S>* A, const fcl::Transform3<S>& a, const fcl::CollisionGeometry<S>* B, const fcl::Transform3<S>& b, const fcl::CollisionRequest<S>& rq, fcl::CollisionResult<S>& r, bool ids) {
  fcl::collide(A, a, B, b, rq, r); std::set<PP> s; for (size_t i = 0; i < r.numContacts(); i++) { auto& c = r.getContact(i); PP p = c.o1 == A ? PP(c.b1, c.b2) : PP(c.b2, c.b1); if (!ids) p = PP(0, 0); s.insert(p); } return s;
}
// what one unit of the double-precision world is in the single-precision one
double unit(Ctx& c) { static const double U[] = {1, 1, 1, 0.01, 30, 1000}; return U[c.pick(6)]; }
bool good(const F3& v) { return v.allFinite(); }
}  // namespace

PBT(C32, "collide", 7000, 120000) {
  Two w = two(ctx); if (!w.A.bounded && !w.B.bounded) ctx.discard("whether two planes are parallel is not decided in single precision"); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; bool contact = ctx.flip(); std::string key = "collide:" + w.name + "/" + solverName(k) + (contact ? "/contacts" : "");
  bool ids = w.A.k != A_OCT && w.B.k != A_OCT; double u = ids ? unit(ctx) : 1; if (u != 1) key += "/scaled";  auto A = convert(w.A, u), B = convert(w.B, u); TF a = conv(w.a, u), b = conv(w.b, u); double e = 1e-3 * w.scale;
  fcl::CollisionRequestd rq(1000000, contact); fcl::CollisionRequestf rf(1000000, contact); rq.gjk_solver_type = rf.gjk_solver_type = k; rq.gjk_tolerance = 1e-5; rf.gjk_tolerance = 1e-5f * (float)std::min(u, 1.0);
  fcl::CollisionResultf r; auto F = hit<float>(A.get(), a, B.get(), b, rf, r, ids); std::set<PP> always, ever; bool first = true; double depth = 0;
  for (auto& q : moves(e)) {
    fcl::CollisionResultd z; auto x = hit<double>(w.A.g.get(), w.a, w.B.g.get(), shift(w.b, q), rq, z, ids); if (first && contact) for (size_t i = 0; i < z.numContacts(); i++) depth = std::max(depth, z.getContact(i).penetration_depth);
    if (first) always = x; else { std::set<PP> t; std::set_intersection(always.begin(), always.end(), x.begin(), x.end(), std::inserter(t, t.end())); always = t; } ever.insert(x.begin(), x.end()); first = false;
  }
  ctx.nontrivial(!ever.empty()); ctx.label(std::string(w.A.k == A_SHAPE && w.B.k == A_SHAPE ? "shapes" : ids ? "with mesh" : "with octree") + (ever.empty() ? ", apart" : always.empty() ? ", touching" : ", in contact"));
  std::set<PP> miss; for (auto& p : always) if (!F.count(p)) miss.insert(p); std::set<PP> extra; for (auto& p : F) if (!ever.count(p)) extra.insert(p);
  if (!miss.empty() || !extra.empty()) {
    // counts only if single precision answers so at all nearby placements
    for (auto& q : moves(e / 2)) { fcl::CollisionResultf z; auto x = hit<float>(A.get(), a, B.get(), conv(shift(w.b, q), u), rf, z, ids); for (auto i = miss.begin(); i != miss.end();) i = x.count(*i) ? miss.erase(i) : std::next(i); for (auto i = extra.begin(); i != extra.end();) i = x.count(*i) ? std::next(i) : extra.erase(i); }
    ctx.check(miss.empty(), key + ":missed", [&](std::ostream& o) { o << "double precision finds the contact of parts (" << miss.begin()->first << "," << miss.begin()->second << ") at all nearby placements, single precision never; " << F.size() << " of " << ever.size() << " pairs"; });
    ctx.check(extra.empty(), key + ":extra", [&](std::ostream& o) { o << "single precision finds the contact of parts (" << extra.begin()->first << "," << extra.begin()->second << ") at all nearby placements, double precision never; " << F.size() << " of " << ever.size() << " pairs"; });
  }
  if (!contact) return; double fd = 0;
  for (size_t i = 0; i < r.numContacts(); i++) { auto& c = r.getContact(i); fd = std::max(fd, c.penetration_depth / u); double n = c.normal.norm(); ctx.check(good(c.pos) && good(c.normal) && std::isfinite(c.penetration_depth) && (n == 0 || std::abs(n - 1) < 1e-3), key + ":contact-values", [&](std::ostream& o) { o << "contact at " << c.pos.transpose() << " normal " << c.normal.transpose() << " depth " << c.penetration_depth; }); }
  // closed forms lose only rounding (and treat directions within about 0.014, a cosine of 1 - 1e-4, as parallel)
  int ta = w.A.g->getNodeType(), tb = w.B.g->getNodeType(); bool plane = w.A.k == A_SHAPE && w.B.k == A_SHAPE && (!w.A.bounded != !w.B.bounded); bool ball = ta == fcl::GEOM_SPHERE && tb == fcl::GEOM_SPHERE, bb = ta == fcl::GEOM_BOX && tb == fcl::GEOM_BOX;
  if ((plane || ball || bb) && !F.empty() && !always.empty()) { std::vector<double> ds; for (auto& q : moves(e)) { fcl::CollisionResultd z; hit<double>(w.A.g.get(), w.a, w.B.g.get(), shift(w.b, q), rq, z, ids); double x = 0; for (size_t i = 0; i < z.numContacts(); i++) x = std::max(x, z.getContact(i).penetration_depth); ds.push_back(x); } double lo = *std::min_element(ds.begin(), ds.end()), hi = *std::max_element(ds.begin(), ds.end()); bool axis = false; for (int t : {ta, tb}) axis |= t == fcl::GEOM_CYLINDER || t == fcl::GEOM_CONE || t == fcl::GEOM_BOX; double tol = (axis ? 3e-2 : 2e-3) * w.scale + (bb ? 0.06 * hi : 0); if (hi < lo + 6 * e) ctx.check(fd > lo - tol && fd < hi + tol, key + ":depth", [&](std::ostream& o) { o << "deepest contact " << fd << " in single, " << depth << " in double precision (" << lo << ".." << hi << " nearby)"; }); }
}

PBT(C32, "distance", 6000, 100000) {
  unsigned bvs = 1u << B_RSS | 1u << B_KIOS | 1u << B_OBBRSS; Two w; w.A = any(ctx, 7, bvs); w.B = any(ctx, 7, w.A.k == A_MESH ? 1u << w.A.bv : bvs); placeTwo(ctx, w, 3); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; std::string key = "distance:" + w.name + "/" + solverName(k);
  double u = w.A.k != A_OCT && w.B.k != A_OCT ? unit(ctx) : 1; auto A = convert(w.A, u), B = convert(w.B, u); fcl::DistanceRequestd rq(true); fcl::DistanceRequestf rf(true); rq.gjk_solver_type = rf.gjk_solver_type = k; fcl::DistanceResultd r; fcl::DistanceResultf s;
  double d = fcl::distance(w.A.g.get(), w.a, w.B.g.get(), w.b, rq, r), f = fcl::distance(A.get(), conv(w.a, u), B.get(), conv(w.b, u), rf, s), e = 1e-3 * w.scale;
  bool none = d > 1e30; ctx.nontrivial(!none); ctx.label(none ? "nothing to measure" : d > e ? "apart" : "touching or overlapping");
  auto D = [&](std::ostream& o) { o << "distance " << d << " in double, " << f << " in single precision (one unit = " << u << "); points "; show(o, V3(s.nearest_points[0].cast<double>())); show(o, V3(s.nearest_points[1].cast<double>())); };
  ctx.check(none == (f > 1e30), key + ":none", D); if (none) return;
  ctx.check((float)f == s.min_distance, key + ":return-value", D); f /= u;
  if (d <= e) { ctx.check(f <= 2 * e, key + ":touching", D); return; }
  if (std::abs(d - f) > e) {   // an isolated failure of the iteration in single precision is tolerated
    bool all = true; for (auto& q : moves(e / 2)) { fcl::DistanceResultf z; all &= std::abs(fcl::distance(A.get(), conv(w.a, u), B.get(), conv(shift(w.b, q), u), rf, z) / u - d) > 2 * e; }
    if (!all) { ctx.label("single precision fails here but not nearby"); return; }
  }
  ctx.check(std::abs(d - f) <= e, key + ":value", D);
  double gap = (s.nearest_points[0] - s.nearest_points[1]).norm() / u; ctx.check(std::abs(gap - f) <= e, key + ":points", D);
}

// broad phase: boxes with integer corners, on which both precisions are exact
namespace {
using Mgr = fcl::BroadPhaseCollisionManagerf; using Obj = fcl::CollisionObjectf;
std::unique_ptr<Mgr> make(int k) {
  switch (k) {
    case 0: return std::unique_ptr<Mgr>(new fcl::SSaPCollisionManagerf); case 1: return std::unique_ptr<Mgr>(new fcl::SaPCollisionManagerf); case 2: return std::unique_ptr<Mgr>(new fcl::IntervalTreeCollisionManagerf);
    case 3: return std::unique_ptr<Mgr>(new fcl::DynamicAABBTreeCollisionManagerf); case 4: return std::unique_ptr<Mgr>(new fcl::DynamicAABBTreeCollisionManager_Arrayf);
    default: return std::unique_ptr<Mgr>(new fcl::SpatialHashingCollisionManager<float>(4, F3(-10, -10, -10), F3(10, 10, 10)));
  }
}
struct Seen { std::set<std::pair<const Obj*, const Obj*>> s; };
bool note(Obj* a, Obj* b, void* d) { static_cast<Seen*>(d)->s.insert(a < b ? std::make_pair((const Obj*)a, (const Obj*)b) : std::make_pair((const Obj*)b, (const Obj*)a)); return false; }
bool near(Obj* a, Obj* b, void* d, float& m) { auto& best = *static_cast<float*>(d); float x = a->getAABB().distance(b->getAABB()); best = std::min(best, x); m = best; return m <= 0; }
}
PBT(C32, "broadphase", 3000, 60000) {
  static const char* names[] = {"SSaP", "SaP", "IntervalTree", "DynTree", "DynTreeArray", "SpatialHash"}; int k = ctx.pick(6); std::string key = std::string("broadphase:") + names[k]; auto m = make(k); std::vector<std::unique_ptr<Obj>> v; int n = ctx.range(2, ctx.chance(1, 6) ? 130 : 25); double off = ctx.pick(3) * 64.0;
  auto put = [&](Obj* o) { double x = ctx.range(-8, 8), y = ctx.range(-8, 8), z = ctx.range(-8, 8); o->setTranslation(F3(x + off, y, z)); o->computeAABB(); };
  for (int i = 0; i < n; i++) { double s[3]; for (double& x : s) x = 2 * ctx.range(1, 3); v.emplace_back(new Obj(std::make_shared<fcl::Boxf>((float)s[0], (float)s[1], (float)s[2]))); put(v.back().get()); if (ctx.chance(1, 2)) m->registerObject(v.back().get()); else { m->registerObjects({v.back().get()}); } }
  m->setup(); int rounds = ctx.range(1, 3);
  for (int q = 0; q < rounds; q++) {
    if (q) { int c = ctx.range(1, n); std::vector<Obj*> u; for (int i = 0; i < c; i++) { Obj* o = v[ctx.pick(n)].get(); put(o); u.push_back(o); } int how = ctx.pick(3); if (how == 0) m->update(); else if (how == 1) { std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); m->update(u); } else for (auto o : u) m->update(o); m->setup(); }
    auto inside = [](const fcl::AABBf& a, const fcl::AABBf& b) { for (int i = 0; i < 3; i++) if (!(a.min_[i] < b.max_[i] && b.min_[i] < a.max_[i])) return false; return true; };
    Seen s; m->collide(&s, note); size_t want = 0; float best = std::numeric_limits<float>::max();
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { auto a = v[i].get(), b = v[j].get(); best = std::min(best, a->getAABB().distance(b->getAABB())); if (!inside(a->getAABB(), b->getAABB())) continue; want++; ctx.check(s.s.count(a < b ? std::make_pair((const Obj*)a, (const Obj*)b) : std::make_pair((const Obj*)b, (const Obj*)a)) > 0, key + ":missed", [&](std::ostream& o) { o << "round " << q << ": no callback for overlapping objects " << i << " and " << j << " of " << n; }); }
    float got = std::numeric_limits<float>::max(); m->distance(&got, near); ctx.check(got == best, key + ":minimum", [&](std::ostream& o) { o << "round " << q << ": smallest distance " << best << ", " << got << " after all callbacks"; });
    ctx.nontrivial(want > 0); ctx.label(want ? "overlaps" : "no overlap");
  }
}
PBT_MAIN
