// C29: a query depends on its arguments alone, not on earlier queries nor on queries in other threads.
// PBT-NEEDS: ccd
#include <cstring>
#include <thread>
#include "gen_any.h"
#include "fcl/narrowphase/continuous_collision.h"
using namespace gen;

namespace {
template <class T> bool copyOf(const fcl::CollisionGeometryd* g, std::shared_ptr<fcl::CollisionGeometryd>& r) { auto p = dynamic_cast<const T*>(g); if (!p) return false; r = std::make_shared<T>(*p); return true; }
// the same geometry built anew
std::shared_ptr<fcl::CollisionGeometryd> fresh(const Any& a) {
  std::shared_ptr<fcl::CollisionGeometryd> r; auto g = a.g.get();
  if (a.k == A_MESH) r = buildAny(a.bv, a.M, a.split, 0);
  else if (a.k == A_OCT) { auto o = std::make_shared<fcl::OcTreed>(std::shared_ptr<const octomap::OcTree>(a.o.t)); o->setOccupancyThres(a.o.g->getOccupancyThres()); o->setFreeThres(a.o.g->getFreeThres()); r = o; }
  else (void)(copyOf<fcl::Sphered>(g, r) || copyOf<fcl::Boxd>(g, r) || copyOf<fcl::Capsuled>(g, r) || copyOf<fcl::Cylinderd>(g, r) || copyOf<fcl::Coned>(g, r) || copyOf<fcl::Ellipsoidd>(g, r) || copyOf<fcl::Convexd>(g, r) || copyOf<fcl::Halfspaced>(g, r) || copyOf<fcl::Planed>(g, r));
  r->cost_density = g->cost_density; r->threshold_occupied = g->threshold_occupied; r->threshold_free = g->threshold_free; r->computeLocalAABB(); return r;
}
struct Query { int kind, a, b; T3 x, y, x2, y2; fcl::CollisionRequestd cr; fcl::DistanceRequestd dr; fcl::ContinuousCollisionRequest<double> tr; };
// an answer as numbers; 'loose': only the sign of the first counts (penetration found by libccd depends on addresses)
struct Answer { std::vector<double> v; std::string threw; bool loose = false; };
typedef std::vector<std::shared_ptr<fcl::CollisionGeometryd>> Geoms;
Answer ask(const Query& q, const fcl::CollisionGeometryd* A, const fcl::CollisionGeometryd* B) {
  Answer r; auto& v = r.v; auto put = [&](const V3& p) { v.push_back(p[0]); v.push_back(p[1]); v.push_back(p[2]); };
  try {
    if (q.kind == 0) {
      fcl::CollisionResultd c; v.push_back((double)fcl::collide(A, q.x, B, q.y, q.cr, c)); v.push_back(c.isCollision());
      for (size_t i = 0; i < c.numContacts(); i++) { auto& k = c.getContact(i); v.push_back((k.o1 == A) + 2 * (k.o1 == B)); v.push_back((k.o2 == A) + 2 * (k.o2 == B)); bool oct = A->getObjectType() == fcl::OT_OCTREE || B->getObjectType() == fcl::OT_OCTREE; if (!oct) { v.push_back((double)k.b1); v.push_back((double)k.b2); } if (q.cr.enable_contact) { put(k.normal); put(k.pos); v.push_back(k.penetration_depth); } }
      std::vector<fcl::CostSourced> s; c.getCostSources(s); for (auto& x : s) { put(x.aabb_min); put(x.aabb_max); v.push_back(x.cost_density); v.push_back(x.total_cost); }
      if (q.cr.enable_cached_gjk_guess) put(c.cached_gjk_guess);
    } else if (q.kind == 1) {
      fcl::DistanceResultd d; v.push_back(fcl::distance(A, q.x, B, q.y, q.dr, d)); v.push_back(d.min_distance); r.loose = q.dr.gjk_solver_type == fcl::GST_LIBCCD && q.dr.enable_signed_distance && d.min_distance <= 0;
      bool shapes = A->getObjectType() == fcl::OT_GEOM && B->getObjectType() == fcl::OT_GEOM; if (!r.loose && q.dr.enable_nearest_points && d.min_distance < 1e100 && (d.min_distance > 0 || (q.dr.enable_signed_distance && shapes && d.min_distance > -0.999999))) { put(d.nearest_points[0]); put(d.nearest_points[1]); }
    } else { fcl::ContinuousCollisionResult<double> c; v.push_back(fcl::continuousCollide<double>(A, q.x, q.x2, B, q.y, q.y2, q.tr, c)); v.push_back(c.is_collide); v.push_back(c.time_of_contact); if (c.is_collide) { put(c.contact_tf1.translation()); put(c.contact_tf2.translation()); } }
  } catch (const std::exception& e) { r.threw = e.what(); r.loose = r.threw.find("validateNearestFeatureOfPolytopeBeingEdge") != std::string::npos; if (r.loose) r.v.assign(1, -1); }
  return r;
}
bool same(const Answer& a, const Answer& b) {
  if (a.loose || b.loose) return !a.v.empty() && !b.v.empty() && a.v[0] <= 0 && b.v[0] <= 0;
  return a.threw.empty() == b.threw.empty() && a.v.size() == b.v.size() && (a.v.empty() || std::memcmp(a.v.data(), b.v.data(), a.v.size() * sizeof(double)) == 0);
}
void show(std::ostream& o, const Answer& a) { if (!a.threw.empty()) { o << "exception " << a.threw.substr(0, 80); return; } o << "("; for (size_t i = 0; i < a.v.size() && i < 24; i++) o << (i ? "," : "") << a.v[i]; o << ")"; }
const char* kindOf(int k) { static const char* n[] = {"collide", "distance", "continuous"}; return n[k]; }

struct Scene { std::vector<Any> g; std::vector<Query> q; };
Scene scene(Ctx& c, int nq) {
  Scene s; int n = c.range(2, 4), bvs[] = {B_RSS, B_OBBRSS, B_KIOS, c.pick(8)}, bv = bvs[c.pick(4)];
  for (int i = 0; i < n; i++) { s.g.push_back(any(c, 7, 1u << bv, c.chance(1, 6))); c.note([&](std::ostream& o) { o << " geometry " << i << ": " << s.g[i].desc; });
    if (s.g[i].k != A_OCT && c.chance(1, 4)) { auto& g = *s.g[i].g; g.cost_density = c.pos_real(0.1, 3); g.threshold_occupied = c.flip() ? g.cost_density * 0.8 : g.cost_density * 1.5; } }
  std::vector<T3> poses;   // few poses, so that queries repeat one another
  for (int i = 0; i < n + 2; i++) poses.push_back(c.chance(1, 6) ? T3(T3::Identity()) : pose(c, 0.8));
  for (int i = 0; i < nq; i++) {
    Query q; q.a = c.pick(n); q.b = c.pick(n); const Any &A = s.g[q.a], &B = s.g[q.b]; q.x = poses[c.pick((int)poses.size())]; q.y = poses[c.pick((int)poses.size())]; q.x2 = poses[c.pick((int)poses.size())]; q.y2 = poses[c.pick((int)poses.size())];
    auto k = c.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; q.kind = c.weighted({4, 3, 2}); bool far = c.flip();
    if (far && q.kind == 1) q.y.translation() += dir(c) * (A.size + B.size);
    bool okd = A.bounded && B.bounded, mesh = A.k == A_MESH || B.k == A_MESH, meshes = A.k == A_MESH && B.k == A_MESH; bool bvd = bv == B_RSS || bv == B_OBBRSS || bv == B_KIOS; if (mesh && !bvd && !(meshes && bv == B_AABB)) okd = false;
    if (q.kind == 1 && !okd) q.kind = 0;
    bool oct = A.k == A_OCT || B.k == A_OCT; if (q.kind == 2 && !A.bounded) q.kind = 0; if (q.kind == 2 && !B.bounded) q.kind = 0;
    if (q.kind == 0) { q.cr = fcl::CollisionRequestd((size_t)c.range(1, 30), c.flip(), 10, c.chance(1, 3)); q.cr.gjk_solver_type = k; if (c.chance(1, 3)) { q.cr.enable_cached_gjk_guess = true; q.cr.cached_gjk_guess = dir(c); } }
    else if (q.kind == 1) { q.dr = fcl::DistanceRequestd(c.flip(), c.chance(1, 3)); q.dr.gjk_solver_type = k; }
    else { q.tr.gjk_solver_type = k; bool half = false; for (int z = 0; z < 2; z++) half |= M3((z ? q.x2.linear() : q.y2.linear()) * (z ? q.x.linear() : q.y.linear()).transpose()).trace() < -0.99; q.tr.ccd_motion_type = half ? fcl::CCDM_TRANS : (fcl::CCDMotionType)c.pick(4); q.tr.num_max_iterations = c.range(2, 6); q.tr.toc_err = 0.05; bool ca = !oct && !mesh && c.flip() && A.s.r.k != ref::ELLIPSOID && B.s.r.k != ref::ELLIPSOID; bool cam = mesh && !oct && c.chance(1, 4) && (bv == B_RSS || bv == B_OBBRSS) && (A.k == A_MESH || A.s.r.k != ref::ELLIPSOID) && (B.k == A_MESH || B.s.r.k != ref::ELLIPSOID); bool poly = meshes && c.chance(1, 4);
      q.tr.ccd_solver_type = ca || cam ? fcl::CCDC_CONSERVATIVE_ADVANCEMENT : poly ? fcl::CCDC_POLYNOMIAL_SOLVER : fcl::CCDC_NAIVE; if (q.tr.ccd_solver_type == fcl::CCDC_POLYNOMIAL_SOLVER) q.tr.ccd_motion_type = fcl::CCDM_TRANS; }
    c.note([&](std::ostream& o) { o << "  query " << i << ": " << kindOf(q.kind) << " " << q.a << "-" << q.b << " (" << A.name << "-" << B.name << ") " << solverName(k); });
    s.q.push_back(q);
  }
  return s;
}
std::string keyOf(const Scene& s, const Query& q) { return std::string(kindOf(q.kind)) + ":" + s.g[q.a].name + "-" + s.g[q.b].name; }
Answer alone(const Scene& s, const Query& q) { auto A = fresh(s.g[q.a]); auto B = q.a == q.b ? A : fresh(s.g[q.b]); return ask(q, A.get(), B.get()); }
}  // namespace

PBT(C29, "history", 4000, 60000) {
  Scene s = scene(ctx, ctx.range(3, 12)); std::vector<Answer> want; for (auto& q : s.q) want.push_back(alone(s, q));
  int hits = 0; for (size_t i = 0; i < want.size(); i++) hits += want[i].v.size() > 2; ctx.nontrivial(hits > 0); ctx.label(std::to_string(s.q.size() / 4 * 4) + "+ queries");
  std::vector<int> order; for (size_t i = 0; i < s.q.size(); i++) order.push_back((int)i); for (int m = ctx.range(1, 8); m > 0; m--) order.push_back(ctx.pick((int)s.q.size()));
  for (size_t n = 0; n < order.size(); n++) { int i = order[n]; auto& q = s.q[i]; ctx.label(kindOf(q.kind)); Answer a = ask(q, s.g[q.a].g.get(), s.g[q.b].g.get()); ctx.check(same(a, want[i]), keyOf(s, q) + ":history", [&](std::ostream& o) { o << "query " << i << " (number " << n << " in this history) answers "; show(o, a); o << ", asked first with new copies of the geometries: "; show(o, want[i]); }); }
}
PBT(C29, "threads", 500, 8000) {
  Scene s = scene(ctx, ctx.range(2, 8)); std::vector<Answer> want; for (auto& q : s.q) want.push_back(alone(s, q)); int T = ctx.range(2, 8), rounds = ctx.range(1, 6);
  int hits = 0; for (size_t i = 0; i < want.size(); i++) hits += want[i].v.size() > 2; ctx.nontrivial(hits > 0); ctx.label(std::to_string(T) + " threads"); for (auto& q : s.q) ctx.label(kindOf(q.kind));
  std::vector<std::thread> th; std::atomic<int> ready(0); std::vector<int> badQ(T, -1); std::vector<Answer> badA(T);
  for (int t = 0; t < T; t++) th.emplace_back([&, t] { ready++; while (ready < T) std::this_thread::yield(); for (int r = 0; r < rounds; r++) for (size_t n = 0; n < s.q.size() && badQ[t] < 0; n++) { size_t i = t % 2 ? n : (n + t) % s.q.size(); auto& q = s.q[i]; Answer a = ask(q, s.g[q.a].g.get(), s.g[q.b].g.get()); if (!same(a, want[i])) { badQ[t] = (int)i; badA[t] = a; } } });
  for (auto& x : th) x.join();
  for (int t = 0; t < T; t++) ctx.check(badQ[t] < 0, keyOf(s, s.q[std::max(0, badQ[t])]) + ":threads", [&](std::ostream& o) { o << "query " << badQ[t] << " in thread " << t << " of " << T << " answers "; show(o, badA[t]); o << ", alone "; show(o, want[badQ[t]]); });
}
static const bool quiet = [] { std::cerr.setstate(std::ios::failbit); return true; }();
PBT_MAIN
