// C31: degenerate geometry — flat, empty, coincident, tiny, huge and far-away inputs — is answered, without crashes, endless loops or invalid memory accesses, with well-formed values.
// PBT-NEEDS: ccd
#include "gen_any.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/continuous_collision_object.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include <dlfcn.h>
#include <ccd/ccd.h>
using namespace gen;

// libccd's portal refinement has no iteration limit and, on degenerate input, can go on for ever.  Calls of it are counted here, so that
// such a case ends with an exception of its own instead of a time-out that could also be fcl's fault.
namespace {
struct MprObject { void* obj; ccd_support_fn support; ccd_center_fn center; long calls; };
struct MprEndless : std::runtime_error { MprEndless() : std::runtime_error("libccd-mpr-endless: ccdMPRPenetration asked for 200000 support vertices") {} };
void mprSupport(const void* o, const ccd_vec3_t* d, ccd_vec3_t* v) { auto m = (MprObject*)o; if (++m->calls > 200000) throw MprEndless(); m->support(m->obj, d, v); }
void mprCenter(const void* o, ccd_vec3_t* c) { auto m = (MprObject*)o; m->center(m->obj, c); }
}
extern "C" int ccdMPRPenetration(const void* a, const void* b, const ccd_t* ccd, ccd_real_t* depth, ccd_vec3_t* dir, ccd_vec3_t* pos) {
  typedef int (*F)(const void*, const void*, const ccd_t*, ccd_real_t*, ccd_vec3_t*, ccd_vec3_t*); static F f = (F)dlsym(RTLD_NEXT, "ccdMPRPenetration");
  MprObject x{(void*)a, ccd->support1, ccd->center1, 0}, y{(void*)b, ccd->support2, ccd->center2, 0}; ccd_t c = *ccd; c.support1 = c.support2 = mprSupport; c.center1 = c.center2 = mprCenter; return f(&x, &y, &c, depth, dir, pos);
}
extern "C" int ccdMPRIntersect(const void* a, const void* b, const ccd_t* ccd) {
  typedef int (*F)(const void*, const void*, const ccd_t*); static F f = (F)dlsym(RTLD_NEXT, "ccdMPRIntersect");
  MprObject x{(void*)a, ccd->support1, ccd->center1, 0}, y{(void*)b, ccd->support2, ccd->center2, 0}; ccd_t c = *ccd; c.support1 = c.support2 = mprSupport; c.center1 = c.center2 = mprCenter; return f(&x, &y, &c);
}

namespace {
bool fin(const V3& v) { return v.allFinite(); }
// sizes from nothing to huge; a common magnitude, or each its own
struct Ladder { int mode; double base; };
Ladder ladder(Ctx& c) { static const double B[] = {1, 1e-3, 1e3, 1e-6, 1e6}; Ladder l; l.mode = c.weighted({3, 3, 1}); l.base = B[c.weighted({4, 2, 2, 1, 1})]; return l; }
double len(Ctx& c, const Ladder& l, bool zero = true) {
  if (l.mode == 0) return l.base * c.pos_real(0.2, 2);
  static const double F[] = {1, 1, 1e-3, 1e-6, 1e-9, 1e-12}; int k = zero ? c.pick(7) : c.pick(5); if (k == 6) return 0;
  if (l.mode == 1) return l.base * F[k] * (c.flip() ? 1 : c.uni(0.5, 2));
  static const double A[] = {1, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 0}; return A[zero ? c.pick(7) : c.pick(6)];
}
double coord(Ctx& c, double b) { static const double F[] = {0, 1, -1, 0.5, 1e-9, -1e-6, 1e-3, 2}; return c.chance(1, 3) ? b * c.uni(-1, 1) : b * F[c.pick(8)]; }
V3 pt(Ctx& c, double b) { return V3(coord(c, b), coord(c, b), coord(c, b)); }

struct Any2 { std::shared_ptr<fcl::CollisionGeometryd> g; std::string desc; int k; double reach = 0; V3 in = V3::Zero(); bool bounded = true, exact = true, empty = false; bool isMesh = false, isOct = false; int bv = 0; Mesh M; double least = 0; std::vector<ref::Shape> parts; fcl::NODE_TYPE type() const { return g->getNodeType(); } };
// in: a point of the geometry; reach: no point is farther from the origin
Any2 degenerateShape(Ctx& c, const Ladder& l, bool unbounded) {
  Any2 a; Hull H; std::ostringstream o; o.precision(17); a.k = c.pick(unbounded ? 10 : 8); double x = len(c, l), y = len(c, l), z = len(c, l); a.least = std::min(x, std::min(y, z)); if (a.k == 7) a.k = unbounded ? 8 : 6;
  switch (a.k) {
    case 0: a.g = std::make_shared<fcl::Sphered>(x); a.reach = a.least = x; o << "sphere(" << x << ")"; break;
    case 1: a.g = std::make_shared<fcl::Boxd>(x, y, z); a.reach = V3(x, y, z).norm() / 2; o << "box(" << x << "," << y << "," << z << ")"; break;
    case 2: a.g = std::make_shared<fcl::Capsuled>(x, y); a.reach = x + y / 2; a.least = x; o << "capsule(" << x << "," << y << ")"; break;
    case 3: a.g = std::make_shared<fcl::Cylinderd>(x, y); a.reach = std::hypot(x, y / 2); a.least = std::min(x, y); o << "cylinder(" << x << "," << y << ")"; break;
    case 4: a.g = std::make_shared<fcl::Coned>(x, y); a.reach = std::hypot(x, y / 2); a.least = std::min(x, y); o << "cone(" << x << "," << y << ")"; break;
    case 5: a.g = std::make_shared<fcl::Ellipsoidd>(x, y, z); a.reach = std::max(x, std::max(y, z)); o << "ellipsoid(" << x << "," << y << "," << z << ")"; break;
    case 6: {   // hull of a box, possibly flat; or a tetrahedron of any four points
      if (c.flip()) { for (int i = 0; i < 8; i++) H.v.push_back(V3(i & 1 ? x : -x, i & 2 ? y : -y, i & 4 ? z : -z)); H.f = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}}; }
      else { for (int i = 0; i < 4; i++) H.v.push_back(pt(c, l.base)); a.least = 0; if ((H.v[1] - H.v[0]).cross(H.v[2] - H.v[0]).dot(H.v[3] - H.v[0]) > 0) std::swap(H.v[2], H.v[3]); H.f = {{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}; }
      a.in = H.v[0]; for (auto& v : H.v) a.reach = std::max(a.reach, v.norm()); a.g = makeConvex(H); o << "convex("; for (auto& v : H.v) show(o, v); o << ")"; break; }
    default: { V3 n = dir(c); double d = coord(c, l.base); if (a.k == 8) a.g = std::make_shared<fcl::Halfspaced>(n, d); else a.g = std::make_shared<fcl::Planed>(n, d); a.bounded = false; a.in = n * d; o << (a.k == 8 ? "halfspace(" : "plane("); show(o, n); o << d << ")"; }
  }
  { ref::Shape r; r.R.setIdentity(); r.t.setZero(); static const Kind K[] = {ref::SPHERE, ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL}; if (a.k < 7) { r.k = K[a.k]; if (a.k == 0) r.rad = x; else if (a.k == 1) r.h = V3(x, y, z) / 2; else if (a.k == 2) { r.rad = x; r.lz = y; } else if (a.k < 5) { r.r = x; r.lz = y; } else if (a.k == 5) r.h = V3(x, y, z); else { r.v = H.v; for (auto& f : H.f) for (size_t i = 1; i + 1 < f.size(); i++) r.f.push_back({{f[0], f[i], f[i + 1]}}); } a.parts.push_back(r); } }
  a.g->computeLocalAABB(); a.desc = o.str(); return a;
}
Any2 degenerateMesh(Ctx& c, const Ladder& l, int bv) {
  Any2 a; a.isMesh = true; a.bv = bv; std::ostringstream o; o.precision(17); int n = c.range(1, 10); bool share = c.flip(); Mesh& M = a.M; M.kind = "degenerate";
  if (share) { int k = c.range(1, 6); for (int i = 0; i < k; i++) M.v.push_back(pt(c, l.base)); for (int i = 0; i < n; i++) M.t.push_back(fcl::Triangle(c.pick(k), c.pick(k), c.pick(k))); }
  else for (int i = 0; i < n; i++) { V3 p = pt(c, l.base), q = c.chance(1, 5) ? p : pt(c, l.base), r = c.chance(1, 5) ? q : c.chance(1, 5) ? V3((p + q) / 2) : pt(c, l.base); int k = (int)M.v.size(); M.v.push_back(p); M.v.push_back(q); M.v.push_back(r); M.t.push_back(fcl::Triangle(k, k + 1, k + 2)); }
  if (c.chance(1, 8)) { V3 s = vec(c, 1e3 * l.base); for (auto& v : M.v) v += s; }
  for (auto& v : M.v) a.reach = std::max(a.reach, v.norm()); a.in = M.v[M.t[0][0]];
  for (auto& t : M.t) { ref::Shape r; r.k = ref::TRI; r.R.setIdentity(); r.t.setZero(); for (int i = 0; i < 3; i++) r.v.push_back(M.v[t[i]]); r.f = {{{0, 1, 2}}}; a.parts.push_back(r); }
  int sp = c.pick(3), how = c.pick(7); if (share && how && how < 3) how = 0; a.g = buildAny(bv, M, sp, how); o << bvName(bv) << " splitter " << sp << " built " << how << " "; showMesh(o, M); a.desc = o.str(); return a;
}
Any2 degenerateOctree(Ctx& c, const Ladder& l) {
  Any2 a; a.isOct = true; std::ostringstream o; o.precision(17); double res = c.flip() ? 0.1 : l.base * c.pos_real(0.01, 1); auto t = std::make_shared<octomap::OcTree>(res); int n = c.pick(5); o << "octree(res " << res; a.empty = true; double lim = res * 30000;
  for (int i = 0; i < n; i++) { V3 p = pt(c, std::min(l.base, lim / 3)); bool f = c.chance(3, 4); t->updateNode(octomap::point3d((float)p[0], (float)p[1], (float)p[2]), f); o << (f ? "; +" : "; f"); show(o, p); }
  if (c.chance(1, 4)) { t->prune(); o << "; pruned"; }
  a.g = std::make_shared<fcl::OcTreed>(std::shared_ptr<const octomap::OcTree>(t)); auto* g = static_cast<fcl::OcTreed*>(a.g.get());
  for (auto it = t->begin_leafs(), e = t->end_leafs(); it != e; ++it) if (g->isNodeOccupied(&*it)) { a.empty = false; { ref::Shape r; r.k = ref::BOX; r.h = V3::Constant(it.getSize() / 2); r.R.setIdentity(); r.t = V3(it.getX(), it.getY(), it.getZ()); a.parts.push_back(r); } a.in = V3(it.getX(), it.getY(), it.getZ()); a.reach = std::max(a.reach, a.in.norm() + it.getSize()); }
  a.g->computeLocalAABB(); o << ")"; a.desc = o.str(); return a;
}
Any2 degenerate(Ctx& c, const Ladder& l, int kind, int bv, bool unbounded) { return kind == 0 ? degenerateShape(c, l, unbounded) : kind == 1 ? degenerateMesh(c, l, bv) : degenerateOctree(c, l); }
struct Scene { Any2 A, B; T3 a, b; double eps; V3 pa, pb; double lo, hi; double cross = -1; std::string name; };
const char* what(const Any2& a) { static const char* n[] = {"sphere", "box", "capsule", "cylinder", "cone", "ellipsoid", "convex", "triangle", "halfspace", "plane"}; return a.isMesh ? "mesh" : a.isOct ? "octree" : n[a.k]; }
Scene scene(Ctx& c, bool meshes, bool shapes, bool octs, unsigned bvs, bool unbounded) {
  Scene s; Ladder l = ladder(c), m = c.chance(2, 3) ? l : ladder(c); int bv; { std::vector<int> q; for (int i = 0; i < 8; i++) if (bvs >> i & 1) q.push_back(i); bv = q[c.pick((int)q.size())]; }
  int w[3] = {shapes ? 4 : 0, meshes ? 4 : 0, octs ? 2 : 0}; auto kind = [&]() { int q = c.pick(w[0] + w[1] + w[2]); return q < w[0] ? 0 : q < w[0] + w[1] ? 1 : 2; };
  s.A = degenerate(c, l, kind(), bv, unbounded); s.B = c.chance(1, 8) ? s.A : degenerate(c, m, kind(), bv, unbounded);
  double r = std::max(s.A.bounded ? s.A.reach : l.base, s.B.bounded ? s.B.reach : m.base);
  s.a.setIdentity(); s.b.setIdentity(); if (!c.chance(1, 3)) s.a.linear() = rot(c); s.b.linear() = c.chance(1, 3) ? s.a.linear() : rot(c); if (c.chance(1, 3)) s.a.translation() = vec(c, c.chance(1, 5) ? 1e5 * r : r);
  int how = c.weighted({2, 2, 2, 2, 1}); V3 o = s.a.translation();
  if (how == 0) s.b.translation() = o; else if (how == 1) s.b.translation() = o + pt(c, r); else if (how == 2) s.b.translation() = s.a * s.A.in - s.b.linear() * s.B.in; else if (how == 3) { V3 u = c.flip() ? dir(c) : V3(V3::Unit(c.pick(3))); s.b.translation() = o + u * (s.A.reach + s.B.reach) * (c.flip() ? 1 : c.uni(0.5, 2)); } else s.b.translation() = o + vec(c, 1e4 * r);
  // what is known of the distance: from the parts, and the distance from a point of each and the balls around them
  s.pa = s.a * s.A.in; s.pb = s.b * s.B.in; s.hi = (s.pa - s.pb).norm(); s.lo = s.A.bounded && s.B.bounded ? (s.a.translation() - s.b.translation()).norm() - s.A.reach - s.B.reach : -ref::INF;
  if (!s.A.parts.empty() && !s.B.parts.empty()) { double lo = ref::INF, hi = ref::INF; for (auto x0 : s.A.parts) for (auto y : s.B.parts) { auto x = x0; x.t = s.a * x.t; x.R = s.a.linear(); y.t = s.b * y.t; y.R = s.b.linear(); double q; if (x.k == ref::TRI && y.k == ref::TRI) { V3 u[3], v[3]; for (int i = 0; i < 3; i++) { u[i] = s.a * x.v[i]; v[i] = s.b * y.v[i]; } q = ref::triTri(u, v); lo = std::min(lo, q); hi = std::min(hi, q); s.cross = std::max(s.cross, ref::triCross(u, v)); } else { auto b = ref::sd(x, y, 1e-7 * r); lo = std::min(lo, b.lo); hi = std::min(hi, b.hi); } }
    if (lo <= hi && hi <= s.hi + 1e-6 * r && lo >= s.lo - 1e-6 * r) { s.lo = lo; s.hi = hi; } else c.label("reference gave up"); }
  s.eps = 1e-3 * r + 2e-5 + 3e-6 * std::max(0.0, s.hi) + 1e-9 * (s.a.translation().norm() + s.b.translation().norm()); s.name = std::string(what(s.A)) + "-" + what(s.B);
  c.note([=](std::ostream& q) { q << s.A.desc << "\n  at "; show(q, s.a); q << "\n " << s.B.desc << "\n  at "; show(q, s.b); }); return s;
}
}  // namespace

PBT(C31, "collide", 9000, 200000) {
  Scene s = scene(ctx, true, true, true, 255, true); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; static const size_t N[] = {1, 2, 1000000}; fcl::CollisionRequestd rq(N[ctx.pick(3)], ctx.flip(), 5, s.A.bounded && s.B.bounded && ctx.chance(1, 3), ctx.flip()); rq.gjk_solver_type = k; rq.enable_cached_gjk_guess = ctx.chance(1, 6);
  std::string key = "collide:" + s.name + "/" + solverName(k); fcl::CollisionResultd r; size_t n = fcl::collide(s.A.g.get(), s.a, s.B.g.get(), s.b, rq, r); ctx.nontrivial(); ctx.label(s.lo > s.eps ? "certainly apart" : r.isCollision() ? "contact" : "no contact");
  auto D = [&](std::ostream& o) { o << "returned " << n << ", " << r.numContacts() << " contacts, " << r.numCostSources() << " cost sources"; for (size_t i = 0; i < r.numContacts() && i < 3; i++) { auto& q = r.getContact(i); o << " normal "; show(o, q.normal); o << " at "; show(o, q.pos); o << " depth " << q.penetration_depth; } };
  ctx.check(n == r.numContacts() && n <= rq.num_max_contacts, key + ":count", D); ctx.check(!(s.lo > s.eps && r.isCollision()), key + ":phantom", D);
  if (s.A.empty || s.B.empty) ctx.check(!r.isCollision(), key + ":phantom", D);
  bool sure = std::max(-s.hi, s.cross) > s.eps && s.A.g->isOccupied() && s.B.g->isOccupied(); if (sure) { ctx.label("certainly in contact"); ctx.check(r.isCollision(), key + ":missed", [&](std::ostream& o) { D(o); o << "; overlap by " << std::max(-s.hi, s.cross); }); }
  for (size_t i = 0; i < r.numContacts(); i++) { auto& q = r.getContact(i); ctx.check((q.o1 == s.A.g.get() && q.o2 == s.B.g.get()) || (q.o1 == s.B.g.get() && q.o2 == s.A.g.get()), key + ":objects", D); if (rq.enable_contact) ctx.check(fin(q.pos) && fin(q.normal) && std::isfinite(q.penetration_depth), key + ":contact-not-finite", D); if (rq.enable_contact) { double z = q.normal.norm(); ctx.check(z == 0 || std::abs(z - 1) < 1e-4, key + ":normal-not-unit", D); } }
  std::vector<fcl::CostSourced> cs; r.getCostSources(cs); ctx.check(cs.size() <= rq.num_max_cost_sources, key + ":cost-count", D); for (auto& q : cs) ctx.check(!std::isnan(q.total_cost) && q.cost_density == q.cost_density, key + ":cost-not-a-number", D);
}
// The EPA of the signed distance gives up with an exception when rounding folds its polytope (a known finding: see known_findings.txt); rate limited by the driver.
static double distanceOrEpa(const Scene& s, const fcl::DistanceRequestd& rq, fcl::DistanceResultd& r) {
  try { return fcl::distance(s.A.g.get(), s.a, s.B.g.get(), s.b, rq, r); }
  catch (const std::exception& e) {
    const std::string w = e.what();
    if (rq.enable_signed_distance && w.find("Error with configuration") != std::string::npos)
      throw pbt::Failure{pbt::RARE3, "uncaught exception: " + w};
    throw;
  }
}

PBT(C31, "distance", 9000, 200000) {
  unsigned bvs = 1u << B_RSS | 1u << B_KIOS | 1u << B_OBBRSS; Scene s = scene(ctx, true, true, true, bvs, false); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; fcl::DistanceRequestd rq(ctx.flip(), ctx.chance(1, 3)); rq.gjk_solver_type = k;
  std::string key = "distance:" + s.name + "/" + solverName(k) + (rq.enable_signed_distance ? "/signed" : ""); fcl::DistanceResultd r; double d = distanceOrEpa(s, rq, r); ctx.nontrivial(); bool none = d > 1e300; ctx.label(none ? "nothing to measure" : d <= 0 ? "contact" : "apart");
  auto D = [&](std::ostream& o) { o << "distance " << d << " (stored " << r.min_distance << "), certainly between " << s.lo << " and " << s.hi << "; nearest points "; show(o, r.nearest_points[0]); show(o, r.nearest_points[1]); };
  ctx.check(!std::isnan(d), key + ":not-a-number", D); ctx.check(d == r.min_distance || (none && r.min_distance > 1e300), key + ":return-value", D);
  if (s.A.empty || s.B.empty) { ctx.check(none, key + ":distance-to-nothing", D); return; }
  ctx.check(d <= std::max(s.hi, 0.0) + s.eps, key + ":too-large", D); ctx.check(d >= s.lo - s.eps || (d < 0 && s.lo < s.eps), key + ":too-small", D);
  if (rq.enable_nearest_points && d > 0) ctx.check(fin(r.nearest_points[0]) && fin(r.nearest_points[1]), key + ":points-not-finite", D);
}
PBT(C31, "continuous", 500, 20000) {
  Ladder l = ladder(ctx), m = ctx.chance(2, 3) ? l : ladder(ctx); int bv = ctx.pick(8), ka = ctx.pick(2), kb = ctx.pick(2); auto solver = (fcl::CCDSolverType)ctx.pick(4); auto type = (fcl::CCDMotionType)ctx.pick(4); if (solver == fcl::CCDC_POLYNOMIAL_SOLVER) { ka = kb = 1; type = fcl::CCDM_TRANS; }
  Any2 A = degenerate(ctx, l, ka, bv, false); if (solver == fcl::CCDC_CONSERVATIVE_ADVANCEMENT) while (!A.isMesh && A.k == 5) A = degenerate(ctx, l, ka, bv, false); Any2 B = degenerate(ctx, m, kb, bv, false); if (solver == fcl::CCDC_CONSERVATIVE_ADVANCEMENT) while (!B.isMesh && B.k == 5) B = degenerate(ctx, m, kb, bv, false);
  double r = std::max(A.reach, B.reach); auto P = [&]() { T3 t = T3::Identity(); if (ctx.flip()) t.linear() = rot(ctx); t.translation() = ctx.chance(1, 4) ? V3(V3::Zero()) : pt(ctx, ctx.chance(1, 4) ? 100 * r : 2 * r); return t; };
  T3 a0 = P(), a1 = ctx.chance(1, 4) ? a0 : P(), b0 = P(), b1 = ctx.chance(1, 4) ? b0 : P(); if (type == fcl::CCDM_TRANS) { a1.linear() = a0.linear(); b1.linear() = b0.linear(); }
  ctx.note([&](std::ostream& q) { q << "solver " << solver << " motion " << type << " " << A.desc << "\n  from "; show(q, a0); q << " to "; show(q, a1); q << "\n " << B.desc << "\n  from "; show(q, b0); q << " to "; show(q, b1); });
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = type; rq.ccd_solver_type = solver; rq.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; if (ctx.chance(1, 4)) { rq.num_max_iterations = ctx.pick(3); rq.toc_err = ctx.pick(2); }
  fcl::ContinuousCollisionResult<double> res; double t = fcl::continuousCollide<double>(A.g.get(), a0, a1, B.g.get(), b0, b1, rq, res); ctx.nontrivial(); ctx.label(res.is_collide ? "contact" : "no contact"); std::string key = "continuous:" + std::to_string(solver);
  auto D = [&](std::ostream& o) { o << "returned " << t << ", contact " << res.is_collide << " at " << res.time_of_contact; }; ctx.check(solver == fcl::CCDC_RAY_SHOOTING || (t == res.time_of_contact && t >= 0 && t <= 1), key + ":time-range", D);
  if (res.is_collide) ctx.check(res.contact_tf1.matrix().allFinite() && res.contact_tf2.matrix().allFinite(), key + ":pose-not-finite", D);
}
static const bool quiet = [] { std::cerr.setstate(std::ios::failbit); return true; }();
PBT_MAIN
