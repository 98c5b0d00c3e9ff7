// C16: continuous collision detection agrees with the distance between the two objects along their motions.
// PBT-NEEDS: ccd
#include "gen_mesh.h"
#include "fcl/narrowphase/continuous_collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/continuous_collision_object.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
using namespace gen;

namespace {
typedef std::shared_ptr<fcl::MotionBase<double>> MP;
struct Path { T3 a, b; fcl::CCDMotionType type; MP m; MP fresh() const { return fcl::getMotionBase<double>(a, b, type); } };
T3 at(const MP& m, double t) { T3 x; m->integrate(t); m->getCurrentTransform(x); return x; }
const char* motionName(int t) { static const char* n[] = {"translation", "interp", "screw", "spline"}; return n[t]; }

// a body: convex shape or mesh
struct Body { bool isMesh = false; Shape s; Mesh M; int bv = 0; std::shared_ptr<fcl::CollisionGeometryd> g; double size; std::string desc, name; };
Body shapeBody(Ctx& c, bool ellipsoids) {
  Body b; static const Kind ks[] = {ref::BOX, ref::SPHERE, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::HULL, ref::ELLIPSOID};
  b.s = shape(c, ks[c.pick(ellipsoids ? 7 : 6)], 0.2, 2); b.g = b.s.g; b.size = 0; for (int i = 0; i < 6; i++) { V3 e = V3::Unit(i / 2) * (i % 2 ? -1 : 1); b.size = std::max(b.size, std::abs(b.s.r.h_(e))); } b.size *= 1.75; b.desc = b.s.desc; b.name = kindName(b.s.r.k); return b;
}
Body meshBody(Ctx& c, int bv) {
  Body b; b.isMesh = true; b.bv = bv; b.M = mesh(c, 24, 0.7); b.g = buildAny(bv, b.M); b.size = b.M.size(); std::ostringstream o; o.precision(17); o << bvName(bv) << " mesh "; showMesh(o, b.M); b.desc = o.str(); b.name = bvName(bv); return b;
}
// bounds of the (signed) distance of two placed bodies; for meshes touching surfaces have distance 0 and 'deep' says that triangles cross by more than eps
struct D { double lo, hi; };
struct Pair {
  Body A, B; Path p, q; MP mp, mq; double L = 0;
  D dist(double t, double eps) {
    T3 x = at(mp, t), y = at(mq, t);
    if (!A.isMesh && !B.isMesh) { ref::Shape a = A.s.r, b = B.s.r; place(a, x); place(b, y); auto r = ref::sd(a, b, 1e-7); return {r.lo, r.hi}; }
    D r; r.lo = ref::INF; r.hi = ref::INF;
    auto one = [&](const ref::Shape& a, const ref::Shape& b) { auto z = ref::sd(a, b, 1e-7, true); r.lo = std::min(r.lo, z.lo); r.hi = std::min(r.hi, z.hi); };
    auto tri = [&](const std::array<V3, 3>& v) { ref::Shape s; s.k = ref::TRI; s.v.assign(v.begin(), v.end()); s.R.setIdentity(); s.t.setZero(); return s; };
    if (A.isMesh && B.isMesh) {
      TriWorld a = world(A.M, x), b = world(B.M, y);
      double d = meshDist(a, b); r.lo = r.hi = d; if (d > eps) return r;
      // surely crossing: some pair of triangles cross robustly
      for (auto& u : a.t) for (auto& v : b.t) { double z = ref::triCross(u.data(), v.data()); if (z > 0) r.hi = std::min(r.hi, -z); }
      return r;
    }
    const Body &m = A.isMesh ? A : B, &s = A.isMesh ? B : A; TriWorld w = world(m.M, A.isMesh ? x : y); ref::Shape k = s.s.r; place(k, A.isMesh ? y : x);
    for (auto& u : w.t) one(tri(u), k);
    return r;
  }
  // bound of the closing speed, from finite differences of the two poses
  void speed() {
    L = 0; T3 x0 = at(mp, 0), y0 = at(mq, 0); const int n = 64;
    for (int i = 1; i <= n; i++) { double t = i / (double)n; T3 x = at(mp, t), y = at(mq, t); auto v = [&](const T3& u, const T3& w, double s) { return ((u.translation() - w.translation()).norm() + (u.linear() - w.linear()).norm() / std::sqrt(2.0) * s) * n; }; L = std::max(L, v(x, x0, A.size) + v(y, y0, B.size)); x0 = x; y0 = y; }
    L = L * 1.1 + 1e-9;
  }
};
Path path(Ctx& c, fcl::CCDMotionType type, const V3& centre, double u, const V3& vel) {
  Path p; p.type = type; p.a = T3::Identity(); p.a.linear() = rot(c); p.b = p.a; if (!c.chance(1, 4)) p.b.linear() = rot(c);
  p.a.translation() = centre - vel * u; p.b.translation() = centre + vel * (1 - u); return p;
}
Pair pairOf(Ctx& c, const Body& A, const Body& B, fcl::CCDMotionType type) {
  Pair P; P.A = A; P.B = B; double s = A.size + B.size; double u = c.uni(-0.2, 1.2); V3 v1 = c.chance(1, 6) ? V3(V3::Zero()) : vec(c, s * c.pos_real(0.3, 4)), v2 = c.chance(1, 3) ? V3(V3::Zero()) : vec(c, s * c.pos_real(0.3, 4));
  V3 o = vec(c, 3); P.p = path(c, type, o, u, v1); V3 off = dir(c) * (s * c.uni(0, 0.8)); P.q = path(c, type, o + off, u, v2);
  // turning by nearly half a turn is numerically undetermined for these motions (C17)
  for (auto* w : {&P.p, &P.q}) { double tr = M3(w->b.linear() * w->a.linear().transpose()).trace(); if (type != fcl::CCDM_TRANS && tr < -0.99) c.discard("half turn"); }
  P.mp = P.p.fresh(); P.mq = P.q.fresh(); P.speed();
  c.note([=](std::ostream& o2) { o2 << motionName(type) << " " << A.desc << " from "; show(o2, P.p.a); o2 << " to "; show(o2, P.p.b); o2 << " / " << B.desc << " from "; show(o2, P.q.a); o2 << " to "; show(o2, P.q.b); });
  return P;
}
struct Answer { double ret; fcl::ContinuousCollisionResult<double> r; };
// the five ways to ask: poses, motions, objects and an end pose, objects with motions, and the broad-phase callback with these
Answer ask(Ctx& c, const Pair& P, const fcl::ContinuousCollisionRequest<double>& rq, int way) {
  Answer a; T3 e1 = P.p.b, e2 = P.q.b;
  if (way == 0) a.ret = fcl::continuousCollide<double>(P.A.g.get(), P.p.a, e1, P.B.g.get(), P.q.a, e2, rq, a.r);
  else if (way == 1) { MP m = P.p.fresh(), n = P.q.fresh(); if (c.flip()) { m->integrate(c.uni(0, 1)); n->integrate(c.uni(0, 1)); } a.ret = fcl::continuousCollide<double>(P.A.g.get(), m.get(), P.B.g.get(), n.get(), rq, a.r);
    Answer b; b.ret = fcl::continuousCollide<double>(P.A.g.get(), m.get(), P.B.g.get(), n.get(), rq, b.r); c.check(a.ret == b.ret && a.r.is_collide == b.r.is_collide, "not-repeatable", [&](std::ostream& o) { o << "the same query answers " << a.ret << " and then " << b.ret; }); }
  else if (way == 2) { fcl::CollisionObjectd x(P.A.g, P.p.a), y(P.B.g, P.q.a); a.ret = fcl::continuousCollide<double>(&x, e1, &y, e2, rq, a.r); }
  else { fcl::ContinuousCollisionObject<double> x(P.A.g, P.p.fresh()), y(P.B.g, P.q.fresh());
    if (way == 3) a.ret = fcl::collide<double>(&x, &y, rq, a.r);
    else { fcl::DefaultContinuousCollisionData<double> cd; cd.request = rq; if ((cd.done = c.chance(1, 4))) { fcl::ContinuousCollisionResult<double> z = cd.result; z.time_of_contact = cd.result.time_of_contact = -7; c.check(fcl::DefaultContinuousCollisionFunction<double>(&x, &y, &cd) && cd.done && cd.result.time_of_contact == -7 && cd.result.is_collide == z.is_collide, "callback:done-ignored"); cd.done = false; cd.result = fcl::ContinuousCollisionResult<double>(); }
      c.check(!fcl::DefaultContinuousCollisionFunction<double>(&x, &y, &cd) && !cd.done, "callback:stops"); a.r = cd.result; a.ret = a.r.time_of_contact; } }
  return a;
}
void common(Ctx& c, Pair& P, const Answer& a, const std::string& key) {
  double toc = a.r.time_of_contact; c.label(a.r.is_collide ? (toc == 0 ? "contact at the start" : "contact on the way") : "no contact");
  c.check(toc >= 0 && toc <= 1, key + ":time-range", [&](std::ostream& o) { o << "time of contact " << toc; });
  c.check(a.ret == toc, key + ":return-value", [&](std::ostream& o) { o << "returned " << a.ret << ", time of contact " << toc; });
  if (!a.r.is_collide) { c.check(toc == 1, key + ":no-contact-time", [&](std::ostream& o) { o << "no contact, but time " << toc; }); return; }
  T3 x = at(P.mp, toc), y = at(P.mq, toc); double g = std::max((x.matrix() - a.r.contact_tf1.matrix()).norm(), (y.matrix() - a.r.contact_tf2.matrix()).norm());
  c.check(g < 1e-6 * (1 + x.translation().norm() + y.translation().norm()), key + ":contact-pose", [&](std::ostream& o) { o << "at " << toc << " the reported contact poses differ from the motion's by " << g; });
}
double libDist(Pair& P, double t, fcl::GJKSolverType k) { fcl::DistanceRequestd rq(false); rq.gjk_solver_type = k; fcl::DistanceResultd r; return fcl::distance<double>(P.A.g.get(), at(P.mp, t), P.B.g.get(), at(P.mq, t), rq, r); }
// conservative judgement: no certain contact before the reported time, and the bodies are within reach at it
void judge(Ctx& c, Pair& P, const Answer& a, const std::string& key, double terr, double slack) {
  common(c, P, a, key); double toc = a.r.time_of_contact, eps = 1e-4 * (P.A.size + P.B.size) + 1e-5, t = 0; double end = a.r.is_collide ? toc - 1e-9 : 0.999;
  double dmin = ref::INF;
  for (int i = 0; i < 250 && t <= end; i++) {
    D d = P.dist(t, eps); dmin = std::min(dmin, d.hi);
    c.check(d.hi > -eps, key + ":missed", [&](std::ostream& o) { o << "at t=" << t << " the bodies overlap by " << -d.hi << ", but " << (a.r.is_collide ? "contact is reported only at " : "no contact is reported: ") << toc; });
    t += std::max(d.lo / P.L, std::max(1.0, end) / 200);
  }
  if (a.r.is_collide) {
    D d = P.dist(toc, eps); double reach = terr * slack * P.L + eps; c.check(d.lo <= reach, key + ":early", [&](std::ostream& o) { o << "contact reported at t=" << toc << " where the bodies are " << d.lo << " apart (closing speed at most " << P.L << ", so " << reach << " is allowed); distance query there: libccd " << libDist(P, toc, fcl::GST_LIBCCD) << ", indep " << libDist(P, toc, fcl::GST_INDEP); });
    if (toc > 0) c.label(d.hi < eps * 10 ? "contact found close" : "contact found");
  } else if (dmin < 0.2) c.label("near miss");
}
}  // namespace

PBT(C16, "advance_shapes", 2500, 40000) {
  auto type = (fcl::CCDMotionType)ctx.pick(4); Body A = shapeBody(ctx, false), B = shapeBody(ctx, false); Pair P = pairOf(ctx, A, B, type);
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = type; rq.ccd_solver_type = fcl::CCDC_CONSERVATIVE_ADVANCEMENT; rq.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP;
  ctx.label(motionName(type)); ctx.nontrivial(); int way = ctx.pick(4);
  Answer a = ask(ctx, P, rq, way); judge(ctx, P, a, std::string("advance-shapes:") + motionName(type), 1e-4, type == fcl::CCDM_SPLINE ? 20 : 4);
}
// sampling: the first of the sampled poses in contact
PBT(C16, "sampled", 2000, 40000) {
  auto type = (fcl::CCDMotionType)ctx.pick(4); bool m1 = ctx.chance(1, 3), m2 = ctx.chance(1, 3); int bv = ctx.pick(8);
  Body A = m1 ? meshBody(ctx, bv) : shapeBody(ctx, true), B = m2 ? meshBody(ctx, bv) : shapeBody(ctx, true); Pair P = pairOf(ctx, A, B, type);
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = type; rq.ccd_solver_type = fcl::CCDC_NAIVE; rq.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP;
  if (ctx.chance(3, 4)) { rq.num_max_iterations = ctx.range(1, 40); static const double te[] = {1e-4, 0.05, 0.21, 0.5, 1, 1e-30, 0}; rq.toc_err = te[ctx.pick(7)]; }
  size_t n = rq.toc_err < 1e-9 ? rq.num_max_iterations : std::min(rq.num_max_iterations, (size_t)std::ceil(1 / rq.toc_err)); ctx.label(motionName(type)); ctx.nontrivial();
  Answer a = ask(ctx, P, rq, ctx.pick(5)); std::string key = "sampled"; common(ctx, P, a, key); double eps = 1e-3 * (A.size + B.size) + 1e-5, toc = a.r.time_of_contact;
  // overlap of a mesh pair is decided by its surface
  bool on = false;
  for (size_t i = 0; i < n; i++) {
    double t = n > 1 ? i / double(n - 1) : 0; bool here = a.r.is_collide && toc == t; on |= here; D d = P.dist(t, eps);
    if (here) { ctx.check(d.lo <= eps, key + ":early", [&](std::ostream& o) { o << "contact reported at sample t=" << t << " where the bodies are " << d.lo << " apart"; }); break; }
    ctx.check(d.hi > -eps, key + ":missed", [&](std::ostream& o) { o << "at sample t=" << t << " the bodies overlap by " << -d.hi << ", reported " << (a.r.is_collide ? "contact" : "no contact") << " at " << toc; });
  }
  if (a.r.is_collide) ctx.check(on, key + ":not-a-sample", [&](std::ostream& o) { o << "contact time " << toc << " is none of the " << n << " samples"; });
}
// two meshes translating (polynomial solver)
PBT(C16, "polynomial", 1500, 30000) {
  int bv = ctx.pick(8); Body A = meshBody(ctx, bv), B = meshBody(ctx, bv); Pair P = pairOf(ctx, A, B, fcl::CCDM_TRANS);
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = fcl::CCDM_TRANS; rq.ccd_solver_type = fcl::CCDC_POLYNOMIAL_SOLVER; ctx.label(bvName(bv)); ctx.nontrivial();
  double eps = 1e-4 * (A.size + B.size) + 1e-5; if (P.dist(0, eps).lo <= eps) { ctx.discard("in contact at the start"); }
  Answer a = ask(ctx, P, rq, ctx.pick(5)); judge(ctx, P, a, "polynomial", 1e-4, 1);
}
PBT(C16, "advance_meshes", 600, 12000) {
  auto type = (fcl::CCDMotionType)ctx.pick(4); int bv = ctx.pick(8); Body A = meshBody(ctx, bv), B = meshBody(ctx, bv); Pair P = pairOf(ctx, A, B, type);
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = type; rq.ccd_solver_type = fcl::CCDC_CONSERVATIVE_ADVANCEMENT; ctx.label(bvName(bv)); ctx.nontrivial();
  Answer a = ask(ctx, P, rq, ctx.pick(5)); judge(ctx, P, a, std::string("advance-meshes:") + bvName(bv), 1e-4, type == fcl::CCDM_SPLINE ? 20 : 4);
}
PBT(C16, "advance_mesh_shape", 600, 12000) {
  auto type = (fcl::CCDMotionType)ctx.pick(4); int bv = ctx.pick(8); Body A = meshBody(ctx, bv), B = shapeBody(ctx, false); bool first = ctx.flip(); Pair P = first ? pairOf(ctx, A, B, type) : pairOf(ctx, B, A, type);
  fcl::ContinuousCollisionRequest<double> rq; rq.ccd_motion_type = type; rq.ccd_solver_type = fcl::CCDC_CONSERVATIVE_ADVANCEMENT; rq.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; ctx.label(bvName(bv)); ctx.nontrivial();
  Answer a = ask(ctx, P, rq, ctx.pick(5)); judge(ctx, P, a, std::string("advance-mesh-shape:") + bvName(bv) + (first ? "" : ":shape-first"), 1e-4, type == fcl::CCDM_SPLINE ? 20 : 4);
}

// some bounding volumes print a warning for every distance they are asked for
static const bool quiet = [] { std::cerr.setstate(std::ios::failbit); return true; }();
PBT_MAIN
