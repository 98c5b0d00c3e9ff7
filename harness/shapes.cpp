// PBT-NEEDS: distance
// C01 collision verdict, C02 separation distance, C03 contacts, C04 signed distance: shape pairs.
#include "gen.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision_object.h"
using namespace gen;
using ref::Bounds;

namespace {
struct Pair { bool inside = false; Shape a, b; T3 ta, tb; fcl::GJKSolverType solver; std::string name; Bounds s; double scale; };
const char* solverName(fcl::GJKSolverType t) { return t == fcl::GST_LIBCCD ? "libccd" : "indep"; }

// maxKind: 7 = bounded only (box..convex), else with half-space and plane
Pair makePair(Ctx& c, bool unbounded, bool wantDepth, double lo = 0.1, double hi = 3, int fixedSolver = -1) {
  Pair p; static const Kind K[] = {ref::SPHERE, ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL, ref::HALFSPACE, ref::PLANE};
  Kind ka = K[c.pick(7)], kb = K[c.pick(unbounded ? 9 : 7)]; if (c.flip()) std::swap(ka, kb);
  p.solver = fixedSolver >= 0 ? (fcl::GJKSolverType)fixedSolver : c.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  double z = 1; if (c.chance(1, 6)) z = c.pick(3) ? 0.02 : 20; lo *= z; hi *= z;      // scenes of centimetres and of tens of metres too
  p.a = shape(c, ka, lo, hi); p.b = shape(c, kb, lo, hi);
  p.ta = pose(c, 3 * z); place(p.a.r, p.ta);
  double sc = std::min(p.a.r.size(), p.b.r.size());
  double g = gap(c, sc);
  p.tb = placeNear(c, p.a.r, p.b.r, g);
  if (c.chance(1, 30)) {     // one inside the other: the same (or nearly the same) origin, often the same pose
    p.inside = true; p.tb.translation() = p.ta.translation(); if (c.flip()) p.tb.linear() = p.ta.linear();
    if (c.flip()) p.tb.translation() += dir(c) * (sc * std::pow(10.0, -c.uni(0.5, 9)));
  }
  place(p.b.r, p.tb);
  p.scale = std::max(p.a.r.size(), p.b.r.size());
  p.name = std::string(kindName(ka)) + "-" + kindName(kb) + "/" + solverName(p.solver);
  p.s = ref::sd(p.a.r, p.b.r, 1e-7 * p.scale, wantDepth);
  c.note([&](std::ostream& o) { o << p.name << "\n A " << p.a.desc << " at "; show(o, p.ta); o << "\n B " << p.b.desc << " at "; show(o, p.tb); o << "\n reference signed distance in [" << p.s.lo << ", " << p.s.hi << "]"; });
  return p;
}
}  // namespace

PBT(C01, "verdict", 60000, 2000000) {
  Pair p = makePair(ctx, true, false);
  double tol = 1e-3 * p.scale;
  bool sep = p.s.lo > tol, ovl = p.s.hi < -tol;
  if (!sep && !ovl) ctx.discard("touching within tolerance");
  fcl::CollisionRequestd rq; rq.gjk_solver_type = p.solver; rq.enable_contact = ctx.flip(); rq.num_max_contacts = ctx.flip() ? 1 : 100;
  fcl::CollisionResultd rs; fcl::collide(p.a.g.get(), p.ta, p.b.g.get(), p.tb, rq, rs);
  ctx.nontrivial(std::abs(p.s.mid()) < p.scale);
  ctx.label(p.name + (sep ? " apart" : " overlap"));
  bool got = rs.isCollision();
  ctx.check(got == ovl, p.name + (ovl ? ":missed" : ":phantom"), [&](std::ostream& o) { o << "collide() says " << (got ? "colliding" : "free") << " (contacts " << (rq.enable_contact ? "on" : "off") << ") but the signed distance is in [" << p.s.lo << ", " << p.s.hi << "]"; });
}

// half-spaces and planes against each other: the verdict is a matter of the two normals and offsets
PBT(C01, "unbounded", 20000, 400000) {
  static const Kind K[] = {ref::HALFSPACE, ref::PLANE}; Kind ka = K[ctx.pick(2)], kb = K[ctx.pick(2)];
  V3 n1 = dir(ctx), n2 = n1, d1, off = V3(ctx.real(-2, 2), ctx.real(-2, 2), ctx.real(-2, 2)); int rel = ctx.pick(3);       // same direction, opposite, other
  if (rel == 1) n2 = -n1; else if (rel == 2) { n2 = dir(ctx); if (n1.cross(n2).norm() < 1e-2) ctx.discard("nearly parallel"); }
  T3 ta = pose(ctx, 3), tb = pose(ctx, 3);
  double o1 = ctx.real(-2, 2), o2;                                   // world: n.x <= o (or = o)
  if (rel == 2) o2 = ctx.real(-2, 2); else { double g = ctx.flip() ? ctx.real(0.01, 2) : -ctx.real(0.01, 2); o2 = rel ? -o1 + g : o1 + g; }
  auto make = [](Kind k, V3 n, double o, const T3& t) { V3 m = t.linear().transpose() * n; double e = o - n.dot(t.translation());
    return k == ref::HALFSPACE ? std::shared_ptr<fcl::CollisionGeometryd>(new fcl::Halfspaced(m, e)) : std::shared_ptr<fcl::CollisionGeometryd>(new fcl::Planed(m, e)); };
  auto a = make(ka, n1, o1, ta), b = make(kb, n2, o2, tb); bool pa = ka == ref::PLANE, pb = kb == ref::PLANE, want;
  double c2 = rel == 1 ? -o2 : o2;                                   // B's boundary along n1
  if (rel == 2) want = true;
  else if (pa && pb) want = false;                                   // parallel planes apart (the offsets differ)
  else if (pa) want = rel == 1 ? o1 >= c2 : o1 <= c2;
  else if (pb) want = c2 <= o1;
  else want = rel == 1 ? c2 <= o1 : true;
  fcl::CollisionRequestd rq; rq.gjk_solver_type = ctx.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD; rq.enable_contact = ctx.flip(); rq.num_max_contacts = 10;
  fcl::CollisionResultd rs; fcl::collide(a.get(), ta, b.get(), tb, rq, rs);
  ctx.nontrivial(); std::string nm = std::string(kindName(ka)) + "-" + kindName(kb); ctx.label(nm + (rel == 0 ? " same" : rel == 1 ? " opposite" : " crossing"));
  auto D = [&](std::ostream& o) { o << nm << "/" << solverName(rq.gjk_solver_type) << " contacts " << rq.enable_contact << " says " << rs.isCollision() << "; world normals "; show(o, n1); o << ", "; show(o, n2); o << " offsets " << o1 << ", " << o2; };
  ctx.note(D);
  ctx.check(rs.isCollision() == want, nm + (want ? ":missed" : ":phantom"), D);
  if (rq.enable_contact) for (size_t i = 0; i < rs.numContacts(); i++) { auto& k = rs.getContact(i);
    ctx.check(k.o1 == a.get() && k.o2 == b.get() && std::abs(k.normal.norm() - 1) < 1e-9 && k.penetration_depth >= 0, nm + ":contact", D);
    double e1 = n1.dot(k.pos) - o1, e2 = n2.dot(k.pos) - o2, t = 1e-6 * (1 + k.pos.norm());
    ctx.check((pa ? std::abs(e1) : e1) < t && (pb ? std::abs(e2) : e2) < t, nm + ":contact-position", D);
    if (rel != 2 && k.penetration_depth < 1e6 && !(pa && pb)) {      // a finite depth separates: moving B along the normal leaves them just touching
      double m = o2 + n2.dot(k.normal) * k.penetration_depth, b1 = rel == 1 ? -m : m;
      ctx.check(std::abs(b1 - o1) < 1e-9 * (1 + std::abs(o1) + std::abs(o2)), nm + ":contact-depth", D); }
    else if (rel == 1) ctx.check(pa && pb, nm + ":infinite-depth", D); }
}

PBT(C02, "distance", 40000, 1000000) {
  Pair p = makePair(ctx, false, false);
  double tol = 1e-3 * p.scale;
  fcl::DistanceRequestd rq; rq.gjk_solver_type = p.solver; rq.enable_nearest_points = ctx.flip();
  fcl::DistanceResultd rs; double d = fcl::distance(p.a.g.get(), p.ta, p.b.g.get(), p.tb, rq, rs);
  bool sep = p.s.lo > tol, ovl = p.s.hi < -tol;
  if (!sep && !ovl) ctx.discard("touching within tolerance");
  ctx.nontrivial(sep || ovl);
  ctx.label(p.name + (sep ? " apart" : " overlap"));
  auto D = [&](std::ostream& o) { o << "distance() returned " << d << ", min_distance " << rs.min_distance << ", reference signed distance in [" << p.s.lo << ", " << p.s.hi << "], points "; show(o, rs.nearest_points[0]); show(o, rs.nearest_points[1]); };
  ctx.check(d == rs.min_distance, p.name + ":return-differs", D);
  if (sep) {
    ctx.check(d >= p.s.lo - tol && d <= p.s.hi + tol, p.name + ":wrong-distance", D);
    if (rq.enable_nearest_points) {
      V3 a = rs.nearest_points[0], b = rs.nearest_points[1];
      ctx.check(p.a.r.outside(a) < tol * 10 && p.b.r.outside(b) < tol * 10, p.name + ":point-not-on-object", D);
      ctx.check(std::abs((a - b).norm() - d) < tol * 10, p.name + ":points-not-at-distance", D);
    }
  } else ctx.check(d <= 1e-12 * p.scale, p.name + ":positive-when-overlapping", D);      // up to rounding
}


// ---- C03: contacts ------------------------------------------------------------
// Pairs with a closed-form routine answer exactly; the others go through EPA (indep)
// or MPR (libccd), which are iterative: EPA may fail at isolated degenerate
// configurations, so a failure counts only if it survives small perturbations of
// the pose; MPR reports a depth along a direction it does not minimise over, so its
// accuracy is judged over a batch of poses of the same pair (not all may be wrong).
namespace {
// a small move and a small turn of B
void perturb(Pair& q, const double* j) {
  V3 u(j[0], j[1], j[2]), c = q.b.r.centre(); T3 m = T3::Identity(); m.linear() = Eigen::AngleAxisd(0.05 * u.norm(), u.normalized()).toRotationMatrix(); m.translation() = c - m.linear() * c + u.cross(V3(0.2, 0.5, -0.3)) * (2e-3 * q.scale);
  q.tb = m * q.tb; place(q.b.r, q.tb);
}
enum Cls { EXACT, EPA, MPR };
Cls classOf(const Pair& p) {
  auto is = [&](Kind x, Kind y) { return (p.a.r.k == x && p.b.r.k == y) || (p.a.r.k == y && p.b.r.k == x); };
  if (!p.a.r.bounded() || !p.b.r.bounded()) return EXACT;
  if (is(ref::BOX, ref::BOX) || is(ref::SPHERE, ref::SPHERE) || is(ref::SPHERE, ref::BOX) || is(ref::SPHERE, ref::CAPSULE) || is(ref::SPHERE, ref::CYLINDER)) return EXACT;
  return p.solver == fcl::GST_INDEP ? EPA : MPR;
}
struct CRes { std::string bad; size_t n = 0; double best = -1, resid = 1e9, off = 0; std::string dump; };
CRes contactCheck(const Pair& p, Cls cls, bool dump) {
  CRes R; double tol = 1e-3 * p.scale; auto set = [&](const char* k) { if (R.bad.empty()) R.bad = k; };
  fcl::CollisionRequestd rq(100, true); rq.gjk_solver_type = p.solver;
  fcl::CollisionResultd rs; fcl::collide(p.a.g.get(), p.ta, p.b.g.get(), p.tb, rq, rs);
  R.n = rs.numContacts(); bool U = !p.a.r.bounded() || !p.b.r.bounded();
  std::ostringstream o; o.precision(17);
  for (size_t i = 0; i < R.n; i++) {
    auto& c = rs.getContact(i);
    if (!(c.o1 == p.a.g.get() && c.o2 == p.b.g.get())) set("objects");
    if (!(c.b1 == fcl::Contactd::NONE && c.b2 == fcl::Contactd::NONE)) set("primitive-ids");
    if (c.normal.isZero(0) && p.a.r.k == ref::SPHERE && p.b.r.k == ref::SPHERE && p.ta.translation() == p.tb.translation()) { R.resid = 0; R.best = std::max(R.best, c.penetration_depth); continue; }   // documented for coinciding centres
    if (!(std::abs(c.normal.norm() - 1) < 1e-6)) set("normal-not-unit");
    if (!(c.penetration_depth >= -tol && c.penetration_depth < 1e6)) set("depth-negative");
    R.best = std::max(R.best, c.penetration_depth);
    double r;    // how far they still overlap after moving object 2 by depth along the normal
    if (!U) r = p.a.r.h_(c.normal) + p.b.r.h_(-c.normal) - c.penetration_depth;
    else { ref::Shape b = p.b.r; b.t += c.normal * c.penetration_depth; r = -ref::sd(p.a.r, b).lo; }
    R.resid = std::min(R.resid, r);
    double ps = std::max(p.a.r.outside(c.pos), p.b.r.outside(c.pos));
    R.off = std::max(R.off, ps);
    if (cls != EPA && !(ps <= c.penetration_depth + 10 * tol)) set("position-off");
    if (cls == EPA && !(ps <= c.penetration_depth / 2 + 10 * tol)) set("position-off");
    if (cls == MPR && !(r >= -10 * tol)) set("depth-beyond-overlap");
    if (dump) { o << "\n  normal "; show(o, c.normal); o << " pos "; show(o, c.pos); o << " depth " << c.penetration_depth << " overlap left after moving " << r << " position outside by " << ps; }
  }
  if (R.n && cls != MPR) {
    bool bb = p.a.r.k == ref::BOX && p.b.r.k == ref::BOX;     // box-box prefers a face contact up to 5% deeper
    double w = cls == EPA ? 40 * tol : 10 * tol;     // EPA stops at 128 faces
    if (!(R.resid <= w * (cls == EPA ? 3 : bb ? 0.1 : 1) + (bb ? -0.08 * p.s.lo : 0))) set("does-not-separate");
    if (!(R.best <= -p.s.lo * (bb ? 1.06 : 1) + w)) set("depth-not-minimal");
  }
  R.dump = o.str(); return R;
}
}  // namespace
PBT(C03, "contacts", 60000, 1500000) {
  Pair p = makePair(ctx, true, true);
  double tol = 1e-3 * p.scale; Cls cls = classOf(p);
  if (!(p.s.hi < -10 * tol)) ctx.discard("not overlapping");
  CRes R = contactCheck(p, cls, true);
  ctx.nontrivial(); ctx.label(p.name);
  if (R.n == 0) ctx.discard("missed (C01 decides)");
  int bad = !R.bad.empty();
  if (bad && (cls != EXACT || (p.a.r.k == ref::BOX && p.b.r.k == ref::BOX))) {
    static const double J[6][3] = {{1, 0.3, -0.2}, {-0.7, 0.9, 0.4}, {0.1, -0.8, 1}, {-1, -0.5, 0.6}, {0.6, 1, 0.9}, {-0.3, 0.2, -1}};
    for (auto& j : J) {
      Pair q = p; perturb(q, j);  q.s = ref::sd(q.a.r, q.b.r, 1e-7 * q.scale, true);
      CRes r = contactCheck(q, cls, false); bad += !r.bad.empty();
    }
    bad = bad >= 7;
  }
  ctx.check(!bad, p.name + ":" + R.bad, [&](std::ostream& o) { o << R.n << " contact(s), reference signed distance in [" << p.s.lo << ", " << p.s.hi << "]" << R.dump; });
}
// MPR: over a batch of poses of one pair, contacts separate the objects within a tenth of their size
PBT(C03, "mpr", 3000, 60000) {
  static const Kind K[] = {ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL, ref::SPHERE};
  Kind ka = K[ctx.pick(6)], kb = K[ctx.pick(7)]; if (ka == ref::BOX && kb == ref::BOX) kb = ref::CONE;
  if (kb == ref::SPHERE && (ka == ref::BOX || ka == ref::CAPSULE || ka == ref::CYLINDER)) kb = ref::ELLIPSOID;
  if (ctx.flip()) std::swap(ka, kb);
  Pair p; p.solver = fcl::GST_LIBCCD; p.a = shape(ctx, ka, 0.5, 2); p.b = shape(ctx, kb, 0.5, 2); p.ta = pose(ctx, 3); place(p.a.r, p.ta);
  p.scale = std::max(p.a.r.size(), p.b.r.size()); p.name = std::string(kindName(ka)) + "-" + kindName(kb) + "/libccd";
  int n = 0, good = 0; std::string dump; double m = std::min(p.a.r.size(), p.b.r.size());
  for (int i = 0; i < 20; i++) {
    p.tb = placeNear(ctx, p.a.r, p.b.r, -m * ctx.uni(0.05, 0.5)); place(p.b.r, p.tb); p.s = ref::sd(p.a.r, p.b.r, 1e-7 * p.scale, true);
    if (!(p.s.hi < -0.01 * p.scale)) continue;
    CRes R = contactCheck(p, MPR, true); if (!R.n) continue;
    n++; if (R.resid < 0.1 * p.scale && R.best < -p.s.lo + 0.2 * p.scale) good++; else { std::ostringstream o; o << "\n B at "; show(o, p.tb); o << R.dump; dump += o.str(); }
  }
  if (n < 10) ctx.discard("few overlapping poses");
  ctx.nontrivial(); ctx.label(p.name);
  if (getenv("RESID")) { ctx.label("good " + std::to_string(good * 10 / n)); return; }
  ctx.check(good > 0, p.name + ":mostly-wrong", [&](std::ostream& o) { o << p.a.desc << " at "; show(o, p.ta); o << "; " << p.b.desc << "; only " << good << " of " << n << " contacts separate the objects, the others:" << dump; });
}

PBT(C04, "signed", 60000, 1500000) {
  Pair p = makePair(ctx, false, true, 0.1, 3);
  double tol = 1e-3 * p.scale; Cls cls = classOf(p);
  fcl::DistanceRequestd rq; rq.gjk_solver_type = p.solver; rq.enable_nearest_points = true; rq.enable_signed_distance = true;
  bool sep = p.s.lo > tol, ovl = p.s.hi < -tol;
  if (!sep && !ovl) ctx.discard("touching within tolerance");
  ctx.nontrivial(ovl); ctx.label(p.name + (sep ? " apart" : " overlap"));
  fcl::DistanceResultd rs; double d = 0;
  auto eval = [&](const Pair& p) -> std::string {
    rs.clear(); d = fcl::distance(p.a.g.get(), p.ta, p.b.g.get(), p.tb, rq, rs);
    if (!(d == rs.min_distance)) return "return-differs";
    V3 a = rs.nearest_points[0], b = rs.nearest_points[1];
    double w = ovl && cls == EPA ? (p.inside ? 120 : 80) * tol : 10 * tol;   // the faces of EPA are limited, which tells where a whole surface is equally near
    if (!(d >= p.s.lo - w && d <= p.s.hi + w) && !(cls == EXACT && p.a.r.k == ref::BOX && p.b.r.k == ref::BOX && d <= p.s.hi + w && d >= p.s.lo * 1.06 - 10 * tol)) return sep ? "wrong-distance" : "wrong-depth";
    if (ovl && !(d <= 1e-12 * p.scale)) return "positive-when-overlapping";
    if (sep || p.solver == fcl::GST_LIBCCD) {
      if (!(std::abs((a - b).norm() - std::abs(d)) < 10 * tol)) return "points-not-at-distance";
      if (!(std::abs(p.a.r.outside(a)) < 10 * tol && std::abs(p.b.r.outside(b)) < 10 * tol)) return "points-not-on-boundary";
    }
    return "";
  };
  std::string k = eval(p); int bad = !k.empty();
  auto D = [&](std::ostream& o) { eval(p); o << "signed distance() returned " << d << ", min_distance " << rs.min_distance << ", reference signed distance in [" << p.s.lo << ", " << p.s.hi << "], points "; show(o, rs.nearest_points[0]); show(o, rs.nearest_points[1]); };
  if (bad && ovl && p.solver == fcl::GST_INDEP && cls != EXACT) {       // see C03 on EPA
    static const double J[4][3] = {{1, 0.3, -0.2}, {-0.7, 0.9, 0.4}, {0.1, -0.8, 1}, {-1, -0.5, 0.6}};
    for (auto& j : J) { Pair q = p; perturb(q, j);  q.s = ref::sd(q.a.r, q.b.r, 1e-7 * q.scale, true); bad += !eval(q).empty(); }
    bad = bad >= 5;
  }
  ctx.check(!bad, p.name + ":" + k, D);
}

// known finding (replayed from known/, never generated): distance to a half-space is registered but not implemented
PBT(C02, "distance_to_halfspace", 0, 0) {
  fcl::Sphered s(1); fcl::Halfspaced h(V3(0, 0, 1), 0); T3 a = T3::Identity(), b = T3::Identity(); a.translation() = V3(0, 0, 3);
  fcl::DistanceRequestd rq; fcl::DistanceResultd rs; double d = fcl::distance(&s, a, &h, b, rq, rs); ctx.nontrivial();
  ctx.check(std::abs(d - 2) < 1e-3, "wrong", [&](std::ostream& o) { o << "distance from a unit sphere centred 3 above a half-space: " << d << ", expected 2"; });
}
PBT_MAIN
