// C17/C18: motions reach their end poses, follow their documented path, bound the speed of every point, and enclose it in Taylor models.
#include "gen.h"
#include "fcl/math/motion/translation_motion.h"
#include "fcl/math/motion/interp_motion.h"
#include "fcl/math/motion/screw_motion.h"
#include "fcl/math/motion/spline_motion.h"
#include "fcl/math/motion/tbv_motion_bound_visitor.h"
#include "fcl/math/motion/triangle_motion_bound_visitor.h"
#include "fcl/math/bv/RSS.h"
#include "fcl/math/bv/utility.h"
#include "fcl/narrowphase/continuous_collision_object.h"
using namespace gen;

namespace {
typedef std::shared_ptr<fcl::MotionBase<double>> MP;
enum Type { TRANS, INTERP, SCREW, SPLINE };
struct Motion { Type type; MP m; T3 a, b; V3 ref = V3::Zero(); std::string desc; V3 Td[4], Rd[4]; bool ends = true; double scale = 1; };
const char* typeName(int t) { static const char* n[] = {"translation", "interp", "screw", "spline"}; return n[t]; }
double poseGap(const T3& a, const T3& b) { return std::max((a.linear() - b.linear()).norm(), (a.translation() - b.translation()).norm()); }
T3 at(const Motion& q, double t) { T3 x; q.m->integrate(t); q.m->getCurrentTransform(x); return x; }
M3 expm(const V3& w) { double a = w.norm(); return a > 0 ? M3(Eigen::AngleAxisd(a, w / a).toRotationMatrix()) : M3(M3::Identity()); }

Motion motion(Ctx& c, int fixed = -1) {
  Motion q; q.type = (Type)(fixed >= 0 ? fixed : c.weighted({2, 3, 3, 3})); double s = c.chance(1, 5) ? c.pos_real(0.01, 50) : 3; q.scale = s;
  q.a = pose(c, s);
  switch (c.weighted({1, 1, 1, 6})) {        // no motion, pure translation, pure rotation, both
    case 0: q.b = q.a; break; case 1: q.b = q.a; q.b.translation() = vec(c, s); break;
    case 2: q.b = q.a; q.b.linear() = rot(c) * q.a.linear(); break; default: q.b = pose(c, s); break;
  }
  bool mats = c.flip(); std::ostringstream o; o.precision(17); o << typeName(q.type);
  M3 A = q.a.linear(), B = q.b.linear(); V3 x = q.a.translation(), y = q.b.translation();
  switch (q.type) {
    case TRANS: q.m = mats ? MP(new fcl::TranslationMotion<double>(A, x, y)) : MP(new fcl::TranslationMotion<double>(q.a, q.b)); q.b.linear() = A; break;
    case INTERP:
      if (c.flip()) { q.ref = vec(c, s); q.m = mats ? MP(new fcl::InterpMotion<double>(A, x, B, y, q.ref)) : MP(new fcl::InterpMotion<double>(q.a, q.b, q.ref)); }
      else { q.m = mats ? MP(new fcl::InterpMotion<double>(A, x, B, y)) : MP(new fcl::InterpMotion<double>(q.a, q.b)); }
      break;
    case SCREW: q.m = mats ? MP(new fcl::ScrewMotion<double>(A, x, B, y)) : MP(new fcl::ScrewMotion<double>(q.a, q.b)); break;
    case SPLINE:
      if (c.chance(1, 3)) { q.m = mats ? MP(new fcl::SplineMotion<double>(A, x, B, y)) : MP(new fcl::SplineMotion<double>(q.a, q.b)); o << " between poses"; }
      else {
        q.ends = false; double w = c.pick(3) ? 1 : 3; for (auto& v : q.Td) v = vec(c, s); for (auto& v : q.Rd) v = vec(c, w);
        if (c.chance(1, 6)) for (auto& v : q.Rd) v = q.Rd[0]; if (c.chance(1, 10)) for (auto& v : q.Rd) v.setZero();
        q.m = MP(new fcl::SplineMotion<double>(q.Td[0], q.Td[1], q.Td[2], q.Td[3], q.Rd[0], q.Rd[1], q.Rd[2], q.Rd[3]));
        auto ev = [&](double t) { double u = 1 - t; double w0 = u * u * u / 6, w1 = (4 - 6 * t * t + 3 * t * t * t) / 6, w3 = t * t * t / 6, w2 = 1 - w0 - w1 - w3; T3 r = T3::Identity(); r.translation() = q.Td[0] * w0 + q.Td[1] * w1 + q.Td[2] * w2 + q.Td[3] * w3; r.linear() = expm(q.Rd[0] * w0 + q.Rd[1] * w1 + q.Rd[2] * w2 + q.Rd[3] * w3); return r; };
        q.a = ev(0); q.b = ev(1);
        o << " T:"; for (auto& v : q.Td) show(o, v); o << " R:"; for (auto& v : q.Rd) show(o, v);
      }
      break;
  }
  o << " from "; show(o, q.a); o << " to "; show(o, q.b); if (q.type == INTERP) { o << " about "; show(o, q.ref); } q.desc = o.str();
  c.note([&](std::ostream& s) { s << q.desc; }); c.label(typeName(q.type)); c.nontrivial();
  return q;
}
}  // namespace

// the pose at 0 and 1, between, and after any history of integrate() calls
PBT(C17, "path", 30000, 600000) {
  Motion q = motion(ctx); double tol = 1e-9 * (1 + q.scale), th = 0; std::string n = typeName(q.type);
  T3 x0; q.m->getCurrentTransform(x0);
  auto D = [&](double t, const T3& got, const T3& want) { return [=](std::ostream& o) { o << "at t=" << t << " the pose is "; show(o, got); o << ", expected "; show(o, want); }; };
  ctx.check(poseGap(x0, q.a) < 1e-6 * (1 + q.scale), n + ":initial-pose", D(0, x0, q.a));
  double big = M3(q.b.linear() * q.a.linear().transpose()).trace(); th = std::acos(std::max(-1.0, std::min(1.0, (big - 1) / 2)));
  double etol = (th > 3.1 ? 1e-5 : 1e-7) * (1 + q.scale) + tol;        // near a half turn the axis is ill-conditioned
  // the screw's axis is far away when the turn is tiny: its end pose keeps fewer digits
  if (q.type == SCREW && th > 0) etol += 1e-13 * q.scale / th / th;
  int k = ctx.range(1, 6); std::vector<double> ts; for (int i = 0; i < k; i++) ts.push_back(ctx.chance(1, 4) ? (ctx.flip() ? 0.0 : 1.0) : ctx.chance(1, 8) ? ctx.uni(1, 3) : ctx.uni(0, 1));
  for (double t : ts) {
    T3 x = at(q, t), y = at(q, t); double u = std::min(t, 1.0);
    ctx.check(poseGap(x, y) < tol, n + ":not-repeatable", D(t, y, x));
    ctx.check((x.linear() * x.linear().transpose() - M3::Identity()).norm() < 1e-9 && x.linear().determinant() > 0, n + ":not-a-rotation", D(t, x, x));
    if (u == 0) ctx.check(poseGap(x, q.a) < etol, n + ":start", D(t, x, q.a));
    if (u == 1) ctx.check(poseGap(x, q.b) < etol, n + ":end", D(t, x, q.b));
    // rotation and translation getters agree with the transform
    M3 R; V3 T; Eigen::Quaterniond Q; q.m->getCurrentTransform(R, T); ctx.check((R - x.linear()).norm() < tol && (T - x.translation()).norm() < tol, n + ":getter", D(t, x, x));
    q.m->getCurrentTransform(Q, T); ctx.check((Q.toRotationMatrix() - x.linear()).norm() < 1e-9, n + ":getter-quaternion", D(t, x, x));
    q.m->getCurrentRotation(R); q.m->getCurrentTranslation(T); ctx.check((R - x.linear()).norm() < tol && (T - x.translation()).norm() < tol, n + ":getter", D(t, x, x));
    // documented intermediate path
    T3 e = q.a; Eigen::AngleAxisd aa(M3(q.b.linear() * q.a.linear().transpose())); M3 dR = Eigen::AngleAxisd(u * aa.angle(), aa.axis()).toRotationMatrix();
    if (q.type == TRANS) e.translation() = q.a.translation() + u * (q.b.translation() - q.a.translation());
    else if (q.type == INTERP) { if (th > 3.1) continue; e.linear() = dR * q.a.linear(); V3 p = (1 - u) * (q.a * q.ref) + u * (q.b * q.ref); e.translation() = p - e.linear() * q.ref; }
    else if (q.type == SCREW) {
      if (th > 3.1) continue; if (th < 1e-6) { e.translation() = q.a.translation() + u * (q.b.translation() - q.a.translation()); e.linear() = dR * q.a.linear(); }
      else { e.linear() = dR * q.a.linear(); V3 w = aa.axis(), d = q.b.translation() - q.a.translation(); double l = d.dot(w); V3 dp = d - w * l; V3 r = 0.5 * (dp - w.cross(dp) / std::tan(aa.angle() / 2)); /* centre of the plane turn relative to the start is start+... */ V3 c0 = q.a.translation() + 0.5 * dp + 0.5 * w.cross(dp) / std::tan(aa.angle() / 2); (void)r; e.translation() = c0 + dR * (q.a.translation() - c0) + w * (l * u); }
    } else if (!q.ends) { double v = 1 - u; double w0 = v * v * v / 6, w1 = (4 - 6 * u * u + 3 * u * u * u) / 6, w3 = u * u * u / 6, w2 = 1 - w0 - w1 - w3; e.translation() = q.Td[0] * w0 + q.Td[1] * w1 + q.Td[2] * w2 + q.Td[3] * w3; e.linear() = expm(q.Rd[0] * w0 + q.Rd[1] * w1 + q.Rd[2] * w2 + q.Rd[3] * w3); }
    else continue;
    ctx.check(poseGap(x, e) < etol * 10, n + ":path", D(t, x, e));
  }
}

// from the current time on, no point of the volume moves along n faster than the motion bound
PBT(C17, "bound", 15000, 300000) {
  Motion q = motion(ctx); std::string n = typeName(q.type); bool tri = ctx.flip(); double s = q.scale * ctx.pos_real(0.1, 2);
  V3 p[3] = {vec(ctx, s), vec(ctx, s), vec(ctx, s)}; V3 dirn = dir(ctx); double t0 = ctx.chance(1, 3) ? 0 : ctx.uni(0, 0.95); at(q, t0);
  double bound; std::vector<V3> pts(p, p + 3); double extra = 0;
  if (tri) { fcl::TriangleMotionBoundVisitor<double> v(p[0], p[1], p[2], dirn); bound = q.m->computeMotionBound(v); pts.push_back((p[0] + p[1] + p[2]) / 3); }
  else { fcl::RSSd r; fcl::fit(p, 3, r); r.r += ctx.flip() ? 0 : s * ctx.uni(0, 0.5); fcl::TBVMotionBoundVisitor<fcl::RSSd> v(r, dirn); bound = q.m->computeMotionBound(v); pts.clear();
    for (int i = 0; i < 4; i++) { V3 c = r.To + r.axis.col(0) * (i & 1 ? r.l[0] : 0) + r.axis.col(1) * (i & 2 ? r.l[1] : 0); for (int j = 0; j < 6; j++) pts.push_back(c + r.r * V3::Unit(j / 2) * (j % 2 ? 1 : -1)); } }
  ctx.label(n + (tri ? " triangle" : " volume"));
  T3 x0 = at(q, t0); double tol = 1e-6 * (s + q.scale);
  for (int i = 1; i <= 24; i++) {
    double t = t0 + (1 - t0) * i * i / 576.0; T3 x = at(q, t);
    for (auto& v : pts) { double m = (x * v - x0 * v).dot(dirn) - extra; ctx.check(m <= bound * (t - t0) + tol, n + (tri ? ":triangle-bound" : ":volume-bound"), [&](std::ostream& o) { o << "from t=" << t0 << " to " << t << " the point "; show(o, v); o << " moves by " << m << " along "; show(o, dirn); o << ", the bound " << bound << " allows " << bound * (t - t0); }); }
  }
}

// the swept box of a moving object covers it at every time
PBT(C17, "swept_box", 8000, 150000) {
  Motion q = motion(ctx); std::string n = typeName(q.type);
  Shape s = shape(ctx, (ref::Kind)ctx.pick(7), 0.1, 3);
  std::shared_ptr<fcl::CollisionGeometryd> g = s.g; fcl::ContinuousCollisionObject<double> obj(g, q.m); obj.computeAABB(); fcl::AABBd b = obj.getAABB();
  double tol = 1e-6 * (q.scale + 3), grow = 0; ctx.label(n);
  for (int i = 0; i <= 20; i++) {
    T3 x = at(q, i / 20.0); ref::Shape r = s.r; place(r, x);
    for (int k = 0; k < 3; k++) { V3 e = V3::Unit(k); double hi = r.h_(e), lo = -r.h_(-e); grow = std::max(grow, b.max_[k] - b.min_[k]); ctx.check(hi <= b.max_[k] + tol && lo >= b.min_[k] - tol, n + ":not-covered", [&](std::ostream& o) { o << s.desc << " at t=" << i / 20.0 << " reaches [" << lo << "," << hi << "] along axis " << k << ", the swept box is [" << b.min_[k] << "," << b.max_[k] << "]"; }); }
  }
}
// the Taylor models of a motion enclose its pose at every time, and one of a half as long interval too
PBT(C17, "model", 15000, 300000) {
  Motion q = motion(ctx); std::string n = typeName(q.type); fcl::TMatrix3<double> R; fcl::TVector3<double> T; q.m->getTaylorModel(R, T);
  fcl::IMatrix3<double> Rb = R.getTightBound(), Rl = R.getBound(); fcl::IVector3<double> Tb = T.getTightBound(), Tl = T.getBound(); double tol = 1e-6 * (1 + q.scale);
  double a = ctx.uni(0, 1), b = ctx.uni(a, 1); fcl::IMatrix3<double> Rs = R.getTightBound(a, b); fcl::IVector3<double> Ts = T.getBound(a, b);
  auto in = [&](const fcl::Interval<double>& i, double v) { return v >= i[0] - tol && v <= i[1] + tol; };
  for (int i = 0; i <= 16; i++) {
    double t = i / 16.0; T3 x = at(q, t); fcl::IMatrix3<double> Rt = R.getBound(t); fcl::IVector3<double> Tt = T.getBound(t);
    for (int r = 0; r < 3; r++) for (int c = 0; c < 4; c++) {
      double v = c < 3 ? x.linear()(r, c) : x.translation()[r]; const fcl::Interval<double> &tight = c < 3 ? Rb(r, c) : Tb[r], &loose = c < 3 ? Rl(r, c) : Tl[r], &point = c < 3 ? Rt(r, c) : Tt[r], &sub = c < 3 ? Rs(r, c) : Ts[r];
      auto D = [&](const fcl::Interval<double>& iv) { return [&, iv](std::ostream& o) { o << "entry " << r << "," << c << " of the pose at t=" << t << " is " << v << ", its model says [" << iv[0] << "," << iv[1] << "]"; }; };
      ctx.check(in(tight, v), n + ":model-range", D(tight)); ctx.check(in(loose, v), n + ":model-loose-range", D(loose)); ctx.check(in(point, v), n + ":model-value", D(point));
      if (t >= a && t <= b) ctx.check(in(sub, v), n + ":model-part", D(sub));
    }
  }
  // enclosures are useful: the error of the model is that of a third or fourth order expansion, not more
  double w = 0; for (int i = 0; i < 3; i++) w = std::max(w, (q.Rd[i + 1] - q.Rd[i]).norm());
  double err = q.type == TRANS ? 0 : q.type == SPLINE && !q.ends ? 1e9 : q.type == SPLINE ? 40 : std::pow(M_PI, 4) / 24 / 16 * 3 * 3; (void)w;
  for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) ctx.check(R(r, c).remainder().diameter() <= err + 1e-9, n + ":model-too-wide", [&](std::ostream& o) { o << "entry " << r << "," << c << " has a remainder of " << R(r, c).remainder().diameter() << ", expected at most " << err; });
}

// ---- C18: interval and Taylor-model arithmetic
namespace {
typedef fcl::Interval<double> I; typedef fcl::TaylorModel<double> TM; typedef fcl::TVector3<double> TV; typedef fcl::TMatrix3<double> TMat;
double num(Ctx& c) { switch (c.weighted({2, 2, 3})) { case 0: return 0; case 1: return c.range(-3, 3); default: return c.real(-20, 20); } }
I interval(Ctx& c) { double a = num(c), b = c.chance(1, 6) ? a : num(c); return I(std::min(a, b), std::max(a, b)); }
double inside(Ctx& c, const I& i) { int k = c.pick(4); return k == 0 ? i[0] : k == 1 ? i[1] : std::min(i[1], i[0] + c.unit() * (i[1] - i[0])); }
bool near(double a, double b, double s = 0) { return std::fabs(a - b) <= 1e-12 * (1 + s + std::fabs(a) + std::fabs(b)); }
bool has(const I& i, double v, double tol) { return v >= i[0] - tol && v <= i[1] + tol; }
std::string str(const I& i) { std::ostringstream o; o.precision(17); o << "[" << i[0] << "," << i[1] << "]"; return o.str(); }
}  // namespace

// every operation returns the smallest interval holding all results
PBT(C18, "interval", 40000, 800000) {
  I a = interval(ctx), b = interval(ctx); double d = num(ctx); ctx.note([&](std::ostream& o) { o << str(a) << " " << str(b) << " " << d; });
  if (a[0] < a[1] && b[0] < b[1]) ctx.nontrivial();
  auto hull = [](std::vector<double> v) { return I(*std::min_element(v.begin(), v.end()), *std::max_element(v.begin(), v.end())); };
  auto eq = [&](const char* what, const I& got, const I& want) { ctx.check(near(got[0], want[0]) && near(got[1], want[1]), what, [&](std::ostream& o) { o << what << " is " << str(got) << ", expected " << str(want); }); };
  I p = hull({a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]}), x;
  eq("sum", a + b, I(a[0] + b[0], a[1] + b[1])); eq("difference", a - b, I(a[0] - b[1], a[1] - b[0])); eq("product", a * b, p);
  x = a; x += b; eq("sum in place", x, a + b); x = a; x -= b; eq("difference in place", x, a - b); x = a; x *= b; eq("product in place", x, p); x = a; x *= x; eq("square in place", x, hull({a[0] * a[0], a[0] * a[1], a[1] * a[1]}));
  eq("multiple", a * d, hull({a[0] * d, a[1] * d})); x = a; x *= d; eq("multiple in place", x, a * d); eq("negation", -a, I(-a[1], -a[0]));
  if (b[0] > 0 || b[1] < 0) { I q = hull({a[0] / b[0], a[0] / b[1], a[1] / b[0], a[1] / b[1]}); eq("quotient", a / b, q); x = a; x /= b; eq("quotient in place", x, q); }
  bool ov = a[0] <= b[1] && b[0] <= a[1]; ctx.check(a.overlap(b) == ov, "overlap"); x = a; bool r = x.intersect(b); ctx.check(r == ov, "intersect");
  eq("intersection", x, ov ? I(std::max(a[0], b[0]), std::min(a[1], b[1])) : a);
  ctx.check(a.contains(d) == (d >= a[0] && d <= a[1]), "contains");
  x = a; x.bound(d); eq("bound by a number", x, hull({a[0], a[1], d})); x = a; x.bound(b); eq("bound by an interval", x, hull({a[0], a[1], b[0], b[1]})); eq("bound", fcl::bound(a, b), x); eq("bound by number", fcl::bound(a, d), hull({a[0], a[1], d}));
  ctx.check(near(a.center(), (a[0] + a[1]) / 2) && near(a.diameter(), a[1] - a[0]), "center and diameter");
  ctx.check(near(a.getAbsUpper(), std::max(std::fabs(a[0]), std::fabs(a[1]))), "farthest from zero", [&](std::ostream& o) { o << str(a) << ": " << a.getAbsUpper(); });
  ctx.check(near(a.getAbsLower(), a[0] > 0 ? a[0] : a[1] < 0 ? -a[1] : 0), "nearest to zero"); ctx.check((a == b) == (a[0] == b[0] && a[1] == b[1]), "equality");
}

// vectors and matrices of intervals hold the results for all members
PBT(C18, "interval_matrix", 15000, 300000) {
  typedef fcl::IVector3<double> IV; typedef fcl::IMatrix3<double> IM; IV u, v; IM A, B; V3 pu, pv, w(num(ctx), num(ctx), num(ctx)); M3 pa, pb, m; ctx.nontrivial();
  for (int i = 0; i < 3; i++) { u[i] = interval(ctx); v[i] = interval(ctx); pu[i] = inside(ctx, u[i]); pv[i] = inside(ctx, v[i]); for (int j = 0; j < 3; j++) { A(i, j) = interval(ctx); B(i, j) = interval(ctx); pa(i, j) = inside(ctx, A(i, j)); pb(i, j) = inside(ctx, B(i, j)); m(i, j) = num(ctx); } }
  auto V = [&](const char* what, const IV& got, const V3& p) { for (int i = 0; i < 3; i++) ctx.check(has(got[i], p[i], 1e-9 * (1 + std::fabs(p[i]))), what, [&](std::ostream& o) { o << what << ": component " << i << " is " << str(got[i]) << " without " << p[i]; }); };
  auto M = [&](const char* what, const IM& got, const M3& p) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.check(has(got(i, j), p(i, j), 1e-9 * (1 + std::fabs(p(i, j)))), what, [&](std::ostream& o) { o << what << ": entry " << i << "," << j << " is " << str(got(i, j)) << " without " << p(i, j); }); };
  auto S = [&](const char* what, const I& got, double p) { ctx.check(has(got, p, 1e-9 * (1 + std::fabs(p))), what, [&](std::ostream& o) { o << what << " is " << str(got) << " without " << p; }); };
  V("vector sum", u + v, pu + pv); V("vector difference", u - v, pu - pv); S("dot", u.dot(v), pu.dot(pv)); V("cross", u.cross(v), pu.cross(pv)); S("dot with point", u.dot(w), pu.dot(w)); V("cross with point", u.cross(w), pu.cross(w));
  { IV x = u; x += v; V("vector sum in place", x, pu + pv); x = u; x -= v; V("vector difference in place", x, pu - pv); x = u; x.bound(v); V("vector bound", x, pu); V("vector bound", x, pv); ctx.check(x.contain(u) && x.contain(v), "contain"); x = u; x.bound(w); V("vector bound point", x, w); V("vector bound point", x, pu); V("bound", fcl::bound(u, v), pv); V("bound", fcl::bound(u, w), w); }
  bool ov = true, in = true; for (int i = 0; i < 3; i++) { ov &= u[i][0] <= v[i][1] && v[i][0] <= u[i][1]; in &= u[i][0] <= v[i][0] && v[i][1] <= u[i][1]; }
  ctx.check(u.overlap(v) == ov, "vector overlap"); ctx.check(u.contain(v) == in, "vector contain");
  for (int i = 0; i < 3; i++) ctx.check(u.getLow()[i] == u[i][0] && u.getHigh()[i] == u[i][1] && near(u.center()[i], u[i].center()), "vector ends");
  ctx.check(near(u.volumn(), u[0].diameter() * u[1].diameter() * u[2].diameter()), "volume");
  M("matrix by matrix", A * B, pa * pb); M("matrix by constant", A * m, pa * m); V("matrix by vector", A * u, pa * pu); V("matrix by point", A * w, pa * w); M("matrix sum", A + B, pa + pb); M("matrix difference", A - B, pa - pb);
  { IM x = A; x *= B; M("matrix by matrix in place", x, pa * pb); x = A; x *= m; M("matrix by constant in place", x, pa * m); x = A; x += B; M("matrix sum in place", x, pa + pb); x = A; x -= B; M("matrix difference in place", x, pa - pb); }
  { IM x(m); M("matrix of constants", x, m); x.setIdentity(); M("identity", x, M3::Identity()); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.check(x(i, j).diameter() == 0, "identity"); }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.check(A.getLow()(i, j) == A(i, j)[0] && A.getHigh()(i, j) == A(i, j)[1] && A.getColumn(j)[i] == A(i, j) && A.getRow(i)[j] == A(i, j) && A.getColumnLow(j)[i] == A(i, j)[0] && A.getColumnHigh(j)[i] == A(i, j)[1] && A.getRowLow(i)[j] == A(i, j)[0] && A.getRowHigh(i)[j] == A(i, j)[1], "matrix ends", [&](std::ostream& o) { o << "entry " << i << "," << j << " is " << str(A(i, j)) << ", low " << A.getLow()(i, j) << ", high " << A.getHigh()(i, j); });
  // the part of a matrix that a rotation can be in
  M3 r = rot(ctx); IM C; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) C(i, j) = I(r(i, j) - ctx.pos_real(0.001, 3), r(i, j) + ctx.pos_real(0.001, 3));
  M("rotation constraint", fcl::rotationConstrain(C), r); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.check(fcl::rotationConstrain(C)(i, j)[0] >= -1 && fcl::rotationConstrain(C)(i, j)[1] <= 1, "rotation constraint too wide"); C.rotationConstrain(); M("rotation constraint in place", C, r);
}

namespace {
// a Taylor model with the function it stands for
struct F { TM m; std::function<double(double)> f; double size; std::string d; };
F leaf(Ctx& c, const std::shared_ptr<fcl::TimeInterval<double>>& ti) {
  F r; r.m = TM(ti); std::ostringstream o; o.precision(17); double end = ti->t_[1];
  switch (c.pick(5)) {
    case 0: { double k = num(c); r.m = TM(k, ti); r.f = [k](double) { return k; }; r.size = std::fabs(k); o << k; break; }
    case 1: { double a = num(c), v = num(c); generateTaylorModelForLinearFunc(r.m, a, v); r.f = [a, v](double t) { return a + v * t; }; r.size = std::fabs(a) + std::fabs(v) * end; o << a << "+" << v << "t"; break; }
    case 2: case 3: { bool s = c.flip(); double w = c.chance(1, 6) ? 0 : c.real(-8, 8), q = c.chance(1, 3) ? 0 : c.real(-7, 7); if (s) generateTaylorModelForSinFunc(r.m, w, q); else generateTaylorModelForCosFunc(r.m, w, q);
      r.f = [s, w, q](double t) { return s ? std::sin(w * t + q) : std::cos(w * t + q); }; r.size = 1 + std::pow(std::fabs(w) * end, 4); o << (s ? "sin(" : "cos(") << w << "t+" << q << ")"; break; }
    default: { double k[4]; for (double& x : k) x = num(c); I rem = interval(c); double e = inside(c, rem); r.m = TM(k[0], k[1], k[2], k[3], rem, ti); r.f = [=](double t) { return k[0] + t * (k[1] + t * (k[2] + t * k[3])) + e; }; r.size = std::fabs(e); for (int i = 0; i < 4; i++) r.size += std::fabs(k[i]) * std::pow(end, i); o << "(" << k[0] << "," << k[1] << "," << k[2] << "," << k[3] << ")+" << str(rem); break; }
  }
  r.d = o.str(); return r;
}
F expr(Ctx& c, const std::shared_ptr<fcl::TimeInterval<double>>& ti, int depth) {
  if (!depth || c.chance(1, 4)) return leaf(c, ti);
  F a = expr(c, ti, depth - 1), r; auto f = a.f; double k = num(c);
  switch (c.weighted({2, 2, 4, 1, 1, 1, 1})) {
    case 0: { F b = expr(c, ti, depth - 1); auto g = b.f; r.m = a.m + b.m; if (c.flip()) { r.m = a.m; r.m += b.m; } r.f = [f, g](double t) { return f(t) + g(t); }; r.size = a.size + b.size; r.d = "(" + a.d + ")+(" + b.d + ")"; break; }
    case 1: { F b = expr(c, ti, depth - 1); auto g = b.f; r.m = a.m - b.m; if (c.flip()) { r.m = a.m; r.m -= b.m; } r.f = [f, g](double t) { return f(t) - g(t); }; r.size = a.size + b.size; r.d = "(" + a.d + ")-(" + b.d + ")"; break; }
    case 2: { F b = expr(c, ti, depth - 1); auto g = b.f; r.m = a.m * b.m; if (c.flip()) { r.m = a.m; r.m *= b.m; } r.f = [f, g](double t) { return f(t) * g(t); }; r.size = a.size * b.size; r.d = "(" + a.d + ")*(" + b.d + ")"; break; }
    case 3: { r.m = c.flip() ? a.m * k : k * a.m; if (c.chance(1, 3)) { r.m = a.m; r.m *= k; } r.f = [f, k](double t) { return f(t) * k; }; r.size = a.size * std::fabs(k); r.d = std::to_string(k) + "*(" + a.d + ")"; break; }
    case 4: { r.m = c.flip() ? a.m + k : k + a.m; if (c.chance(1, 3)) { r.m = a.m; r.m += k; } r.f = [f, k](double t) { return f(t) + k; }; r.size = a.size + std::fabs(k); r.d = std::to_string(k) + "+(" + a.d + ")"; break; }
    case 5: { bool z = c.flip(); r.m = z ? a.m - k : k - a.m; if (z && c.flip()) { r.m = a.m; r.m -= k; } r.f = [f, k, z](double t) { return z ? f(t) - k : k - f(t); }; r.size = a.size + std::fabs(k); r.d = std::string(z ? "-" : "") + std::to_string(k) + "-(" + a.d + ")"; break; }
    default: r.m = -a.m; r.f = [f](double t) { return -f(t); }; r.size = a.size; r.d = "-(" + a.d + ")"; break;
  }
  return r;
}
std::shared_ptr<fcl::TimeInterval<double>> times(Ctx& c) { double l = c.flip() ? 0 : c.uni(0, 1), r = c.flip() ? std::max(1.0, l) : c.uni(l, l + 1); auto t = std::make_shared<fcl::TimeInterval<double>>(0, 1); if (c.flip()) { t = std::make_shared<fcl::TimeInterval<double>>(l, r); } else t->setValue(l, r); return t; }
}  // namespace

// a model built by any sequence of operations holds the function at every time of its interval
PBT(C18, "taylor", 30000, 600000) {
  auto ti = times(ctx); double l = ti->t_[0], r = ti->t_[1]; F e = expr(ctx, ti, ctx.range(0, 3)); double tol = 1e-10 * (1 + e.size);
  ctx.note([&](std::ostream& o) { o << e.d << " on [" << l << "," << r << "]"; }); if (e.d.size() > 12 && r > l) ctx.nontrivial();
  I loose = e.m.getBound(), tight = e.m.getTightBound(); double a = l + ctx.unit() * (r - l), b = a + ctx.unit() * (r - a); I part = e.m.getBound(a, b), tpart = e.m.getTightBound(a, b), over = e.m.getTightBound(l - 1, r + 1);
  for (int i = 0; i <= 20; i++) {
    double t = l + (r - l) * i / 20, v = e.f(t); auto D = [&](const char* w, const I& i) { return [=](std::ostream& o) { o << w << " " << str(i) << " lacks the value " << v << " at t=" << t; }; };
    ctx.check(has(e.m.getBound(t), v, tol), "value", D("the bound at the time", e.m.getBound(t))); ctx.check(has(loose, v, tol), "bound", D("the bound", loose)); ctx.check(has(tight, v, tol), "tight-bound", D("the tight bound", tight)); ctx.check(has(over, v, tol), "tight-bound", D("the tight bound on more than the interval", over));
    double u = a + (b - a) * i / 20, x = e.f(u); auto P = [&](const char* w, const I& i) { return [=](std::ostream& o) { o << w << " " << str(i) << " on [" << a << "," << b << "] lacks the value " << x << " at t=" << u; }; };
    ctx.check(has(part, x, tol), "bound-of-part", P("the bound", part)); ctx.check(has(tpart, x, tol), "tight-bound-of-part", P("the tight bound", tpart));
  }
  ctx.check(has(loose, tight[0], tol) && has(loose, tight[1], tol), "tight-is-wider", [&](std::ostream& o) { o << "the tight bound " << str(tight) << " is not in the bound " << str(loose); });
  // the tight bound is the range of the polynomial plus the remainder
  double lo = 1e300, hi = -1e300; for (int i = 0; i <= 200; i++) { double t = l + (r - l) * i / 200, v = e.m.coeff(0) + t * (e.m.coeff(1) + t * (e.m.coeff(2) + t * e.m.coeff(3))); lo = std::min(lo, v); hi = std::max(hi, v); }
  double slack = 1e-3 * (hi - lo) + tol; lo += e.m.remainder()[0]; hi += e.m.remainder()[1];
  ctx.check(tight[0] >= lo - slack && tight[1] <= hi + slack, "tight-bound-too-wide", [&](std::ostream& o) { o << "the tight bound " << str(tight) << ", the polynomial and remainder reach [" << lo << "," << hi << "]"; });
  TM z = e.m; z.setZero(); ctx.check(z.getBound().diameter() == 0 && z.getBound()[0] == 0, "zero");
}

// sine and cosine models are as exact as a fourth-order expansion about the middle
PBT(C18, "trigonometry", 30000, 500000) {
  auto ti = times(ctx); double l = ti->t_[0], r = ti->t_[1], w = ctx.chance(1, 10) ? 0 : ctx.real(-12, 12), q = ctx.chance(1, 4) ? ctx.range(-4, 4) * M_PI / 2 : ctx.real(-9, 9); bool s = ctx.flip(); if (r > l && w != 0) ctx.nontrivial();
  TM m(ti); if (ctx.chance(1, 4)) m = TM(1, 2, 3, 4, I(-5, 6), ti); if (s) generateTaylorModelForSinFunc(m, w, q); else generateTaylorModelForCosFunc(m, w, q); double h = (r - l) / 2, e = std::pow(w * h, 4) / 24, tol = 1e-11 * (1 + std::pow(std::fabs(w) * (1 + r), 4));
  ctx.note([&](std::ostream& o) { o << (s ? "sin(" : "cos(") << w << "t+" << q << ") on [" << l << "," << r << "]"; });
  ctx.check(m.remainder()[0] >= -e - tol && m.remainder()[1] <= e + tol && m.remainder()[0] <= m.remainder()[1], "remainder", [&](std::ostream& o) { o << "remainder " << str(m.remainder()) << ", expected within +-" << e; });
  for (int i = 0; i <= 40; i++) { double t = l + (r - l) * i / 40, v = s ? std::sin(w * t + q) : std::cos(w * t + q); ctx.check(has(m.getBound(t), v, tol), "value", [&](std::ostream& o) { o << "at t=" << t << " the model says " << str(m.getBound(t)) << ", the value is " << v; }); }
}

// vectors and matrices of models
PBT(C18, "taylor_matrix", 6000, 100000) {
  auto ti = times(ctx); double l = ti->t_[0], r = ti->t_[1]; if (r > l) ctx.nontrivial(); F u[3], v[3], A[9], B[9], d = leaf(ctx, ti); TV tu(ti), tv; TMat ta(ti), tb(ti); V3 w(num(ctx), num(ctx), num(ctx)); M3 m; double k = num(ctx), big = d.size; TM row[3];
  for (int i = 0; i < 3; i++) { u[i] = leaf(ctx, ti); v[i] = leaf(ctx, ti); tu[i] = u[i].m; row[i] = v[i].m; big = std::max({big, u[i].size, v[i].size}); for (int j = 0; j < 3; j++) { A[3 * i + j] = leaf(ctx, ti); B[3 * i + j] = leaf(ctx, ti); ta(i, j) = A[3 * i + j].m; tb(i, j) = B[3 * i + j].m; m(i, j) = num(ctx); big = std::max({big, A[3 * i + j].size, B[3 * i + j].size}); } }
  tv = ctx.flip() ? TV(row) : TV(row[0], row[1], row[2]); double tol = 1e-10 * (1 + 400 * big * big);
  struct Q { std::string n; TV v; TMat m; TM s; int k; }; std::vector<Q> all; auto V = [&](const char* n, const TV& x) { Q q; q.n = n; q.v = x; q.k = 1; all.push_back(q); }; auto M = [&](const char* n, const TMat& x) { Q q; q.n = n; q.m = x; q.k = 2; all.push_back(q); }; auto S = [&](const char* n, const TM& x) { Q q; q.n = n; q.s = x; q.k = 0; all.push_back(q); };
  bool inplace = ctx.flip(); TV x; TMat y;
  V("vector sum", inplace ? (x = tu, x += tv) : tu + tv); V("vector difference", inplace ? (x = tu, x -= tv) : tu - tv); V("vector plus point", inplace ? (x = tu, x += w) : tu + w); V("vector minus point", inplace ? (x = tu, x -= w) : tu - w); V("vector by model", inplace ? (x = tu, x *= d.m) : tu * d.m); V("vector by number", inplace ? (x = tu, x *= k) : tu * k);
  V("negation", -tu); V("cross", tu.cross(tv)); V("cross with point", tu.cross(w)); S("dot", tu.dot(tv)); S("dot with point", tu.dot(w)); S("square length", tu.squareLength()); V("point by model", w * d.m); V("point plus vector", w + tu); V("point minus vector", w - tu);
  M("matrix by matrix", inplace ? (y = ta, y *= tb) : ta * tb); M("matrix by constant", inplace ? (y = ta, y *= m) : ta * m); M("matrix by model", inplace ? (y = ta, y *= d.m) : ta * d.m); M("matrix by number", inplace ? (y = ta, y *= k) : ta * k); V("matrix by vector", ta * tu); V("matrix by point", ta * w);
  M("matrix sum", inplace ? (y = ta, y += tb) : ta + tb); M("matrix difference", inplace ? (y = ta, y -= tb) : ta - tb); M("matrix plus constant", inplace ? (y = ta, y += m) : ta + m); M("matrix minus constant", inplace ? (y = ta, y -= m) : ta - m); M("matrix negation", -ta);
  M("constant by model", m * d.m); M("model by constant", d.m * m); M("model by matrix", d.m * ta); M("number by matrix", k * ta); M("constant plus matrix", m + ta); M("constant minus matrix", m - ta); M("constant matrix", TMat(m, ti)); V("constant vector", TV(w, ti)); V("column", ta.getColumn(1)); V("row", ta.getRow(2));
  y = ta; y.setIdentity(); M("identity", y); y.setZero(); M("zero", y); x = tu; x.setZero(); V("zero vector", x);
  for (int i = 0; i <= 6; i++) {
    double t = l + (r - l) * i / 6; V3 a, b; M3 p, q; for (int j = 0; j < 3; j++) { a[j] = u[j].f(t); b[j] = v[j].f(t); for (int h = 0; h < 3; h++) { p(j, h) = A[3 * j + h].f(t); q(j, h) = B[3 * j + h].f(t); } } double z = d.f(t);
    V3 wv[] = {a + b, a - b, a + w, a - w, a * z, a * k, -a, a.cross(b), a.cross(w), V3(a.dot(b), 0, 0), V3(a.dot(w), 0, 0), V3(a.dot(a), 0, 0), w * z, w + a, w - a};
    M3 none = M3::Zero(), wm[] = {p * q, p * m, p * z, p * k, none, none, p + q, p - q, p + m, p - m, -p, m * z, z * m, z * p, k * p, m + p, m - p, m, none, none, none, M3::Identity(), M3::Zero(), none};
    for (size_t n = 0; n < all.size(); n++) {
      const Q& e = all[n]; V3 ev = n < 15 ? wv[n] : e.n == "matrix by vector" ? V3(p * a) : e.n == "matrix by point" ? V3(p * w) : e.n == "constant vector" ? w : e.n == "column" ? V3(p.col(1)) : e.n == "row" ? V3(p.row(2)) : V3(V3::Zero()); M3 em = n < 15 ? none : wm[n - 15];
      for (int j = 0; j < 9; j++) {
        if ((e.k == 0 && j) || (e.k == 1 && j > 2)) break; const TM& g = e.k == 0 ? e.s : e.k == 1 ? e.v[j] : e.m(j / 3, j % 3); double want = e.k == 2 ? em(j / 3, j % 3) : ev[j]; I at = g.getBound(t), all_ = e.k == 0 ? e.s.getTightBound() : e.k == 1 ? e.v.getTightBound()[j] : e.m.getTightBound()(j / 3, j % 3), lo = e.k == 0 ? e.s.getBound() : e.k == 1 ? e.v.getBound()[j] : e.m.getBound()(j / 3, j % 3);
        ctx.check(has(at, want, tol) && has(all_, want, tol) && has(lo, want, tol), e.n, [&](std::ostream& o) { o << e.n << ", entry " << j << ", at t=" << t << " is " << str(at) << " (over the interval " << str(all_) << ", " << str(lo) << "), the value is " << want; });
      }
    }
  }
}
PBT_MAIN
