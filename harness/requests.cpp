// C05 argument order and rigid motion, C19 what requests ask for, C27 cost sources.
// PBT-NEEDS: collide distance
#include "gen_any.h"
#include "fcl/geometry/shape/utility.h"
using namespace gen;

namespace {
typedef std::pair<intptr_t, intptr_t> PP;
fcl::CollisionResultd hit(const Any& A, const T3& a, const Any& B, const T3& b, const fcl::CollisionRequestd& rq) { fcl::CollisionResultd r; fcl::collide(A.g.get(), a, B.g.get(), b, rq, r); return r; }
// pairs of parts in contact, in the order (first, second) of the call
std::set<PP> pairsOf(const fcl::CollisionResultd& r, const Any& A) { std::set<PP> s; for (size_t i = 0; i < r.numContacts(); i++) { auto& c = r.getContact(i); s.insert(c.o1 == A.g.get() ? PP(c.b1, c.b2) : PP(c.b2, c.b1)); } return s; }
std::set<PP> swapped(const std::set<PP>& s) { std::set<PP> r; for (auto& p : s) r.insert(PP(p.second, p.first)); return r; }
// small moves of the second geometry
std::vector<V3> moves(double e) { std::vector<V3> v{V3::Zero()}; for (int i = 0; i < 3; i++) for (int s : {-1, 1}) v.push_back(V3::Unit(i) * (s * e)); return v; }
std::string hex(const std::set<PP>& s) { std::ostringstream o; for (auto& p : s) o << "(" << p.first << "," << p.second << ")"; return o.str(); }
}  // namespace

// ---------------------------------------------------------------- C05
PBT(C05, "collide_order", 9000, 150000) {
  Two w = two(ctx); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; bool contact = ctx.chance(1, 3); fcl::CollisionRequestd rq(1000000, contact); rq.gjk_solver_type = k;
  T3 g = pose(ctx, ctx.chance(1, 3) ? 100 : 5); double e = 1e-3 * w.scale; std::string key = "collide:" + w.name + "/" + solverName(k);
  auto self = w.A.g.get() == w.B.g.get(); (void)self;
  fcl::CollisionResultd r = hit(w.A, w.a, w.B, w.b, rq), s = hit(w.B, w.b, w.A, w.a, rq), t = hit(w.A, g * w.a, w.B, g * w.b, rq);
  auto P = pairsOf(r, w.A), S = swapped(pairsOf(s, w.B)), T = pairsOf(t, w.A);
  ctx.nontrivial(); ctx.label(std::string(w.A.k == A_SHAPE ? "shape" : w.A.k == A_MESH ? "mesh" : "octree") + (r.isCollision() ? " in contact" : " apart"));
  if (P == S && P == T) return;
  // differences count only where each side's answer survives small moves
  std::set<PP> always[3], ever[3]; bool first = true;
  for (auto& v : moves(e)) {
    std::set<PP> x[3] = {pairsOf(hit(w.A, w.a, w.B, shift(w.b, v), rq), w.A), swapped(pairsOf(hit(w.B, shift(w.b, v), w.A, w.a, rq), w.B)), pairsOf(hit(w.A, g * w.a, w.B, g * shift(w.b, v), rq), w.A)};
    for (int i = 0; i < 3; i++) { if (first) always[i] = x[i]; else { std::set<PP> z; std::set_intersection(always[i].begin(), always[i].end(), x[i].begin(), x[i].end(), std::inserter(z, z.end())); always[i] = z; } ever[i].insert(x[i].begin(), x[i].end()); }
    first = false;
  }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (auto& p : always[i]) ctx.check(ever[j].count(p) > 0, key + (i == 1 || j == 1 ? ":order" : ":moved"), [&](std::ostream& o) { static const char* n[] = {"as given", "with the arguments swapped", "after moving both"}; o << "contact of parts (" << p.first << "," << p.second << ") is found " << n[i] << " and at all nearby placements, but never " << n[j] << "; found " << hex(P) << " / " << hex(S) << " / " << hex(T); });
}
PBT(C05, "distance_order", 8000, 120000) {
  unsigned bvs = 1u << B_RSS | 1u << B_KIOS | 1u << B_OBBRSS; Two w; w.A = any(ctx, 7, bvs); w.B = any(ctx, 7, w.A.k == A_MESH ? 1u << w.A.bv : bvs); placeTwo(ctx, w, 3); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP;
  T3 g = pose(ctx, ctx.chance(1, 3) ? 100 : 5); std::string key = "distance:" + w.name + "/" + solverName(k); fcl::DistanceRequestd rq(ctx.flip(), ctx.chance(1, 4)); rq.gjk_solver_type = k;
  auto ask = [&](const Any& A, const T3& a, const Any& B, const T3& b, fcl::DistanceResultd& r) { return fcl::distance(A.g.get(), a, B.g.get(), b, rq, r); };
  fcl::DistanceResultd r, s, t; double d = ask(w.A, w.a, w.B, w.b, r), f = ask(w.B, w.b, w.A, w.a, s), h = ask(w.A, g * w.a, w.B, g * w.b, t); double e = 2e-3 * w.scale;
  ctx.label(d > 1e100 ? "nothing to measure" : d > e ? "apart" : "touching or overlapping"); ctx.nontrivial(d < 1e100);
  auto D = [&](std::ostream& o) { o << "distance " << d << " as given, " << f << " with the arguments swapped, " << h << " after moving both"; };
  if (std::max(d, std::max(f, h)) <= e) return;   // contact: how deep is another property's matter
  ctx.check(d > -e && f > -e && std::abs(d - f) <= e, key + ":order", D); ctx.check(d > -e && h > -e && std::abs(d - h) <= e, key + ":moved", D);
  // the result of the swapped call is about the same objects in the other order (mesh and octree may come first)
  if (d < 1e100) { bool in = r.o1 == w.A.g.get() && r.o2 == w.B.g.get(), out = r.o1 == w.B.g.get() && r.o2 == w.A.g.get(); ctx.check(in || out, key + ":objects", D); bool in2 = s.o1 == w.A.g.get() && s.o2 == w.B.g.get(), out2 = s.o1 == w.B.g.get() && s.o2 == w.A.g.get(); ctx.check(in2 || out2, key + ":objects", D); }
}

// ---------------------------------------------------------------- C19
PBT(C19, "contact_limit", 9000, 150000) {
  Two w = two(ctx); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; bool contact = ctx.flip(); std::string key = "limit:" + w.name + "/" + solverName(k) + (contact ? "/contacts" : "");
  fcl::CollisionRequestd all(1000000, contact); all.gjk_solver_type = k; fcl::CollisionResultd r; size_t n = fcl::collide(w.A.g.get(), w.a, w.B.g.get(), w.b, all, r);
  ctx.check(n == r.numContacts(), key + ":return-value", [&](std::ostream& o) { o << "returned " << n << ", " << r.numContacts() << " contacts"; });
  fcl::CollisionRequestd lim((size_t)ctx.range(1, 6), contact); lim.gjk_solver_type = k; fcl::CollisionResultd s; size_t m = fcl::collide(w.A.g.get(), w.a, w.B.g.get(), w.b, lim, s);
  ctx.nontrivial(n > 0); ctx.label(n == 0 ? "no contact" : n == 1 ? "one contact" : n <= lim.num_max_contacts ? "all contacts fit" : "more contacts than asked for");
  auto D = [&](std::ostream& o) { o << n << " contacts without limit, " << s.numContacts() << " (returned " << m << ") with limit " << lim.num_max_contacts; };
  ctx.check(m == s.numContacts(), key + ":return-value", D); ctx.check(s.numContacts() == std::min(n, lim.num_max_contacts), key + ":count", D);
  for (size_t i = 0; i < s.numContacts(); i++) { auto& c = s.getContact(i); bool found = false; for (size_t j = 0; j < n && !found; j++) { auto& q = r.getContact(j); found = q.o1 == c.o1 && q.o2 == c.o2 && q.b1 == c.b1 && q.b2 == c.b2 && (!contact || (q.pos == c.pos && q.normal == c.normal && q.penetration_depth == c.penetration_depth)); } ctx.check(found, key + ":other-contact", D); }
  // of several contacts of one pair the deepest are kept
  if (contact && w.A.k == A_SHAPE && w.B.k == A_SHAPE) { std::vector<double> x, y; for (size_t i = 0; i < n; i++) x.push_back(r.getContact(i).penetration_depth); for (size_t i = 0; i < s.numContacts(); i++) y.push_back(s.getContact(i).penetration_depth); std::sort(x.rbegin(), x.rend()); std::sort(y.rbegin(), y.rend()); x.resize(y.size()); ctx.check(x == y, key + ":not-deepest", D); }
  // whether contacts are described does not decide whether there are any (up to small moves)
  fcl::CollisionRequestd other(1, !contact); other.gjk_solver_type = k; bool v = hit(w.A, w.a, w.B, w.b, other).isCollision();
  if (v != (n > 0)) { bool s1 = true, s2 = true; for (auto& q : moves(1e-3 * w.scale)) { s1 &= hit(w.A, w.a, w.B, shift(w.b, q), other).isCollision() == v; s2 &= hit(w.A, w.a, w.B, shift(w.b, q), all).isCollision() == (n > 0); } ctx.check(!(s1 && s2), key + ":verdict-depends-on-contacts", D); }
}
// a result that already holds contacts is added to, never overfilled, and left alone once satisfied
PBT(C19, "accumulated_contacts", 6000, 100000) {
  Two w = two(ctx), x = two(ctx); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; bool contact = ctx.flip(); fcl::CollisionRequestd rq(ctx.chance(1, 3) ? 1000000 : (size_t)ctx.range(1, 6), contact); rq.gjk_solver_type = k; std::string key = "accumulate:" + x.name + "/" + solverName(k);
  fcl::CollisionResultd both = hit(w.A, w.a, w.B, w.b, rq), one = both, two_ = hit(x.A, x.a, x.B, x.b, rq); size_t ret = fcl::collide(x.A.g.get(), x.a, x.B.g.get(), x.b, rq, both);
  ctx.nontrivial(one.isCollision() && two_.isCollision()); ctx.label(one.isCollision() ? two_.isCollision() ? "both" : "first only" : two_.isCollision() ? "second only" : "none");
  auto D = [&](std::ostream& o) { o << one.numContacts() << " contacts before, " << two_.numContacts() << " alone, " << both.numContacts() << " together (returned " << ret << "), limit " << rq.num_max_contacts; };
  ctx.check(ret == both.numContacts(), key + ":return-value", D); ctx.check(both.numContacts() == std::min(rq.num_max_contacts, one.numContacts() + two_.numContacts()), key + ":count", D);
  for (size_t i = 0; i < one.numContacts(); i++) { auto &c = one.getContact(i), &q = both.getContact(i); ctx.check(c.o1 == q.o1 && c.o2 == q.o2 && c.b1 == q.b1 && c.b2 == q.b2, key + ":earlier-contact-changed", D); }
  for (size_t i = one.numContacts(); i < both.numContacts(); i++) { auto& q = both.getContact(i); ctx.check((q.o1 == x.A.g.get() && q.o2 == x.B.g.get()) || (q.o2 == x.A.g.get() && q.o1 == x.B.g.get()), key + ":objects", D); }
  both.clear(); ctx.check(!both.isCollision() && both.numContacts() == 0 && both.numCostSources() == 0, "clear", D);
}
// a guess for the iterative solver changes how fast an answer is found, not the answer
PBT(C19, "cached_guess", 8000, 120000) {
  Two w = two(ctx, 1); auto k = ctx.chance(1, 4) ? fcl::GST_LIBCCD : fcl::GST_INDEP; bool contact = ctx.flip(); fcl::CollisionRequestd rq(10, contact), rg; rq.gjk_solver_type = k; rg = rq; rg.enable_cached_gjk_guess = true;
  int how = ctx.pick(4); rg.cached_gjk_guess = how == 0 ? V3(dir(ctx)) : how == 1 ? V3(vec(ctx, 10)) : how == 2 ? V3(V3::Zero()) : V3(1e-8 * dir(ctx)); std::string key = "guess:" + w.name + "/" + solverName(k);
  auto r = hit(w.A, w.a, w.B, w.b, rq), s = hit(w.A, w.a, w.B, w.b, rg); rg.cached_gjk_guess = s.cached_gjk_guess; auto t = hit(w.A, w.a, w.B, w.b, rg); ctx.nontrivial(); ctx.label(std::string(r.isCollision() ? "contact" : "apart") + (how == 2 ? ", no guess" : ""));
  auto D = [&](std::ostream& o) { o << "contact " << r.isCollision() << " without a guess, " << s.isCollision() << " with a guess, " << t.isCollision() << " with the guess taken from it"; };
  ctx.check(s.cached_gjk_guess.allFinite(), key + ":guess-not-finite", D);
  if (r.isCollision() == s.isCollision() && r.isCollision() == t.isCollision()) return;
  bool s1 = true, s2 = true, s3 = true; for (auto& q : moves(1e-3 * w.scale)) { s1 &= hit(w.A, w.a, w.B, shift(w.b, q), rq).isCollision() == r.isCollision(); auto z = hit(w.A, w.a, w.B, shift(w.b, q), rg); s2 &= z.isCollision() == t.isCollision(); fcl::CollisionRequestd r2 = rg; r2.cached_gjk_guess = V3(dir(ctx)); s3 &= hit(w.A, w.a, w.B, shift(w.b, q), r2).isCollision() == s.isCollision(); }
  ctx.check(!(s1 && s2 && r.isCollision() != t.isCollision()) && !(s1 && s3 && r.isCollision() != s.isCollision()), key + ":verdict", D);
}
// distance: flags, accumulation of a minimum, error bounds
PBT(C19, "distance_flags", 7000, 100000) {
  unsigned bvs = 1u << B_RSS | 1u << B_KIOS | 1u << B_OBBRSS; Two w; w.A = any(ctx, 7, bvs); w.B = any(ctx, 7, w.A.k == A_MESH ? 1u << w.A.bv : bvs); placeTwo(ctx, w, 3); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; std::string key = "distance:" + w.name + "/" + solverName(k);
  auto ask = [&](bool np, bool sd, fcl::DistanceResultd& r) { fcl::DistanceRequestd rq(np, sd); rq.gjk_solver_type = k; return fcl::distance(w.A.g.get(), w.a, w.B.g.get(), w.b, rq, r); };
  bool np = ctx.flip(), sd = ctx.flip(); fcl::DistanceResultd r, s; double d = ask(np, sd, r), f = ask(!np, sd, s), e = 1e-5 * w.scale; ctx.nontrivial(d < 1e100); ctx.label(d > e ? d > 1e100 ? "nothing to measure" : "apart" : "touching or overlapping");
  auto D = [&](std::ostream& o) { o << "distance " << d << " (stored " << r.min_distance << ") " << (np ? "with" : "without") << " nearest points, " << f << " otherwise; signed " << sd; };
  ctx.check(d == r.min_distance, key + ":return-value", D);
  double tol = 2e-3 * w.scale; ctx.check((d > tol || f > tol) ? std::abs(d - f) <= tol : true, key + ":nearest-points-flag", D);
  fcl::DistanceResultd q; double h = ask(np, !sd, q); auto D2 = [&](std::ostream& o) { D(o); o << ", " << h << " with the other choice of signed"; }; ctx.check((d > tol || h > tol) ? std::abs(d - h) <= tol : true, key + ":signed-flag", D2);
  // a smaller earlier distance is kept with everything that belongs to it; a larger one is replaced
  fcl::DistanceResultd acc; acc.min_distance = ctx.flip() ? std::abs(d) * 0.5 + 0.01 : std::abs(d) * 2 + 1; if (d > 1e100) acc.min_distance = 7; double before = acc.min_distance; fcl::Sphered dummy(1); acc.o1 = acc.o2 = &dummy; acc.b1 = -777777777777; acc.b2 = -787878787878; acc.nearest_points[0] = V3(5, 6, 7); acc.nearest_points[1] = V3(8, 9, 10);
  double ra = ask(np, sd, acc); auto D3 = [&](std::ostream& o) { D(o); o << "; accumulating onto " << before << " gives " << acc.min_distance << " (returned " << ra << "), objects " << (acc.o1 == &dummy ? "earlier" : "new") << ", ids " << acc.b1 << " " << acc.b2 << ", points "; show(o, acc.nearest_points[0]); show(o, acc.nearest_points[1]); };
  if (d > 1e100 || before < d - tol) { ctx.check(acc.min_distance == before && acc.o1 == &dummy && acc.o2 == &dummy && acc.b1 == -777777777777 && acc.b2 == -787878787878 && acc.nearest_points[0] == V3(5, 6, 7) && acc.nearest_points[1] == V3(8, 9, 10), key + ":earlier-result-lost", D3); }
  else if (before > d + tol) { ctx.check(std::abs(acc.min_distance - d) <= tol && acc.o1 != &dummy && acc.b1 != -777777777777 && (!np || acc.nearest_points[0] != V3(5, 6, 7)), key + ":not-accumulated", D3); if (np && d > tol) { double g = (acc.nearest_points[0] - acc.nearest_points[1]).norm(); ctx.check(std::abs(g - acc.min_distance) <= tol, key + ":points-of-accumulated-result", D3); } }
}
PBT(C19, "distance_error_bounds", 4000, 60000) {
  unsigned bvs = 1u << B_AABB | 1u << B_RSS | 1u << B_KIOS | 1u << B_OBBRSS; Two w; w.A = any(ctx, 2, bvs); bool shapeToo = w.A.bv != B_AABB && ctx.chance(1, 3); w.B = any(ctx, shapeToo ? 1 : 2, 1u << w.A.bv); if (ctx.flip()) std::swap(w.A, w.B); placeTwo(ctx, w, 4);
  fcl::DistanceRequestd ex(false), ap(false); ex.gjk_solver_type = ap.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; static const double R[] = {0, 0.05, 0.3, 1}; ap.rel_err = R[ctx.pick(4)]; ap.abs_err = ctx.chance(1, 4) ? 0 : w.scale * ctx.pos_real(0.001, 2); ap.enable_nearest_points = ctx.flip();
  fcl::DistanceResultd r, s; double d = fcl::distance(w.A.g.get(), w.a, w.B.g.get(), w.b, ex, r), f = fcl::distance(w.A.g.get(), w.a, w.B.g.get(), w.b, ap, s); std::string key = "error-bounds:" + w.name; double e = 1e-3 * w.scale * (shapeToo ? 1 : 1e-2);
  ctx.nontrivial(d > e && ap.rel_err > 0); ctx.label(d <= e ? "touching" : f > d + e ? "approximation used" : "exact all the same");
  auto D = [&](std::ostream& o) { o << "distance " << d << ", with relative error " << ap.rel_err << " and absolute error " << ap.abs_err << ": " << f; };
  if (d <= e) { if (ap.rel_err == 0 || ap.abs_err == 0) ctx.check(f <= 2 * e, key + ":too-large", D); else ctx.check(f <= std::min(d + ap.abs_err, 1e300) + e, key + ":too-large", D); return; }
  ctx.check(f >= d - e, key + ":too-small", D); ctx.check(f <= d + ap.abs_err + e, key + ":absolute-error", D); ctx.check(f <= d * (1 + ap.rel_err) + e, key + ":relative-error", D);
}
// every way of asking gives the same answer
PBT(C19, "interfaces", 5000, 80000) {
  Two w = two(ctx); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; fcl::CollisionRequestd rq((size_t)ctx.range(1, 20), ctx.flip()); rq.gjk_solver_type = k; std::string key = "interfaces:" + w.name + "/" + solverName(k);
  auto same = [](const fcl::CollisionResultd& a, const fcl::CollisionResultd& b) { if (a.numContacts() != b.numContacts()) return false; for (size_t i = 0; i < a.numContacts(); i++) { auto &x = a.getContact(i), &y = b.getContact(i); if (x.o1 != y.o1 || x.o2 != y.o2 || x.b1 != y.b1 || x.b2 != y.b2) return false; } return true; };
  fcl::CollisionObjectd oa(w.A.g, w.a), ob(w.B.g, w.b); auto r = hit(w.A, w.a, w.B, w.b, rq); fcl::CollisionResultd s, t; fcl::collide(&oa, &ob, rq, s); ctx.nontrivial(r.isCollision()); ctx.label(r.isCollision() ? "contact" : "apart");
  auto D = [&](std::ostream& o) { o << r.numContacts() << " contacts asked by geometry, " << s.numContacts() << " by objects, " << t.numContacts() << " with a solver of one's own"; };
  ctx.check(same(r, s), key + ":objects", D);
  if (k == fcl::GST_LIBCCD) { fcl::detail::GJKSolver_libccd<double> sv; sv.collision_tolerance = rq.gjk_tolerance; fcl::collide(w.A.g.get(), w.a, w.B.g.get(), w.b, &sv, rq, t); }
  else { fcl::detail::GJKSolver_indep<double> sv; sv.gjk_tolerance = sv.epa_tolerance = rq.gjk_tolerance; fcl::collide(w.A.g.get(), w.a, w.B.g.get(), w.b, &sv, rq, t); }
  ctx.check(same(r, t), key + ":own-solver", D);
  bool can = !(w.A.k == A_MESH || w.B.k == A_MESH) && w.A.bounded && w.B.bounded; if (!can) return;
  fcl::DistanceRequestd dq(true); dq.gjk_solver_type = k; fcl::DistanceResultd x, y; double d = fcl::distance(w.A.g.get(), w.a, w.B.g.get(), w.b, dq, x), f = fcl::distance(&oa, &ob, dq, y);
  ctx.check(d == f && x.b1 == y.b1 && x.b2 == y.b2 && x.o1 == y.o1, key + ":distance", [&](std::ostream& o) { o << "distance " << d << " asked by geometry, " << f << " by objects"; });
}

// ---------------------------------------------------------------- C27
namespace {
struct Src { V3 lo, hi; double density, total; };
// the box fcl puts around a shape; that it contains the shape is checked elsewhere (C12)
template <class G> bool boxOf(const fcl::CollisionGeometryd* g, const T3& x, fcl::NODE_TYPE t, fcl::AABBd& b) { if (g->getNodeType() != t) return false; fcl::computeBV(*static_cast<const G*>(g), x, b); return true; }
void shapeBoxes(const Any& A, const T3& x, std::vector<Any::Part>& v) {
  if (A.k != A_SHAPE) return; fcl::AABBd b; auto g = A.g.get();
  bool ok = boxOf<fcl::Sphered>(g, x, fcl::GEOM_SPHERE, b) || boxOf<fcl::Boxd>(g, x, fcl::GEOM_BOX, b) || boxOf<fcl::Capsuled>(g, x, fcl::GEOM_CAPSULE, b) || boxOf<fcl::Cylinderd>(g, x, fcl::GEOM_CYLINDER, b) || boxOf<fcl::Coned>(g, x, fcl::GEOM_CONE, b) || boxOf<fcl::Ellipsoidd>(g, x, fcl::GEOM_ELLIPSOID, b) || boxOf<fcl::Convexd>(g, x, fcl::GEOM_CONVEX, b);
  if (ok) for (auto& p : v) { p.lo = b.min_; p.hi = b.max_; }
}
void unknown(const Oct& o, const octomap::OcTreeNode* n, const V3& c, double s, std::vector<Leaf>& v) {
  if (!n || o.g->isNodeFree(n) || !o.t->nodeHasChildren(n)) return;
  for (int i = 0; i < 8; i++) { V3 q = c + V3(i & 1 ? 1 : -1, i & 2 ? 1 : -1, i & 4 ? 1 : -1) * (s / 4); if (o.t->nodeChildExists(n, i)) unknown(o, o.t->getNodeChild(n, i), q, s / 2, v); else { Leaf l; l.c = q; l.s = s / 2; v.push_back(l); } }
}
bool near(const Src& a, const fcl::CostSourced& b, double e) { return (a.lo - b.aabb_min).cwiseAbs().maxCoeff() <= e && (a.hi - b.aabb_max).cwiseAbs().maxCoeff() <= e && std::abs(a.density - b.cost_density) <= 1e-6 * (1 + a.density); }
}
PBT(C27, "cost_sources", 8000, 120000) {
  Two w = two(ctx, ctx.chance(1, 12) ? 4 : 7, 255, false); auto k = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP;
  for (Any* a : {&w.A, &w.B}) if (a->k != A_OCT && ctx.chance(2, 3)) { int st = ctx.weighted({3, 2, 1}); a->g->cost_density = ctx.pos_real(0.1, 3); a->g->threshold_occupied = st == 0 ? a->g->cost_density * 0.8 : a->g->cost_density * 1.5; a->g->threshold_free = st == 2 ? a->g->cost_density * 1.2 : st == 1 ? a->g->cost_density * 0.4 : 0; }
  for (Any* a : {&w.A, &w.B}) if (a->k == A_OCT && ctx.flip()) {   // thresholds that leave uncertain cells
    double hi = ctx.uni(0.5, 0.9), lo = ctx.uni(0.05, 0.5); a->o.g->setOccupancyThres(hi); a->o.g->setFreeThres(lo); for (auto& l : a->o.leaves) { l.occupied = a->o.g->isNodeOccupied(l.node); l.free_ = a->o.g->isNodeFree(l.node); if (!l.occupied && !l.free_) ctx.label("octree with uncertain cells"); }
    ctx.note([=](std::ostream& o) { o << a->name << " thresholds " << hi << " " << lo; });
  }
  auto stateOf = [](const Any& a) { return a.k == A_OCT ? "octree" : a.g->isFree() ? "free" : a.g->isOccupied() ? "occupied" : "uncertain"; };
  bool cost = !ctx.chance(1, 8), approx = ctx.chance(1, 3), contact = ctx.flip(); size_t maxc = ctx.flip() ? 1000000 : (size_t)ctx.range(1, 5), maxs = ctx.chance(1, 2) ? 1000000 : (size_t)ctx.range(1, 4);
  fcl::CollisionRequestd rq(maxc, contact, maxs, cost, approx); rq.gjk_solver_type = k; auto r = hit(w.A, w.a, w.B, w.b, rq); std::vector<fcl::CostSourced> cs; r.getCostSources(cs);
  bool oct = w.A.k == A_OCT || w.B.k == A_OCT, octoct = w.A.k == A_OCT && w.B.k == A_OCT, mesh1 = (w.A.k == A_MESH) != (w.B.k == A_MESH); if (!mesh1) approx = false;
  std::string key = std::string("cost:") + w.name + "/" + stateOf(w.A) + "-" + stateOf(w.B) + (approx ? "/approximate" : "");
  ctx.note([&](std::ostream& o) { o << "states " << stateOf(w.A) << " " << stateOf(w.B) << " densities " << w.A.g->cost_density << " " << w.B.g->cost_density << ", at most " << maxc << " contacts " << (contact ? "described" : "") << " and " << maxs << " sources" << (approx ? ", approximate" : ""); });
  auto pa = w.A.parts(w.a), pb = w.B.parts(w.b); shapeBoxes(w.A, w.a, pa); shapeBoxes(w.B, w.b, pb); std::vector<Src> must, may; size_t contactsMust = 0, contactsMay = 0; double e = 1e-3 * w.scale;
  for (auto& x : pa) for (auto& y : pb) {
    bool apart = false; for (int i = 0; i < 3; i++) apart |= x.lo[i] > y.hi[i] + e || y.lo[i] > x.hi[i] + e; if (apart || x.free_ || y.free_) continue;
    auto d = ref::sd(x.r, y.r, 1e-6 * w.scale, x.r.k == ref::TRI || y.r.k == ref::TRI); bool sure = d.hi < -e; if (x.r.k == ref::TRI && y.r.k == ref::TRI) sure = ref::triCross((std::array<V3, 3>{{x.r.t + x.r.v[0], x.r.t + x.r.v[1], x.r.t + x.r.v[2]}}).data(), (std::array<V3, 3>{{y.r.t + y.r.v[0], y.r.t + y.r.v[1], y.r.t + y.r.v[2]}}).data()) > e; else if (d.lo > e) continue;
    if (d.lo > e) continue;
    Src s; s.lo = x.lo.cwiseMax(y.lo); s.hi = x.hi.cwiseMin(y.hi); s.density = x.density * y.density; s.total = s.density * (s.hi - s.lo).prod(); may.push_back(s); if (sure) must.push_back(s); if (x.occupied && y.occupied) { contactsMay++; if (sure) contactsMust++; }
  }
  if (oct && !octoct && !approx && cost) {   // space the octree says nothing about: the missing children of cells not known to be free
    auto& o = w.A.k == A_OCT ? w.A : w.B; auto& px = w.A.k == A_OCT ? pb : pa; const T3& x = w.A.k == A_OCT ? w.a : w.b; std::vector<Leaf> cells; unknown(o.o, o.o.t->getRoot(), V3::Zero(), o.o.res * 65536, cells);
    for (auto& c : cells) { Any::Part p; p.r = c.box(x); V3 h; for (int i = 0; i < 3; i++) h[i] = p.r.h_(V3::Unit(i)), p.lo[i] = -p.r.h_(V3(-V3::Unit(i))), p.hi[i] = h[i]; for (auto& y : px) {
      bool apart = y.free_; for (int i = 0; i < 3; i++) apart |= p.lo[i] > y.hi[i] + e || y.lo[i] > p.hi[i] + e; if (apart) continue;
      double f = 1e-6 * c.s; auto d = ref::sd(p.r, y.r, 1e-6 * w.scale, y.r.k == ref::TRI); if (d.lo > e + f) continue;
      Src s; s.lo = p.lo.cwiseMax(y.lo); s.hi = p.hi.cwiseMin(y.hi); s.density = o.o.g->getOccupancyThres() * y.density; s.total = s.density * (s.hi - s.lo).prod(); may.push_back(s); if (d.hi < -e - f) { must.push_back(s); ctx.label("overlap with unknown space"); } } }
  }
  if (octoct && cost) {   // the same between two octrees, where unknown space counts with the threshold and so does whatever it meets
    std::vector<Any::Part> u[2]; for (int q = 0; q < 2; q++) { auto& o = q ? w.B.o : w.A.o; const T3& x = q ? w.b : w.a; std::vector<Leaf> cells; unknown(o, o.t->getRoot(), V3::Zero(), o.res * 65536, cells); for (auto& c : cells) { Any::Part p; p.r = c.box(x); for (int i = 0; i < 3; i++) p.hi[i] = p.r.h_(V3::Unit(i)), p.lo[i] = -p.r.h_(V3(-V3::Unit(i))); p.density = c.s; p.free_ = false; u[q].push_back(p); } }
    double dens = w.A.o.g->getOccupancyThres() * w.B.o.g->getOccupancyThres();
    auto pair = [&](const Any::Part& x, const Any::Part& y, double s) {
      for (int i = 0; i < 3; i++) if (x.lo[i] > y.hi[i] + e || y.lo[i] > x.hi[i] + e) return; if (x.free_ || y.free_) return;
      Src c; c.lo = x.lo.cwiseMax(y.lo); c.hi = x.hi.cwiseMin(y.hi); c.density = dens; c.total = dens * (c.hi - c.lo).prod(); bool maybe = s > 8 * w.scale; double f = 1e-6 * s; if (!maybe) { auto d = ref::sd(x.r, y.r, 1e-6 * w.scale, false); if (d.lo > e + f) return; if (d.hi < -e - f) { must.push_back(c); ctx.label("overlap with unknown space"); } } may.push_back(c); };
    for (auto& x : u[0]) { for (auto& y : pb) pair(x, y, x.density); for (auto& y : u[1]) pair(x, y, std::max(x.density, y.density)); } for (auto& x : pa) for (auto& y : u[1]) pair(x, y, y.density);
  }
  ctx.nontrivial(cost && !must.empty()); ctx.label(std::string(stateOf(w.A)) + "-" + stateOf(w.B) + (must.empty() ? "" : " overlapping") + (approx ? " approximate" : ""));
  auto D = [&](std::ostream& o) { o << must.size() << " certain overlaps, " << may.size() << " possible; " << r.numContacts() << " contacts, sources:"; for (auto& c : cs) { o << " ["; show(o, c.aabb_min); show(o, c.aabb_max); o << " density " << c.cost_density << " total " << c.total_cost << "]"; } o << "\n expected:"; for (auto& c : may) { o << " ["; show(o, c.lo); show(o, c.hi); o << " density " << c.density << " total " << c.total << "]"; } };
  ctx.check(r.isCollision() || contactsMust == 0, key + ":contact-missing", D); ctx.check(!r.isCollision() || contactsMay > 0, key + ":contact-not-occupied", D);
  if (!cost) { ctx.check(cs.empty(), key + ":not-asked-for", D); return; }
  ctx.check(cs.size() <= maxs, key + ":too-many", D);
  for (size_t i = 0; i < cs.size(); i++) { auto& c = cs[i]; double vol = (c.aabb_max - c.aabb_min).prod(); ctx.check(std::abs(c.total_cost - c.cost_density * vol) <= 1e-6 * (1e-3 + std::abs(c.total_cost) + (octoct ? c.cost_density * std::pow((c.aabb_max - c.aabb_min).norm(), 3) : 0)), key + ":total", D); ctx.check(i == 0 || cs[i - 1].total_cost >= c.total_cost, key + ":order", D); }
  V3 lo[2], hi[2]; for (int q = 0; q < 2; q++) { lo[q].setConstant(1e300); hi[q].setConstant(-1e300); for (auto& x : q ? pb : pa) { lo[q] = lo[q].cwiseMin(x.lo); hi[q] = hi[q].cwiseMax(x.hi); } }
  if (approx) {   // the mesh counts as one box around it
    bool fr = (w.A.k != A_OCT && w.A.g->isFree()) || (w.B.k != A_OCT && w.B.g->isFree()); if (fr) { ctx.check(cs.empty(), key + ":free", D); return; }
    if (!oct) { ctx.check(cs.size() <= 1, key + ":too-many", D); ctx.check(must.empty() || cs.size() == 1, key + ":missing", D); int q = w.A.k == A_MESH ? 1 : 0; for (auto& c : cs) { ctx.check((c.aabb_min.array() >= lo[q].array() - e).all() && (c.aabb_max.array() <= hi[q].array() + e).all(), key + ":outside-shape", D); ctx.check(std::abs(c.cost_density - w.A.g->cost_density * w.B.g->cost_density) < 1e-9, key + ":density", D); } }
    else ctx.check(must.empty() || !cs.empty(), key + ":missing", D);
    return;
  }
  // every source is one of the overlaps (or, with octrees, of unknown space)
  double minTotal = 1e300; for (auto& c : cs) { minTotal = std::min(minTotal, c.total_cost); bool ok = false; for (auto& s : may) ok |= near(s, c, e); ctx.check(ok, key + ":unexpected-source", D); }
  for (auto& s : must) { bool got = false; for (auto& c : cs) got |= near(s, c, e); if (!got && cs.size() == maxs && s.total <= minTotal * (1 + 1e-6) + 1e-9 + 6 * e * s.density * (s.hi - s.lo).squaredNorm()) continue; ctx.check(got, key + ":missing", [&](std::ostream& o) { o << "no source for the overlap "; show(o, s.lo); show(o, s.hi); o << " of density " << s.density << "; "; D(o); }); }
}
PBT_MAIN
