// C11: the bounding-volume algebra (fit, merge, contain, overlap, distance, translate, convert).
#include "gen_bv.h"
using namespace gen;

namespace {
struct Cloud { std::vector<V3> p; std::string kind; double size = 0; V3 mean() const { V3 m = V3::Zero(); for (auto& x : p) m += x; return m / p.size(); } };
Cloud cloud(Ctx& c, double s = 2) {
  Cloud k; static const int sizes[] = {1, 2, 3, 4, 6, 8, 12, 20}; int n = sizes[c.pick(8)]; int kind = c.weighted({5, 1, 2, 1, 1, 2}); V3 o = c.chance(1, 3) ? vec(c, s) : V3(0, 0, 0); if (c.chance(1, 8)) o *= 20; double e = s * c.pos_real(0.05, 1);
  V3 d1 = dir(c), d2 = dir(c);
  for (int i = 0; i < n; i++) switch (kind) {
    case 0: k.p.push_back(o + vec(c, e)); break;
    case 1: k.p.push_back(o + d1 * c.uni(-e, e)); break;                                        // on a line
    case 2: { V3 x = o + d1 * c.uni(-e, e); k.p.push_back(x + d2 * c.uni(-e, e)); break; }      // in a plane
    case 3: k.p.push_back(o); break;                                                            // one point repeated
    case 4: k.p.push_back(i % 2 && i ? k.p[c.pick(i)] : V3(o + vec(c, e))); break;              // with repetitions
    default: { V3 x = vec(c, 1); k.p.push_back(o + V3(x[0] * e, x[1] * e * 0.1, x[2] * e * 0.01)); break; }  // flat or long
  }
  static const char* names[] = {"random", "line", "plane", "point", "repeated", "flat"}; k.kind = names[kind]; for (auto& x : k.p) k.size = std::max(k.size, x.norm()); 
  return k;
}
void showCloud(std::ostream& o, const Cloud& k) { o << k.kind << " " << k.p.size() << ":"; for (auto& x : k.p) show(o, x); }
template <class B> B fitTo(const Cloud& k) { B b; fcl::fit<B>(k.p.data(), (int)k.p.size(), b); return b; }

// boundary points of a volume: from an inside point outward
template <class B> std::vector<V3> surface(Ctx& c, const B& b, const V3& in, double reach, int n) {
  std::vector<V3> r; if (out(b, in) > 0) return r;
  for (int i = 0; i < n; i++) { V3 d = dir(c); double lo = 0, hi = reach; if (out(b, in + d * hi) <= 0) continue; for (int k = 0; k < 50; k++) { double m = (lo + hi) / 2; if (out(b, in + d * m) <= 0) lo = m; else hi = m; } r.push_back(in + d * lo); }
  return r;
}
template <class B> V3 innerPoint(const B& b, const Cloud& k) { (void)b; return k.mean(); }
// points guaranteed inside b: its cloud, mixtures of it, and boundary points
template <class B> std::vector<V3> members(Ctx& c, const B& b, const Cloud& k, int n) {
  std::vector<V3> r = k.p; double R = 0; for (auto& x : k.p) R = std::max(R, (x - k.mean()).norm()); auto s = surface(c, b, k.mean(), 50 * R + 1e-3, n); r.insert(r.end(), s.begin(), s.end()); return r;
}
double scaleOf(const Cloud& a) { return a.size + 1e-9; }
const double EPS = 1e-7;

template <class B> void fitCase(Ctx& c) {
  Cloud k = cloud(c); B b = fitTo<B>(k); double tol = EPS * scaleOf(k);
  c.note([&](std::ostream& o) { o << Nm<B>::n() << " "; showCloud(o, k); });
  c.label(std::string("fit ") + Nm<B>::n()); c.nontrivial(k.p.size() > 1);
  c.check(bad(b) < 1e-6, std::string("fit:malformed:") + Nm<B>::n(), [&](std::ostream& o) { o << Nm<B>::n() << " fitted to "; showCloud(o, k); o << " has broken axes or negative sizes, error " << bad(b); });
  for (auto& x : k.p) c.check(out(b, x) <= tol, std::string("fit:point-outside:") + Nm<B>::n(), [&](std::ostream& o) { o << Nm<B>::n() << " fitted to "; showCloud(o, k); o << " leaves out "; show(o, x); o << " by " << out(b, x); });
  // not absurdly loose: no farther than a few cloud diameters
  double D = 0; for (auto& x : k.p) for (auto& y : k.p) D = std::max(D, (x - y).norm());
  V3 d = dir(c); V3 far = k.mean() + d * (4 * D + tol * 10);
  c.check(out(b, far) > 0, std::string("fit:loose:") + Nm<B>::n(), [&](std::ostream& o) { o << Nm<B>::n() << " fitted to "; showCloud(o, k); o << " (diameter " << D << ") reaches "; show(o, far); });
}
template <class B> void mergeCase(Ctx& c) {
  Cloud k1 = cloud(c), k2 = cloud(c); bool far = c.chance(1, 4); if (far) { V3 o = dir(c) * c.uni(5, 20); for (auto& x : k2.p) x += o; k2.size += 20; } B a = fitTo<B>(k1), b = fitTo<B>(k2); double tol = EPS * (scaleOf(k1) + scaleOf(k2));
  // chains of merges, as trees and refits build them
  int deep = c.pick(3); std::vector<V3> m1 = members(c, a, k1, 6), m2 = members(c, b, k2, 6); std::string how;
  for (int i = 0; i < deep; i++) { Cloud k = cloud(c); B e = fitTo<B>(k); auto m = members(c, e, k, 3); a = c.flip() ? a + e : e + a; m1.insert(m1.end(), m.begin(), m.end()); tol += EPS * scaleOf(k); }
  B r; int op = c.pick(3);
  if (op == 0) { r = a + b; how = "a+b"; m1.insert(m1.end(), m2.begin(), m2.end()); }
  else if (op == 1) { r = a; r += b; how = "a+=b"; m1.insert(m1.end(), m2.begin(), m2.end()); }
  else { r = a; how = "a+=p"; V3 p = c.chance(1, 3) ? V3(m1[c.pick((int)m1.size())]) : V3(k2.p[0]); r += p; m1.push_back(p); if (c.flip()) { V3 q = k2.p.back(); r += q; m1.push_back(q); } }
  c.note([&](std::ostream& o) { o << Nm<B>::n() << " " << how << " depth " << deep << "\n a "; showCloud(o, k1); o << "\n b "; showCloud(o, k2); });
  c.label(std::string("merge ") + Nm<B>::n()); c.nontrivial(k1.p.size() > 1);
  c.check(bad(r) < 1e-6, std::string("merge:malformed:") + Nm<B>::n() + ":" + how, [&](std::ostream& o) { o << Nm<B>::n() << " " << how << " has broken axes or negative sizes: error " << bad(r); });
  for (auto& x : m1) c.check(out(r, x) <= tol, std::string("merge:outside:") + Nm<B>::n() + ":" + how, [&](std::ostream& o) { o << Nm<B>::n() << " " << how << " of "; showCloud(o, k1); o << " and "; showCloud(o, k2); o << " leaves out "; show(o, x); o << " by " << out(r, x); });
}
ref::Shape twin(const AABB& b) { ref::Shape s; s.k = ref::BOX; s.h = (b.max_ - b.min_) / 2; s.t = (b.max_ + b.min_) / 2; return s; }
ref::Shape twin(const OBB& b) { ref::Shape s; s.k = ref::BOX; s.h = b.extent; s.t = b.To; s.R = b.axis; return s; }
ref::Shape rectTwin(const RSS& b) { ref::Shape s; s.k = ref::BOX; s.h = V3(b.l[0] / 2, b.l[1] / 2, 0); s.R = b.axis; s.t = b.To + b.axis.col(0) * (b.l[0] / 2) + b.axis.col(1) * (b.l[1] / 2); return s; }
ref::Shape twin(const RSS& b) { ref::Shape s = rectTwin(b); s.rad = b.r; return s; }
// the exact gap of two volumes as overlap() is specified to see them (positive: apart)
double gapOf(const AABB& a, const AABB& b) { double m = -ref::INF; for (int i = 0; i < 3; i++) m = std::max(m, std::max(a.min_[i] - b.max_[i], b.min_[i] - a.max_[i])); return m; }
double gapOf(const OBB& a, const OBB& b) { ref::Bounds d = ref::sd(twin(a), twin(b)); return d.lo > 0 ? d.lo : d.hi < 0 ? d.hi : 0; }
double gapOf(const RSS& a, const RSS& b) { ref::CoreDist d = ref::gjkCore(rectTwin(a), rectTwin(b), 1e-10); double m = 0.5 * (d.lo + d.hi); return m - a.r - b.r; }
double gapOf(const OBBRSS& a, const OBBRSS& b) { return gapOf(a.obb, b.obb); }
double gapOf(const kIOS& a, const kIOS& b) { double m = gapOf(a.obb, b.obb); for (unsigned i = 0; i < a.num_spheres; i++) for (unsigned j = 0; j < b.num_spheres; j++) m = std::max(m, (a.spheres[i].o - b.spheres[j].o).norm() - a.spheres[i].r - b.spheres[j].r); return m; }
template <size_t N> double gapOf(const fcl::KDOP<double, N>& a, const fcl::KDOP<double, N>& b) { double m = -ref::INF; for (size_t i = 0; i < N / 2; i++) m = std::max(m, std::max(a.dist(i) - b.dist(i + N / 2), b.dist(i) - a.dist(i + N / 2)) / kdir((int)i).norm()); return m; }
// what contain() is specified to test: OBBRSS asks its OBB, kIOS its spheres
template <class B> double coreOut(const B& b, const V3& p) { return out(b, p); }
template <> double coreOut<OBBRSS>(const OBBRSS& b, const V3& p) { return out(b.obb, p); }
template <> double coreOut<kIOS>(const kIOS& b, const V3& p) { double m = -ref::INF; for (unsigned i = 0; i < b.num_spheres; i++) m = std::max(m, nn((p - b.spheres[i].o).norm() - b.spheres[i].r)); return m; }
template <class B> bool containOf(const B& b, const V3& p) { return b.contain(p); }
template <size_t N> bool containOf(const fcl::KDOP<double, N>& b, const V3& p) { return b.inside(p); }

AABB place(const AABB& b, const T3& x, bool& ok) { ok = false; return fcl::translate(b, x.translation()); }
OBB place(const OBB& b, const T3& x, bool& ok) { ok = true; OBB r = b; r.axis = x.linear() * b.axis; r.To = x * b.To; return r; }
RSS place(const RSS& b, const T3& x, bool& ok) { ok = true; RSS r = b; r.axis = x.linear() * b.axis; r.To = x * b.To; return r; }
OBBRSS place(const OBBRSS& b, const T3& x, bool& ok) { OBBRSS r; r.obb = place(b.obb, x, ok); r.rss = place(b.rss, x, ok); return r; }
kIOS place(const kIOS& b, const T3& x, bool& ok) { kIOS r = b; r.obb = place(b.obb, x, ok); for (unsigned i = 0; i < r.num_spheres; i++) r.spheres[i].o = x * b.spheres[i].o; return r; }
template <size_t N> fcl::KDOP<double, N> place(const fcl::KDOP<double, N>& b, const T3& x, bool& ok) { ok = false; return fcl::translate(b, x.translation()); }

template <class B> bool overlapRT(const T3& x, const B& a, const B& b) { return fcl::overlap(x.linear(), x.translation(), a, b); }
template <> bool overlapRT<AABB>(const T3&, const AABB& a, const AABB& b) { return a.overlap(b); }
template <> bool overlapRT<K16>(const T3&, const K16& a, const K16& b) { return a.overlap(b); }
template <> bool overlapRT<K18>(const T3&, const K18& a, const K18& b) { return a.overlap(b); }
template <> bool overlapRT<K24>(const T3&, const K24& a, const K24& b) { return a.overlap(b); }

template <class B> void overlapPart(const B& a, const B& b, bool want, Ctx& c, const std::string& n) { B part; c.check(a.overlap(b, part) == want, n + ":overlap-part-verdict", [&](std::ostream& o) { o << n << " overlap(other, part) disagrees with overlap(other)"; }); }
template <size_t N> void overlapPart(const fcl::KDOP<double, N>&, const fcl::KDOP<double, N>&, bool, Ctx&, const std::string&) {}
template <class B> void overlapCase(Ctx& c) {
  Cloud k1 = cloud(c), k2 = cloud(c); if (c.flip()) { V3 o = dir(c) * c.uni(0, 4); for (auto& x : k2.p) x += o; k2.size += 4; }
  B a = fitTo<B>(k1), b = fitTo<B>(k2); std::string n = Nm<B>::n(); double tol = 1e-6 * (scaleOf(k1) + scaleOf(k2));
  if (bad(a) > 1e-6 || bad(b) > 1e-6) c.discard("malformed (reported by fit)");
  double g = gapOf(a, b);
  c.note([&](std::ostream& o) { o << n << "\n a "; showCloud(o, k1); o << "\n b "; showCloud(o, k2); o << "\n gap " << g; });
  c.label("overlap " + n); c.nontrivial(std::abs(g) > tol && k1.p.size() > 1);
  auto ver = [&](bool got, double g_, const char* what) {
    if (g_ > tol) c.check(!got, n + ":overlap-of-disjoint:" + what, [&](std::ostream& o) { o << n << " " << what << " true although the volumes are " << g_ << " apart: "; showCloud(o, k1); o << " | "; showCloud(o, k2); });
    if (g_ < -tol) c.check(got, n + ":no-overlap-of-overlapping:" + what, [&](std::ostream& o) { o << n << " " << what << " false although the volumes overlap by " << -g_ << ": "; showCloud(o, k1); o << " | "; showCloud(o, k2); });
  };
  ver(a.overlap(b), g, "overlap"); overlapPart(a, b, a.overlap(b), c, n); ver(b.overlap(a), g, "overlap-swapped");
  T3 x = pose(c, 2); bool ok; B bx = place(b, x, ok);
  if (ok) { double gx = gapOf(a, bx); ver(overlapRT(x, a, b), gx, "overlap(R,T)"); }
  // translate moves every member point
  V3 t = vec(c, 3); B bt = fcl::translate(b, t); auto m = members(c, b, k2, 4);
  for (auto& p : m) c.check(out(bt, p + t) <= tol, n + ":translate", [&](std::ostream& o) { o << n << " translated by "; show(o, t); o << " does not contain a translated member of "; showCloud(o, k2); o << " by " << out(bt, p + t); });
  V3 d = dir(c); V3 off = k2.mean() + d * (scaleOf(k2) * c.uni(0, 2)); double oo = out(b, off), ot = out(bt, off + t);
  c.check(std::abs(oo - ot) <= tol, n + ":translate-shape", [&](std::ostream& o) { o << n << " of "; showCloud(o, k2); o << " changed shape when translated by "; show(o, t); o << ": " << oo << " vs " << ot; });
  // contain
  for (int i = 0; i < 4; i++) {
    V3 p = i == 0 ? V3(m[c.pick((int)m.size())]) : V3(k1.mean() + dir(c) * (scaleOf(k1) * c.uni(0, 1.5))); double q = coreOut(a, p);
    if (i == 1) { p = k1.p[c.pick((int)k1.p.size())]; V3 e = p - k1.mean(); p = k1.mean() + e * (c.flip() ? 0.9 : 1.3); q = coreOut(a, p); }
    bool got = containOf(a, p);
    if (q > tol) c.check(!got, n + ":contain-outside", [&](std::ostream& o) { o << n << " of "; showCloud(o, k1); o << " claims to contain "; show(o, p); o << " which is " << q << " outside"; });
    if (q < -tol) c.check(got, n + ":not-contain-inside", [&](std::ostream& o) { o << n << " of "; showCloud(o, k1); o << " denies containing "; show(o, p); o << " which is " << -q << " inside"; });
  }
}
// point of the box nearest / membership helpers
double outRect(const RSS& b, const V3& p) { RSS c = b; c.r = 0; return out(c, p); }

template <class B> void dist(Ctx&);
template <> void dist<AABB>(Ctx& c) {
  Cloud k1 = cloud(c), k2 = cloud(c); V3 o_ = dir(c) * c.uni(0, 5); for (auto& x : k2.p) x += o_; AABB a = fitTo<AABB>(k1), b = fitTo<AABB>(k2); double tol = 1e-9 * (scaleOf(k1) + scaleOf(k2) + 10);
  double e = boxGap(a.min_, a.max_, b.min_, b.max_), d = a.distance(b); V3 P, Q; P.setConstant(NAN); Q = P; double d2 = a.distance(b, &P, &Q);
  c.note([&](std::ostream& o) { o << "AABB "; showCloud(o, k1); o << " | "; showCloud(o, k2); }); c.label("distance AABB"); c.nontrivial(e > 0);
  c.check(std::abs(d - e) <= tol && std::abs(d2 - e) <= tol, "AABB:distance", [&](std::ostream& o) { o << "AABB distances " << d << ", " << d2 << " but the boxes are " << e << " apart: "; showCloud(o, k1); o << " | "; showCloud(o, k2); });
  c.check(out(a, P) <= tol && out(b, Q) <= tol && std::abs((P - Q).norm() - e) <= tol, "AABB:nearest", [&](std::ostream& o) { o << "AABB nearest points "; show(o, P); show(o, Q); o << " for a distance of " << e << ": "; showCloud(o, k1); o << " | "; showCloud(o, k2); });
}
void rssDist(Ctx& c, const std::string& n, const RSS& a, const RSS& b, const T3& x, double d, bool pts, const V3& P, const V3& Q, double sc) {
  bool ok; RSS bx = place(b, x, ok); double e = std::max(0.0, gapOf(a, bx)), tol = 1e-6 * sc; c.nontrivial(e > tol);
  auto desc = [&](std::ostream& o) { o << " l " << a.l[0] << "," << a.l[1] << " r " << a.r << " / l " << b.l[0] << "," << b.l[1] << " r " << b.r << " relative pose "; show(o, x); };
  c.check(d <= e + tol && d >= e - 1e-4 * sc, n + ":distance", [&](std::ostream& o) { o << n << " distance " << d << " but the volumes are " << e << " apart;"; desc(o); });
  if (pts && e > 2e-4 * sc) {     // points of the two rectangles, in the frame of the first
    V3 p = a.axis * P + a.To, q = a.axis * Q + a.To;
    c.check(outRect(a, p) <= 10 * tol && outRect(bx, q) <= 10 * tol && std::abs((p - q).norm() - a.r - b.r - e) <= 10 * tol, n + ":nearest", [&](std::ostream& o) { o << n << " nearest points "; show(o, p); show(o, q); o << " are off their rectangles by " << outRect(a, p) << ", " << outRect(bx, q) << " and give " << (p - q).norm() - a.r - b.r << " for a distance of " << e << ";"; desc(o); });
  }
}
template <> void dist<RSS>(Ctx& c) {
  RSS a, b; double sc = 10;
  auto rnd = [&](RSS& r) { int k = c.pick(4); r.axis = rot(c); r.To = vec(c, 2); r.l[0] = k == 1 ? 0 : c.pos_real(0.05, 3); r.l[1] = k == 1 || k == 2 ? 0 : c.uni(0, r.l[0]); r.r = c.chance(1, 3) ? 0 : c.uni(0, 1); };
  rnd(a); rnd(b); T3 x = c.flip() ? T3(T3::Identity()) : pose(c, 4); V3 P, Q; bool pts = c.chance(3, 4); double d;
  bool I = x.isApprox(T3::Identity(), 0); P.setZero(); Q.setZero();
  if (I && c.flip()) d = a.distance(b, pts ? &P : 0, pts ? &Q : 0); else d = fcl::distance(x.linear(), x.translation(), a, b, pts ? &P : 0, pts ? &Q : 0);
  c.label("distance RSS"); rssDist(c, "RSS", a, b, x, d, pts, P, Q, sc);
}
template <> void dist<OBBRSS>(Ctx& c) {
  Cloud k1 = cloud(c), k2 = cloud(c); OBBRSS a = fitTo<OBBRSS>(k1), b = fitTo<OBBRSS>(k2); T3 x = c.chance(1, 3) ? T3(T3::Identity()) : pose(c, 5); if (bad(a) > 1e-6 || bad(b) > 1e-6) c.discard("malformed");
  V3 P = V3::Zero(), Q = P; double d; int how = c.pick(2); if (how == 0 && x.isApprox(T3::Identity(), 0)) d = a.distance(b, &P, &Q); else d = fcl::distance(x.linear(), x.translation(), a, b, &P, &Q);
  c.note([&](std::ostream& o) { o << "OBBRSS "; showCloud(o, k1); o << " | "; showCloud(o, k2); }); c.label("distance OBBRSS"); rssDist(c, "OBBRSS", a.rss, b.rss, x, d, true, P, Q, scaleOf(k1) + scaleOf(k2) + 5);
}
template <> void dist<kIOS>(Ctx& c) {
  Cloud k1 = cloud(c), k2 = cloud(c); kIOS a = fitTo<kIOS>(k1), b = fitTo<kIOS>(k2); T3 x = c.chance(1, 3) ? T3(T3::Identity()) : pose(c, 6);
  double d = c.flip() ? fcl::distance(x.linear(), x.translation(), a, b) : fcl::distance(x, a, b); double lo = ref::INF; if (bad(a) > 1e-6 || bad(b) > 1e-6) c.discard("malformed");
  for (auto& p : k1.p) for (auto& q : k2.p) lo = std::min(lo, (p - x * q).norm());
  bool ok; kIOS bx = place(b, x, ok); double sph = 0; for (unsigned i = 0; i < a.num_spheres; i++) for (unsigned j = 0; j < b.num_spheres; j++) sph = std::max(sph, (a.spheres[i].o - bx.spheres[j].o).norm() - a.spheres[i].r - b.spheres[j].r);
  c.note([&](std::ostream& o) { o << "kIOS "; showCloud(o, k1); o << " | "; showCloud(o, k2); }); c.label("distance kIOS"); c.nontrivial(d > 0); double tol = 1e-6 * (scaleOf(k1) + scaleOf(k2) + 6);
  c.check(d >= 0 && d <= lo + tol, "kIOS:distance-too-large", [&](std::ostream& o) { o << "kIOS distance " << d << " exceeds the distance " << lo << " of the enclosed points: "; showCloud(o, k1); o << " | "; showCloud(o, k2); o << " at "; show(o, x); });
  c.check(std::abs(d - sph) <= tol, "kIOS:distance", [&](std::ostream& o) { o << "kIOS distance " << d << " is not that of its spheres, " << sph << ": "; showCloud(o, k1); o << " | "; showCloud(o, k2); o << " at "; show(o, x); });
}
template <class A, class B> void conv(Ctx& c) {
  Cloud k = cloud(c); A a = fitTo<A>(k); if (bad(a) > 1e-6) c.discard("malformed"); T3 x = pose(c, 3); B b; fcl::convertBV(a, x, b); double tol = EPS * (scaleOf(k) + 5); std::string n = std::string(Nm<A>::n()) + "->" + Nm<B>::n();
  c.label("convert " + n); c.nontrivial(k.p.size() > 1); c.note([&](std::ostream& o) { o << n << " "; showCloud(o, k); o << " at "; show(o, x); });
  for (auto& p : members(c, a, k, 8)) c.check(out(b, x * p) <= tol, "convert:outside:" + n, [&](std::ostream& o) { o << n << " of the volume of "; showCloud(o, k); o << " posed at "; show(o, x); o << " leaves out "; show(o, V3(x * p)); o << " by " << out(b, x * p); });
}
}  // namespace

#define EACH(f) switch (ctx.pick(8)) { case 0: f<AABB>(ctx); break; case 1: f<OBB>(ctx); break; case 2: f<RSS>(ctx); break; case 3: f<OBBRSS>(ctx); break; case 4: f<kIOS>(ctx); break; case 5: f<K16>(ctx); break; case 6: f<K18>(ctx); break; default: f<K24>(ctx); }
PBT(C11, "fit", 40000, 1500000) { EACH(fitCase) }
PBT(C11, "merge", 40000, 1500000) { EACH(mergeCase) }
PBT(C11, "overlap", 40000, 1500000) { EACH(overlapCase) }
PBT(C11, "distance", 40000, 1500000) { switch (ctx.weighted({1, 4, 3, 2})) { case 0: dist<AABB>(ctx); break; case 1: dist<RSS>(ctx); break; case 2: dist<OBBRSS>(ctx); break; default: dist<kIOS>(ctx); } }
PBT(C11, "convert", 40000, 1500000) {
  switch (ctx.pick(20)) {
    case 0: conv<AABB, AABB>(ctx); break; case 1: conv<OBB, AABB>(ctx); break; case 2: conv<RSS, AABB>(ctx); break; case 3: conv<OBBRSS, AABB>(ctx); break; case 4: conv<kIOS, AABB>(ctx); break;
    case 5: conv<K16, AABB>(ctx); break; case 6: conv<K18, AABB>(ctx); break; case 7: conv<K24, AABB>(ctx); break;
    case 8: conv<AABB, OBB>(ctx); break; case 9: conv<OBB, OBB>(ctx); break; case 10: conv<RSS, OBB>(ctx); break; case 11: conv<OBBRSS, OBB>(ctx); break; case 12: conv<kIOS, OBB>(ctx); break;
    case 13: conv<K16, OBB>(ctx); break; case 14: conv<K18, OBB>(ctx); break; case 15: conv<K24, OBB>(ctx); break;
    case 16: conv<AABB, RSS>(ctx); break; case 17: conv<OBB, RSS>(ctx); break; case 18: conv<RSS, RSS>(ctx); break; default: conv<OBBRSS, RSS>(ctx);
  }
}
PBT(C11, "aabb", 30000, 1000000) {
  Cloud k1 = cloud(ctx), k2 = cloud(ctx); AABB a = fitTo<AABB>(k1), b = fitTo<AABB>(k2); double tol = 1e-9 * (scaleOf(k1) + scaleOf(k2));
  ctx.nontrivial(k1.p.size() > 1); auto desc = [&](std::ostream& o) { showCloud(o, k1); o << " | "; showCloud(o, k2); }; ctx.note(desc);
  V3 lo = k1.p[0], hi = lo; for (auto& p : k1.p) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); } V3 lo2 = k2.p[0], hi2 = lo2; for (auto& p : k2.p) { lo2 = lo2.cwiseMin(p); hi2 = hi2.cwiseMax(p); }
  ctx.check(a.min_ == lo && a.max_ == hi, "aabb:fit-tight", desc);
  AABB part; bool ov = a.overlap(b, part); bool want = true; for (int i = 0; i < 3; i++) want = want && lo[i] <= hi2[i] && lo2[i] <= hi[i];
  ctx.check(ov == want && a.overlap(b) == want, "aabb:overlap", desc);
  for (int i = 0; i < 3; i++) ctx.check(a.axisOverlap(b, i) == (lo[i] <= hi2[i] && lo2[i] <= hi[i]), "aabb:axisOverlap", desc);
  if (want) ctx.check(part.min_ == V3(lo.cwiseMax(lo2)) && part.max_ == V3(hi.cwiseMin(hi2)), "aabb:overlap-part", desc);
  bool in = true; for (int i = 0; i < 3; i++) in = in && lo[i] <= lo2[i] && hi2[i] <= hi[i]; ctx.check(a.contain(b) == in, "aabb:contain-box", desc); ctx.check((a + b).contain(a) && (a + b).contain(b), "aabb:merge-contain", desc);
  ctx.check((a + b).equal(b + a), "aabb:merge-commutes", desc);
  ctx.check((a.center() - (lo + hi) / 2).norm() <= tol && std::abs(a.width() - (hi - lo)[0]) <= tol && std::abs(a.height() - (hi - lo)[1]) <= tol && std::abs(a.depth() - (hi - lo)[2]) <= tol, "aabb:measures", desc);
  ctx.check(std::abs(a.radius() - (hi - lo).norm() / 2) <= tol && std::abs(a.volume() - (hi - lo).prod()) <= tol * (1 + (hi - lo).squaredNorm()), "aabb:radius-volume", desc); ctx.check(std::abs(a.size() - (hi - lo).squaredNorm()) <= tol * (1 + (hi - lo).norm()), "aabb:size", desc);
  V3 d = vec(ctx, 1).cwiseAbs(); AABB e = a; e.expand(d); ctx.check((e.min_ - (lo - d)).norm() <= tol && (e.max_ - (hi + d)).norm() <= tol, "aabb:expand", desc);
  AABB e2(a, d); ctx.check(e2.equal(e), "aabb:ctor-delta", desc); AABB e3(lo, hi); ctx.check(e3.equal(a), "aabb:ctor-two", desc);
  if (k1.p.size() == 3) { AABB e4(k1.p[0], k1.p[1], k1.p[2]); ctx.check(e4.equal(a), "aabb:ctor-three", desc); }
  AABB g(k1.p[0]); for (auto& p : k1.p) g += p; ctx.check(g.equal(a), "aabb:incremental", desc); AABB emp; emp += a; ctx.check(emp.equal(a), "aabb:empty-neutral", desc);
}
PBT(C11, "measures", 30000, 1000000) {
  Cloud k = cloud(ctx); auto desc = [&](std::ostream& o) { showCloud(o, k); }; ctx.note(desc); ctx.nontrivial(k.p.size() > 1); double tol = 1e-9 * (1 + scaleOf(k) * scaleOf(k) * scaleOf(k));
  OBB o = fitTo<OBB>(k); RSS r = fitTo<RSS>(k); OBBRSS q = fitTo<OBBRSS>(k); K18 d = fitTo<K18>(k); kIOS s = fitTo<kIOS>(k);
  if (bad(o) < 1e-6) {
    ctx.check(std::abs(o.width() - 2 * o.extent[0]) <= tol && std::abs(o.height() - 2 * o.extent[1]) <= tol && std::abs(o.depth() - 2 * o.extent[2]) <= tol && (o.center() - o.To).norm() <= tol && std::abs(o.volume() - 8 * o.extent.prod()) <= tol, "obb:measures", desc);
    V3 v[8]; fcl::computeVertices(o, v); for (int i = 0; i < 8; i++) { for (int a = 0; a < 3; a++) ctx.check(std::abs(std::abs(o.axis.col(a).dot(v[i] - o.To)) - o.extent[a]) <= tol, "obb:vertices", desc); }
    ctx.check(q.size() == q.obb.size() && std::abs(q.width() - q.obb.width()) <= tol && std::abs(q.height() - q.obb.height()) <= tol && std::abs(q.depth() - q.obb.depth()) <= tol && (q.center() - q.obb.center()).norm() <= tol, "obbrss:measures", desc);
  }
  if (bad(r) < 1e-6) {
    ctx.check(std::abs(r.width() - r.l[0] - 2 * r.r) <= tol && std::abs(r.height() - r.l[1] - 2 * r.r) <= tol && std::abs(r.depth() - 2 * r.r) <= tol, "rss:measures", desc);
    double vol = 2 * r.r * r.l[0] * r.l[1] + M_PI * r.r * r.r * (r.l[0] + r.l[1]) + 4.0 / 3 * M_PI * r.r * r.r * r.r;
    ctx.check(std::abs(r.volume() - vol) <= tol + 1e-9 * vol, "rss:volume", [&](std::ostream& x) { x << "RSS with sides " << r.l[0] << "," << r.l[1] << " and radius " << r.r << " has volume " << vol << ", reported " << r.volume(); });
    V3 ce = r.To + r.axis * V3(r.l[0] / 2, r.l[1] / 2, 0); ctx.check((r.center() - ce).norm() <= tol, "rss:center", desc);
    RSS t = r; t.setToFromCenter(ce); ctx.check((t.To - r.To).norm() <= tol, "rss:setToFromCenter", desc);
  }
  // sizes (what the splitters and the recursion order volumes by): squared half diagonal, squared diagonal, diameter, volume
  double st = tol * (1 + scaleOf(k)); ctx.check(std::abs(o.size() - o.extent.squaredNorm()) <= st, "obb:size", desc); ctx.check(std::abs(r.size() - std::hypot(r.l[0], r.l[1]) - 2 * r.r) <= st, "rss:size", desc); ctx.check(std::abs(q.volume() - q.obb.volume()) <= st && std::abs(q.size() - q.obb.size()) <= st, "obbrss:size", desc);
  ctx.check(std::abs(d.size() - d.width() * d.width() - d.height() * d.height() - d.depth() * d.depth()) <= st, "kdop:size", desc);
  ctx.check(std::abs(s.volume() - s.obb.volume()) <= st && std::abs(s.size() - s.volume()) <= st && std::abs(s.width() - s.obb.width()) <= st && std::abs(s.height() - s.obb.height()) <= st && std::abs(s.depth() - s.obb.depth()) <= st, "kios:extents", desc);
  V3 lo = k.p[0], hi = lo; for (auto& p : k.p) { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); }
  ctx.check(std::abs(d.width() - (hi - lo)[0]) <= tol && std::abs(d.height() - (hi - lo)[1]) <= tol && std::abs(d.depth() - (hi - lo)[2]) <= tol && (d.center() - (lo + hi) / 2).norm() <= tol, "kdop:measures", desc);
  for (int i = 0; i < 9; i++) { double l = ref::INF, h = -l; for (auto& p : k.p) { l = std::min(l, kdir(i).dot(p)); h = std::max(h, kdir(i).dot(p)); } ctx.check(std::abs(d.dist(i) - l) <= tol && std::abs(d.dist(i + 9) - h) <= tol, "kdop:tight", desc); }
  auto kdopCtors = [&](auto z, const char* n) {
    typedef decltype(z) K; K one(k.p[0]), two(k.p[0], k.p.back()), none; K sum = none; for (auto& p : k.p) sum += p; K fitd = fitTo<K>(k); K pair = none; pair += k.p[0]; pair += k.p.back(); bool same1 = true, same2 = true, same3 = true; K first = none; first += k.p[0];
    int h = std::is_same<K, K16>::value ? 8 : std::is_same<K, K18>::value ? 9 : 12;
    for (int i = 0; i < 2 * h; i++) { double v = kdir(i % h).dot(k.p[0]); same1 = same1 && std::abs(one.dist(i) - v) <= tol && std::abs(first.dist(i) - v) <= tol; same2 = same2 && std::abs(two.dist(i) - pair.dist(i)) <= tol; same3 = same3 && std::abs(fitd.dist(i) - sum.dist(i)) <= tol; }
    ctx.check(same1, std::string("kdop:one-point:") + n, desc); ctx.check(same2, std::string("kdop:two-points:") + n, desc); ctx.check(same3, std::string("kdop:incremental:") + n, desc);
    ctx.check(std::abs(fitd.volume() - (hi - lo).prod()) <= tol * (1 + (hi - lo).squaredNorm()), std::string("kdop:volume:") + n, desc); };
  kdopCtors(K16(), "16"); kdopCtors(K18(), "18"); kdopCtors(K24(), "24");
  ctx.check(s.num_spheres >= 1 && s.num_spheres <= 5 && (s.center() - s.spheres[0].o).norm() <= tol, "kios:measures", desc);
}
// the two low-level tests under the oriented volumes, in both calling forms (matrix + vector, transform)
PBT(C11, "kernels", 60000, 2000000) {
  auto ext = [&](double s) { switch (ctx.weighted({6, 1, 2})) { case 0: return s * ctx.pos_real(0.02, 1); case 1: return 0.0; default: return s * (1 + ctx.pick(2)); } };
  T3 x = pose(ctx, 1); V3 a(ext(2), ext(2), ext(2)), b(ext(2), ext(2), ext(2)); double reach = a.norm() + b.norm() + 0.1; x.translation() = dir(ctx) * reach * (ctx.chance(1, 8) ? 0.0 : ctx.uni(0, 1.3)); if (ctx.chance(1, 6)) x.translation()[ctx.pick(3)] = 0;
  auto desc = [&](std::ostream& o) { o << "sizes "; show(o, a); show(o, b); o << " relative pose "; show(o, x); }; ctx.note(desc);
  OBB A, B; A.axis.setIdentity(); A.To.setZero(); A.extent = a; B.axis = x.linear(); B.To = x.translation(); B.extent = b; double g = gapOf(A, B), tol = 2e-5 * reach;   // the separating-axis test adds 1e-6 to every projection
  bool d1 = fcl::obbDisjoint(M3(x.linear()), V3(x.translation()), a, b), d2 = fcl::obbDisjoint(x, a, b);
  if (g > tol) ctx.check(d1 && d2, "obbDisjoint:false-of-disjoint", [&](std::ostream& o) { o << "obbDisjoint " << d1 << " (matrix form) " << d2 << " (transform form), boxes " << g << " apart: "; desc(o); });
  if (g < -tol) ctx.check(!d1 && !d2, "obbDisjoint:true-of-overlapping", [&](std::ostream& o) { o << "obbDisjoint " << d1 << " (matrix form) " << d2 << " (transform form), boxes overlap by " << -g << ": "; desc(o); });
  ctx.check(d1 == d2, "obbDisjoint:forms-differ", desc); ctx.nontrivial(std::abs(g) > tol);
  RSS ra, rb; ra.axis.setIdentity(); ra.To.setZero(); ra.l[0] = a[0]; ra.l[1] = a[1]; ra.r = 0; rb.axis = x.linear(); rb.To = x.translation(); rb.l[0] = b[0]; rb.l[1] = b[1]; rb.r = 0; double e = std::max(0.0, gapOf(ra, rb)), t2 = 1e-6 * reach;
  V3 P[2], Q[2]; double d[4]; d[0] = fcl::rectDistance(M3(x.linear()), V3(x.translation()), ra.l, rb.l, &P[0], &Q[0]); d[1] = fcl::rectDistance(x, ra.l, rb.l, &P[1], &Q[1]); d[2] = fcl::rectDistance(M3(x.linear()), V3(x.translation()), ra.l, rb.l); d[3] = fcl::rectDistance(x, ra.l, rb.l);
  for (int i = 0; i < 4; i++) ctx.check(d[i] <= e + t2 && d[i] >= e - 1e-4 * reach, std::string("rectDistance:") + (i % 2 ? "transform" : "matrix"), [&](std::ostream& o) { o << "rectDistance " << d[i] << " (form " << i << ") but the rectangles are " << e << " apart: "; desc(o); });
  if (e > 2e-4 * reach) for (int i = 0; i < 2; i++) ctx.check(outRect(ra, P[i]) <= 10 * t2 && outRect(rb, Q[i]) <= 10 * t2 && std::abs((P[i] - Q[i]).norm() - e) <= 1.1e-4 * reach, std::string("rectDistance:points:") + (i ? "transform" : "matrix"), [&](std::ostream& o) { o << "rectDistance points "; show(o, P[i]); show(o, Q[i]); o << " are off their rectangles by " << outRect(ra, P[i]) << ", " << outRect(rb, Q[i]) << " for a distance of " << e << ": "; desc(o); });
}
PBT_MAIN
