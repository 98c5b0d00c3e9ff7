// C20 mass properties, C21 convex polytopes (extreme vertices, validation, textual form), C22 triangle meshes made from shapes.
#include "gen_mesh.h"
#include <map>
#include <set>
#include "fcl/math/bv/utility.h"
#include "fcl/geometry/geometric_shape_to_BVH_model.h"
using namespace gen;

namespace {
struct Quiet { Quiet() { std::cerr.setstate(std::ios::failbit); } } quiet;   // Convex reports bad topology on stderr
struct Mass { double V = 0; V3 m1 = V3::Zero(); M3 m2 = M3::Zero(); V3 com() const { return m1 / V; } M3 inertia() const { return M3(M3::Identity() * m2.trace() - m2); }
  M3 inertiaCom() const { V3 g = com(); M3 C = m2 - V * g * g.transpose(); return M3(M3::Identity() * C.trace() - C); } };
// a cross-section at height z: ellipse with half axes a, b, or rectangle
Mass sections(std::function<void(double, double&, double&)> half, bool rect, const std::vector<double>& zs) {
  Mass r; static const double x[5] = {0, 0.5384693101056831, -0.5384693101056831, 0.9061798459386640, -0.9061798459386640}, w[5] = {0.5688888888888889, 0.4786286704993665, 0.4786286704993665, 0.2369268850561891, 0.2369268850561891};
  for (size_t i = 0; i + 1 < zs.size(); i++) for (int k = 0; k < 5; k++) { double z = (zs[i] + zs[i + 1]) / 2 + x[k] * (zs[i + 1] - zs[i]) / 2, q = w[k] * (zs[i + 1] - zs[i]) / 2, a, b; half(z, a, b); double A = rect ? 4 * a * b : M_PI * a * b, f = rect ? 1.0 / 3 : 0.25; r.V += q * A; r.m1[2] += q * A * z; r.m2(0, 0) += q * A * a * a * f; r.m2(1, 1) += q * A * b * b * f; r.m2(2, 2) += q * A * z * z; }
  return r;
}
Mass polyhedron(const std::vector<V3>& v, const std::vector<std::array<int, 3>>& f) {   // tetrahedra from a vertex
  Mass r; V3 o = v[0];
  for (auto& t : f) { V3 a = v[t[0]] - o, b = v[t[1]] - o, c = v[t[2]] - o; double V = a.dot(b.cross(c)) / 6; V3 p[4] = {o, v[t[0]], v[t[1]], v[t[2]]}; V3 g = (p[0] + p[1] + p[2] + p[3]) / 4; r.V += V; r.m1 += V * g; M3 S = M3::Zero(); for (auto& q : p) S += (q - g) * (q - g).transpose(); r.m2 += V * (g * g.transpose() + S / 20); }
  return r;
}
bool close(const M3& a, const M3& b, double tol) { return (a - b).cwiseAbs().maxCoeff() <= tol; }
std::vector<std::array<int, 3>> tris(const Hull& H) { std::vector<std::array<int, 3>> r; for (auto& f : H.f) for (size_t i = 1; i + 1 < f.size(); i++) r.push_back({{f[0], f[i], f[i + 1]}}); return r; }
void judge(Ctx& ctx, const fcl::CollisionGeometryd& g, const Mass& m, double size, double mass, const std::string& nm, const std::string& desc) {
  double V = g.computeVolume(); V3 com = g.computeCOM(); M3 I = g.computeMomentofInertia(), Ic = g.computeMomentofInertiaRelatedToCOM(); double s3 = size * size * size;
  auto D = [&](std::ostream& o) { o << desc << ": volume " << V << " (expected " << m.V << "), centre "; show(o, com); o << " (expected "; show(o, m.com()); o << "), inertia " << I.row(0) << " | " << I.row(1) << " | " << I.row(2) << " about the centre " << Ic.row(0) << " | " << Ic.row(1) << " | " << Ic.row(2) << "; expected " << mass * m.inertia().diagonal().transpose() << " and " << mass * m.inertiaCom().diagonal().transpose(); };
  ctx.check(std::abs(V - m.V) <= 1e-6 * m.V + 1e-11 * s3, nm + ":volume", D); double amp = s3 / m.V;   // cancellation for thin bodies far from the origin
  ctx.check((com - m.com()).norm() <= 1e-6 * size + 1e-12 * amp * size, nm + ":centre-of-mass", D);
  double scale = mass * m.V * size * size; ctx.check(close(I, M3(mass * m.inertia()), 1e-6 * scale + 1e-12 * amp * scale), nm + ":inertia", D);
  ctx.check(close(Ic, M3(mass * m.inertiaCom()), 1e-6 * scale + 1e-11 * amp * scale), nm + ":inertia-about-centre", D);
}
}  // namespace

PBT(C20, "mass", 8000, 200000) {
  int k = ctx.weighted({1, 1, 1, 1, 1, 1, 4, 4}); ctx.nontrivial(true); Mass m; std::string desc; auto lin = [](double lo, double hi, int n) { std::vector<double> z; for (int i = 0; i <= n; i++) z.push_back(lo + (hi - lo) * i / n); return z; };
  double lo = 0.1, hi = 3; if (ctx.chance(1, 3)) { double f = std::pow(10, ctx.uni(-3, 2)); lo *= f; hi *= f; }
  if (k < 6) {
    static const Kind ks[] = {ref::BOX, ref::SPHERE, ref::ELLIPSOID, ref::CAPSULE, ref::CYLINDER, ref::CONE}; Shape s = shape(ctx, ks[k], lo, hi); auto& r = s.r; ctx.note([&](std::ostream& o) { o << s.desc; });
    switch (ks[k]) {
      case ref::BOX: m = sections([&](double, double& a, double& b) { a = r.h[0]; b = r.h[1]; }, true, lin(-r.h[2], r.h[2], 1)); break;
      case ref::SPHERE: m = sections([&](double z, double& a, double& b) { a = b = std::sqrt(r.rad * r.rad - z * z); }, false, lin(-r.rad, r.rad, 2)); break;
      case ref::ELLIPSOID: m = sections([&](double z, double& a, double& b) { double q = std::sqrt(1 - z * z / (r.h[2] * r.h[2])); a = r.h[0] * q; b = r.h[1] * q; }, false, lin(-r.h[2], r.h[2], 2)); break;
      case ref::CAPSULE: m = sections([&](double z, double& a, double& b) { double q = std::max(0.0, std::abs(z) - r.lz / 2); a = b = std::sqrt(r.rad * r.rad - q * q); }, false, {-r.lz / 2 - r.rad, -r.lz / 2, r.lz / 2, r.lz / 2 + r.rad}); break;
      case ref::CYLINDER: m = sections([&](double, double& a, double& b) { a = b = r.r; }, false, lin(-r.lz / 2, r.lz / 2, 1)); break;
      default: m = sections([&](double z, double& a, double& b) { a = b = r.r * (0.5 - z / r.lz); }, false, lin(-r.lz / 2, r.lz / 2, 1)); break;
    }
    judge(ctx, *s.g, m, r.size() + r.rad, 1, kindName(ks[k]), s.desc);
  } else {
    Hull H = ctx.chance(1, 4) ? bigHull(ctx, lo, hi) : randomHull(ctx, lo, hi); auto f = tris(H); if (ctx.chance(1, 3)) { V3 o = vec(ctx, 3 * hi); for (auto& v : H.v) v += o; } if (ctx.chance(1, 2)) { M3 R = rot(ctx); for (auto& v : H.v) v = R * v; }
    m = polyhedron(H.v, f); double size = 0; for (auto& v : H.v) size = std::max(size, v.norm()); std::ostringstream o; o << (k == 6 ? "convex" : "mesh") << " of " << H.v.size() << " vertices, " << H.f.size() << " faces"; desc = o.str(); ctx.note([&](std::ostream& q) { q << desc << ":"; for (auto& v : H.v) show(q, v); });
    if (k == 6) judge(ctx, *makeConvex(H), m, size, 1 / m.V, "convex", desc);     // fcl documents unit mass in its tests for Convex, unit density elsewhere
    else { fcl::BVHModel<fcl::OBBd> g; std::vector<fcl::Triangle> t; for (auto& x : f) t.push_back(fcl::Triangle(x[0], x[1], x[2])); g.beginModel(); g.addSubModel(H.v, t); g.endModel(); judge(ctx, g, m, size, 1, "mesh", desc); }
  }
}

// ---- convex polytopes ----------------------------------------------------------
PBT(C21, "extreme_vertex", 8000, 200000) {
  Hull H = ctx.chance(3, 4) ? bigHull(ctx, 0.1, 3) : randomHull(ctx, 0.1, 3); auto g = makeConvex(H); ctx.nontrivial(H.v.size() > 32); auto f = tris(H);
  ctx.note([&](std::ostream& o) { o << H.v.size() << " vertices:"; for (auto& v : H.v) show(o, v); o << " faces"; for (auto& q : H.f) { o << " ["; for (int i : q) o << i << " "; o << "]"; } });
  double size = 0; for (auto& v : H.v) size = std::max(size, v.norm());
  for (int i = 0; i < 12; i++) {
    V3 d; int k = ctx.pick(5); if (k == 0) d = dir(ctx); else if (k == 1) { auto& t = f[ctx.pick((int)f.size())]; d = (H.v[t[1]] - H.v[t[0]]).cross(H.v[t[2]] - H.v[t[0]]); if (ctx.flip()) d = -d; } else if (k == 2) { auto& t = f[ctx.pick((int)f.size())]; d = H.v[t[1]] - H.v[t[0]]; } else if (k == 3) d = V3::Unit(ctx.pick(3)) * (ctx.flip() ? 1 : -1); else d = dir(ctx) * ctx.pos_real(1e-6, 1e3);
    const V3& e = g->findExtremeVertex(d); double best = -1e300; bool mine = false; for (auto& v : g->getVertices()) { best = std::max(best, d.dot(v)); if (&v == &e) mine = true; }
    ctx.check(mine, "not-a-vertex"); ctx.check(d.dot(e) >= best - 1e-9 * d.norm() * size, "not-extreme", [&](std::ostream& o) { o << "direction "; show(o, d); o << ": reached " << d.dot(e) << " of " << best << " on " << H.v.size() << " vertices"; });
  }
  V3 c = g->getInteriorPoint(); for (auto& t : f) { V3 n = (H.v[t[1]] - H.v[t[0]]).cross(H.v[t[2]] - H.v[t[0]]); ctx.check(n.dot(c - H.v[t[0]]) < 0, "interior-point"); }
  ctx.check(g->getFaceCount() == (int)H.f.size() && g->getVertices() == H.v, "contents");
}
PBT(C21, "validation", 6000, 150000) {
  Hull H = ctx.chance(1, 3) ? bigHull(ctx, 0.1, 3) : randomHull(ctx, 0.1, 3); bool bad = ctx.chance(2, 3); const char* what = "intact"; ctx.nontrivial(bad);
  auto onEdge = [&]() { std::map<std::pair<int, int>, int> e; std::vector<bool> used(H.v.size()); for (auto& f : H.f) for (size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; e[{std::min(a, b), std::max(a, b)}]++; used[a] = true; } bool ok = true; for (auto& x : e) if (x.second != 2) ok = false; for (bool u : used) if (!u) ok = false; return ok; };
  if (bad) switch (ctx.pick(5)) {
    case 0: what = "a face removed"; H.f.erase(H.f.begin() + ctx.pick((int)H.f.size())); break;
    case 1: what = "a face repeated"; H.f.push_back(H.f[ctx.pick((int)H.f.size())]); break;
    case 2: what = "an unused vertex"; H.v.push_back(V3(0, 0, 0)); break;
    case 3: what = "several faces removed"; for (int i = ctx.range(2, 3); i > 0 && H.f.size() > 2; i--) H.f.erase(H.f.begin() + ctx.pick((int)H.f.size())); break;
    default: { what = "a vertex doubled"; int i = ctx.pick((int)H.f.size()); int k = ctx.pick((int)H.f[i].size()); H.v.push_back(H.v[H.f[i][k]]); H.f[i][k] = (int)H.v.size() - 1; }
  }
  bool want = onEdge(); auto v = std::make_shared<std::vector<V3>>(H.v); auto f = std::make_shared<std::vector<int>>(); for (auto& x : H.f) { f->push_back((int)x.size()); for (int i : x) f->push_back(i); }
  auto D = [&](std::ostream& o) { o << what << ": " << H.v.size() << " vertices, faces"; for (auto& q : H.f) { o << " ["; for (int i : q) o << i << " "; o << "]"; } }; ctx.note(D);
  bool threw = false; try { fcl::Convexd c(v, (int)H.f.size(), f, true); } catch (const std::exception&) { threw = true; }
  ctx.check(threw == !want, want ? "valid-rejected" : "invalid-accepted", D);
  fcl::Convexd c(v, (int)H.f.size(), f, false), copy(c);
  for (int i = 0; i < 6; i++) { V3 d = dir(ctx); double best = -1e300; for (auto& x : H.v) best = std::max(best, d.dot(x)); ctx.check(d.dot(c.findExtremeVertex(d)) >= best - 1e-9 && d.dot(copy.findExtremeVertex(d)) >= best - 1e-9, "extreme-after-repair", D); }
}
PBT(C21, "representation", 4000, 60000) {
  static const Kind ks[] = {ref::BOX, ref::SPHERE, ref::ELLIPSOID, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::HULL, ref::HALFSPACE, ref::PLANE}; Kind k = ks[ctx.pick(9)]; Shape s = shape(ctx, k); ctx.nontrivial(true); int prec = ctx.range(17, 21); std::vector<double> want; std::string text, name;
  auto P = [&](const V3& v) { for (int i = 0; i < 3; i++) want.push_back(v[i]); };
  switch (k) {
    case ref::BOX: { auto& g = static_cast<fcl::Boxd&>(*s.g); text = g.representation(prec); P(g.side); name = "Box<double>"; break; }
    case ref::SPHERE: { auto& g = static_cast<fcl::Sphered&>(*s.g); text = g.representation(prec); want = {g.radius}; name = "Sphere<double>"; break; }
    case ref::ELLIPSOID: { auto& g = static_cast<fcl::Ellipsoidd&>(*s.g); text = g.representation(prec); P(g.radii); name = "Ellipsoid<double>"; break; }
    case ref::CAPSULE: { auto& g = static_cast<fcl::Capsuled&>(*s.g); text = g.representation(prec); want = {g.radius, g.lz}; name = "Capsule<double>"; break; }
    case ref::CYLINDER: { auto& g = static_cast<fcl::Cylinderd&>(*s.g); text = g.representation(prec); want = {g.radius, g.lz}; name = "Cylinder<double>"; break; }
    case ref::CONE: { auto& g = static_cast<fcl::Coned&>(*s.g); text = g.representation(prec); want = {g.radius, g.lz}; name = "Cone<double>"; break; }
    case ref::HALFSPACE: { auto& g = static_cast<fcl::Halfspaced&>(*s.g); text = g.representation(prec); P(g.n); want.push_back(g.d); name = "Halfspace<double>"; break; }
    case ref::PLANE: { auto& g = static_cast<fcl::Planed&>(*s.g); text = g.representation(prec); P(g.n); want.push_back(g.d); name = "Plane<double>"; break; }
    default: { auto& g = static_cast<fcl::Convexd&>(*s.g); text = g.representation(prec); for (auto& v : g.getVertices()) P(v); want.push_back(g.getFaceCount()); for (int i : g.getFaces()) want.push_back(i); name = "Convex<double>"; }
  }
  auto D = [&](std::ostream& o) { o << s.desc << " prints as " << text; }; ctx.check(text.compare(0, name.size(), name) == 0, "name", D);
  // read every number that is not part of a word
  std::vector<double> got; for (size_t i = 0; i < text.size();) { char ch = text[i]; if (isalpha((unsigned char)ch) || ch == '_') { while (i < text.size() && (isalnum((unsigned char)text[i]) || text[i] == '_')) i++; continue; } if (isdigit((unsigned char)ch) || ((ch == '-' || ch == '.') && i + 1 < text.size() && (isdigit((unsigned char)text[i + 1]) || text[i + 1] == '.'))) { char* e; double x = strtod(text.c_str() + i, &e); got.push_back(x); i = e - text.c_str(); continue; } i++; }
  ctx.check(got == want, "numbers", D);
}

// ---- tessellation ----------------------------------------------------------------
PBT(C22, "tessellation", 6000, 150000) {
  typedef fcl::BVHModel<fcl::OBBRSSd> M; static const Kind ks[] = {ref::BOX, ref::SPHERE, ref::ELLIPSOID, ref::CYLINDER, ref::CONE}; M m; int parts = ctx.chance(1, 4) ? ctx.range(2, 3) : 1; ctx.nontrivial(true); std::ostringstream desc; desc.precision(17); ctx.note([&](std::ostream& o) { o << desc.str(); });
  size_t vbase = 0, tbase = 0;
  struct Part { Shape s; T3 t; double sag; size_t v0, v1, t0, t1; int want; }; std::vector<Part> ps;
  for (int i = 0; i < parts; i++) {
    Part p; Kind k = ks[ctx.pick(5)]; p.s = shape(ctx, k, 0.2, 1.5); p.t = pose(ctx, 5); place(p.s.r, p.t); bool last = i + 1 == parts; auto fin = last ? fcl::FinalizeModel::DO : fcl::FinalizeModel::DONT; bool density = ctx.chance(1, 3); int a = ctx.range(3, 16), b = ctx.range(1, 12), n = ctx.range(1, 60), r = 0; p.want = -1; p.sag = 0; auto& R = p.s.r; desc << p.s.desc << " "; show(desc, p.t);
    int ring = b, seg = a;
    switch (k) {
      case ref::BOX: r = fcl::generateBVHModel(m, static_cast<fcl::Boxd&>(*p.s.g), p.t, fin); p.want = 12; break;
      case ref::SPHERE: { auto& g = static_cast<fcl::Sphered&>(*p.s.g); if (density) { desc << " faces for unit sphere " << n; double q = std::sqrt(n / 2.0) * g.radius * g.radius; ring = seg = (int)std::ceil(q); r = fcl::generateBVHModel(m, g, p.t, (unsigned)n, fin); if (std::abs(q - std::round(q)) < 1e-5) ctx.discard("rounding"); } else { desc << " seg " << seg << " ring " << ring; r = fcl::generateBVHModel(m, g, p.t, (unsigned)seg, (unsigned)ring, fin); } break; }
      case ref::ELLIPSOID: { auto& g = static_cast<fcl::Ellipsoidd&>(*p.s.g); if (density) { desc << " faces for unit ellipsoid " << n; const double pp = 1.6075; double A = std::pow(g.radii[0], pp), B = std::pow(g.radii[1], pp), C = std::pow(g.radii[2], pp); double q = std::sqrt(n / 2.0) * std::pow((A * B + B * C + C * A) / 3, 1 / pp); ring = seg = (int)std::ceil(q); if (std::abs(q - std::round(q)) < 1e-5) ctx.discard("rounding"); r = fcl::generateBVHModel(m, g, p.t, (unsigned)n, fin); } else { desc << " seg " << seg << " ring " << ring; r = fcl::generateBVHModel(m, g, p.t, (unsigned)seg, (unsigned)ring, fin); } break; }
      default: { bool cyl = k == ref::CYLINDER; if (density) { n = ctx.range(3, 30); desc << " split for unit " << n; seg = (int)(n * R.r); ring = (int)std::ceil(R.lz / (2 * M_PI / seg * R.r)); if (seg >= 3 && (std::abs(n * R.r - std::round(n * R.r)) < 1e-6)) ctx.discard("rounding"); r = cyl ? fcl::generateBVHModel(m, static_cast<fcl::Cylinderd&>(*p.s.g), p.t, (unsigned)n, fin) : fcl::generateBVHModel(m, static_cast<fcl::Coned&>(*p.s.g), p.t, (unsigned)n, fin); } else { desc << " split " << seg << " along " << ring; r = cyl ? fcl::generateBVHModel(m, static_cast<fcl::Cylinderd&>(*p.s.g), p.t, (unsigned)seg, (unsigned)ring, fin) : fcl::generateBVHModel(m, static_cast<fcl::Coned&>(*p.s.g), p.t, (unsigned)seg, (unsigned)ring, fin); } }
    }
    desc << "; "; auto D = [&](std::ostream& o) { o << desc.str(); }; std::string nm = kindName(k); ctx.check(r == fcl::BVH_OK, nm + ":return-code", D);
    if (density && seg < 3 && k != ref::BOX) { p.want = -2; }   // too coarse to be a solid
    else if (k == ref::SPHERE || k == ref::ELLIPSOID) { p.want = 2 * seg * ring; V3 h = k == ref::SPHERE ? V3(R.rad, R.rad, R.rad) : R.h; p.sag = h.maxCoeff() * ((1 - std::cos(M_PI / seg)) + (1 - std::cos(M_PI / (ring + 1) / 2))); }
    else if (k == ref::CYLINDER) { p.want = 2 * seg + 2 * seg * ring; p.sag = R.r * (1 - std::cos(M_PI / seg)); }
    else if (k == ref::CONE) { p.want = 2 * seg + 2 * seg * (ring - 1); p.sag = R.r * (1 - std::cos(M_PI / seg)); }
    p.v0 = vbase; p.v1 = vbase = m.num_vertices; p.t0 = tbase; p.t1 = tbase = m.num_tris; ps.push_back(p);
    ctx.check(m.build_state == (last ? fcl::BVH_BUILD_STATE_PROCESSED : fcl::BVH_BUILD_STATE_BEGUN), nm + ":state", D);
  }
  for (auto& p : ps) {
    auto D = [&](std::ostream& o) { o << desc.str() << "; part " << p.s.desc << " has " << p.v1 - p.v0 << " vertices, " << p.t1 - p.t0 << " triangles"; }; std::string nm = kindName(p.s.r.k);
    if (p.want >= 0) ctx.check((int)(p.t1 - p.t0) == p.want, nm + ":triangle-count", D);
    double tol = 1e-9 * (1 + p.t.translation().norm() + p.s.r.size()); std::vector<V3> v; std::vector<std::array<int, 3>> f;
    for (size_t i = p.v0; i < p.v1; i++) { v.push_back(m.vertices[i]); double o = p.s.r.outside(m.vertices[i]); ctx.check(o < tol, nm + ":vertex-outside", D); }
    for (size_t i = p.t0; i < p.t1; i++) { std::array<int, 3> q; for (int j = 0; j < 3; j++) { size_t x = m.tri_indices[i][j]; ctx.check(x >= p.v0 && x < p.v1, nm + ":index", D); q[j] = (int)(x - p.v0); } f.push_back(q); }
    if (p.want < 0) continue;
    std::map<std::pair<int, int>, int> e; for (auto& t : f) for (int j = 0; j < 3; j++) e[{t[j], t[(j + 1) % 3]}]++; for (auto& x : e) { auto y = e.find({x.first.second, x.first.first}); ctx.check(x.second == 1 && y != e.end() && y->second == 1, nm + ":not-a-closed-surface", D); }
    std::set<int> used; for (auto& t : f) for (int j : t) used.insert(j); ctx.check(used.size() == v.size(), nm + ":unused-vertex", D);
    double V = polyhedron(v, f).V, exact = p.s.g->computeVolume(); ctx.check(V > 0 && V <= exact * (1 + 1e-9), nm + ":volume", [&](std::ostream& o) { D(o); o << ", volume " << V << " of " << exact; });
    // every support direction of the shape is reached within the sag of the chords
    for (int i = 0; i < 6; i++) { V3 d = dir(ctx); double got = -1e300; for (auto& x : v) got = std::max(got, d.dot(x)); double want = p.s.r.h_(d); ctx.check(got <= want + tol && got >= want - p.sag - tol, nm + ":extent", [&](std::ostream& o) { D(o); o << ", extent " << got << " of " << want << " along "; show(o, d); o << " with sag " << p.sag; }); }
    // outward orientation: faces see the centroid behind them
    V3 c = p.s.r.centre(); if (p.s.r.k != ref::HULL) for (auto& t : f) { V3 n = (v[t[1]] - v[t[0]]).cross(v[t[2]] - v[t[0]]); ctx.check(n.dot(v[t[0]] - c) > -tol, nm + ":orientation", D); ctx.check(n.norm() > 1e-9 * p.s.r.size() * p.s.r.size(), nm + ":empty-triangle", D); }
  }
}
PBT_MAIN
