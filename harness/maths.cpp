// C26 random numbers and samplers, frames, fits of points, decompositions: against distributions and definitions.
#include "gen.h"
#include "gen_bv.h"
#include "fcl/math/geometry.h"
#include "fcl/math/variance3.h"
#include "fcl/math/rng.h"
#include "fcl/math/sampler/sampler_r.h"
#include "fcl/math/sampler/sampler_se2.h"
#include "fcl/math/sampler/sampler_se2_disk.h"
#include "fcl/math/sampler/sampler_se3_euler.h"
#include "fcl/math/sampler/sampler_se3_euler_ball.h"
#include "fcl/math/sampler/sampler_se3_quat.h"
#include "fcl/math/sampler/sampler_se3_quat_ball.h"
#include <sys/mman.h>
#include <sys/wait.h>
using namespace gen;

namespace {
// Seeds are global to a process and fixed by the first generator, so everything random happens in a child of its own.
template <class F> std::vector<double> child(Ctx& c, const char* what, size_t n, F f) {
  size_t bytes = (n + 1) * sizeof(double); double* m = (double*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) c.discard("no memory");
  fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) { munmap(m, bytes); c.discard("no process"); }
  if (pid == 0) { alarm(60); f(m + 1); m[0] = 1; _exit(0); }
  int st; waitpid(pid, &st, 0); std::vector<double> r(m + 1, m + 1 + n); bool done = m[0] == 1; munmap(m, bytes);
  c.check(done && WIFEXITED(st) && WEXITSTATUS(st) == 0, std::string(what) + ":crash", [&](std::ostream& o) { o << "status " << st; });
  return r;
}
// Kolmogorov-Smirnov: sqrt(n) D above 3.6 has probability 1e-11 for a correct generator
template <class C> void ks(Ctx& c, const std::string& key, std::vector<double> x, C cdf) {
  std::sort(x.begin(), x.end()); size_t n = x.size(); double D = 0; for (size_t i = 0; i < n; i++) { double F = cdf(x[i]); D = std::max(D, std::max(std::abs(F - double(i) / n), std::abs(double(i + 1) / n - F))); }
  c.check(D * std::sqrt(double(n)) <= 3.6, key + ":distribution", [&](std::ostream& o) { o << "Kolmogorov-Smirnov statistic " << D * std::sqrt(double(n)) << " over " << n << " samples, first " << x[0] << " median " << x[n / 2] << " last " << x[n - 1]; });
}
// the discrete version: D over the values only (conservative)
template <class C> void ksInt(Ctx& c, const std::string& key, const std::vector<double>& x, C cdf) {
  std::map<long, size_t> m; for (double v : x) m[(long)v]++; size_t n = x.size(), k = 0; double D = 0; for (auto& e : m) { D = std::max(D, std::abs(cdf(e.first - 1) - double(k) / n)); k += e.second; D = std::max(D, std::abs(cdf(e.first) - double(k) / n)); }
  c.check(D * std::sqrt(double(n)) <= 3.6, key + ":distribution", [&](std::ostream& o) { o << "Kolmogorov-Smirnov statistic " << D * std::sqrt(double(n)) << " over " << n << " samples of " << m.size() << " values"; });
}
void inside(Ctx& c, const std::string& key, const std::vector<double>& x, double a, double b, double tol = 0) { for (double v : x) c.check(v >= a - tol && v <= b + tol, key + ":out-of-bounds", [&](std::ostream& o) { o.precision(17); o << v << " outside [" << a << "," << b << "]"; }); }
std::vector<double> col(const std::vector<double>& x, int stride, int k) { std::vector<double> r; for (size_t i = k; i < x.size(); i += stride) r.push_back(x[i]); return r; }
double uni(double x, double a, double b) { return b > a ? std::min(1.0, std::max(0.0, (x - a) / (b - a))) : x >= a; }
double sphere4(double t) { t = std::min(1.0, std::max(-1.0, t)); return 0.5 + (t * std::sqrt(1 - t * t) + std::asin(t)) / M_PI; }   // a coordinate of a point on the unit sphere in four dimensions
double phi(double t) { return 0.5 * std::erfc(-t / std::sqrt(2.0)); }
struct Range { double a, b; };
Range range(Ctx& c) { double s = c.pos_real(1e-2, 1e3), a = c.real(-s, s), w = c.chance(1, 12) ? 0 : c.pos_real(1e-3, 2) * s; return {a, a + w}; }
// a quaternion q uniform on its sphere: every projection has the law of a coordinate
void uniformRotation(Ctx& c, const std::string& key, const std::vector<std::array<double, 4>>& q) {
  for (auto& x : q) { double n = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]); c.check(std::abs(n - 1) < 1e-9, key + ":not-unit", [&](std::ostream& o) { o << "norm " << n; }); }
  for (int k = 0; k < 6; k++) { Eigen::Vector4d u = k < 4 ? Eigen::Vector4d(Eigen::Vector4d::Unit(k)) : Eigen::Vector4d(c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1), c.uni(-1, 1)); if (u.norm() < 0.1) continue; u.normalize(); std::vector<double> p; for (auto& x : q) p.push_back(u[0] * x[0] + u[1] * x[1] + u[2] * x[2] + u[3] * x[3]); ks(c, key, p, sphere4); }
}
void uniformMatrix(Ctx& c, const std::string& key, const std::vector<M3>& R) {    // any fixed direction goes to a uniform one; the trace has the law of 4w^2-1
  for (int k = 0; k < 4; k++) { V3 u = dir(c), v = dir(c); std::vector<double> p; for (auto& m : R) p.push_back(u.dot(m * v)); ks(c, key, p, [](double t) { return uni(t, -1, 1); }); }
  std::vector<double> w; for (auto& m : R) w.push_back(0.5 * std::sqrt(std::max(0.0, 1 + m.trace()))); ks(c, key, w, [](double t) { return 2 * sphere4(t) - 1; });
}
const size_t N = 4000;
}  // namespace

PBT(C26, "generators", 600, 20000) {
  uint32_t seed = 1 + ctx.pick(1 << 30); int kind = ctx.pick(12); Range r = range(ctx); double focus = ctx.pos_real(0.5, 10); int ia = ctx.range(-20, 20), ib = ia + ctx.pick(40); double rmin = ctx.chance(1, 3) ? 0 : std::abs(r.a), rmax = rmin + (r.b - r.a); double mean = r.a, sd = ctx.pos_real(1e-2, 10);
  const int per[12] = {1, 1, 1, 1, 1, 1, 1, 1, 4, 3, 2, 3}; const char* name[12] = {"uniform01", "uniformReal", "uniformInt", "uniformBool", "gaussian01", "gaussian", "halfNormalReal", "halfNormalInt", "quaternion", "eulerRPY", "disk", "ball"};
  std::string key = name[kind]; ctx.label(key); ctx.note([&](std::ostream& o) { o << key << " seed " << seed << " range " << r.a << " " << r.b << " ints " << ia << " " << ib << " radii " << rmin << " " << rmax << " focus " << focus << " gaussian " << mean << " " << sd; });
  auto x = child(ctx, key.c_str(), N * per[kind], [&](double* o) {
    fcl::RNGd::setSeed(seed); fcl::RNGd g;
    for (size_t i = 0; i < N; i++, o += per[kind]) switch (kind) {
      case 0: o[0] = g.uniform01(); break; case 1: o[0] = g.uniformReal(r.a, r.b); break; case 2: o[0] = g.uniformInt(ia, ib); break; case 3: o[0] = g.uniformBool(); break; case 4: o[0] = g.gaussian01(); break; case 5: o[0] = g.gaussian(mean, sd); break;
      case 6: o[0] = g.halfNormalReal(r.a, r.b, focus); break; case 7: o[0] = g.halfNormalInt(ia, ib, focus); break; case 8: g.quaternion(o); break; case 9: g.eulerRPY(o); break; case 10: g.disk(rmin, rmax, o[0], o[1]); break; default: g.ball(rmin, rmax, o[0], o[1], o[2]);
    } });
  ctx.nontrivial(kind == 0 || kind == 3 || r.b > r.a); double tol = 1e-12 * (1 + std::abs(r.a) + std::abs(r.b));
  // the law of halfNormalReal: a Gaussian folded at its mean, what falls below the range collected at the lower end
  auto half = [&](double t, double a, double b) { double m = b - a; if (t >= b) return 1.0; if (t < a) return 0.0; if (m == 0) return 1.0; return 2 * phi((t - b) / (m / focus)); };
  switch (kind) {
    case 0: inside(ctx, key, x, 0, 1); ks(ctx, key, x, [](double t) { return uni(t, 0, 1); }); break;
    case 1: inside(ctx, key, x, r.a, r.b, tol); if (r.b > r.a) ks(ctx, key, x, [&](double t) { return uni(t, r.a, r.b); }); break;
    case 2: inside(ctx, key, x, ia, ib); ksInt(ctx, key, x, [&](double t) { return std::min(1.0, std::max(0.0, (t - ia + 1) / (ib - ia + 1))); }); break;
    case 3: ksInt(ctx, key, x, [](double t) { return t < 0 ? 0 : t < 1 ? 0.5 : 1; }); break;
    case 4: ks(ctx, key, x, phi); break;
    case 5: ks(ctx, key, x, [&](double t) { return phi((t - mean) / sd); }); break;
    case 6: inside(ctx, key, x, r.a, r.b, tol); if (r.b > r.a) { std::vector<double> y; double lo = half(r.a, r.a, r.b); size_t k = 0; for (double v : x) { if (v > r.a) y.push_back(v); else k++; } ctx.check(std::abs(double(k) / N - lo) < 7 * std::sqrt(lo * (1 - lo) / N) + 3.0 / N, key + ":lower-end"); if (y.size() > 200) ks(ctx, key, y, [&](double t) { return (half(t, r.a, r.b) - lo) / (1 - lo); }); } break;
    case 7: inside(ctx, key, x, ia, ib); ksInt(ctx, key, x, [&](double t) { return t < ia ? 0 : half(std::min<double>(t + 1, ib + 1), ia, ib + 1.0); }); break;
    case 8: { std::vector<std::array<double, 4>> q; for (size_t i = 0; i < N; i++) q.push_back({{x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3]}}); uniformRotation(ctx, key, q); break; }
    case 9: { inside(ctx, key, x, -M_PI, M_PI); std::vector<M3> R; for (size_t i = 0; i < N; i++) R.push_back((Eigen::AngleAxisd(x[3 * i + 2], V3::UnitZ()) * Eigen::AngleAxisd(x[3 * i + 1], V3::UnitY()) * Eigen::AngleAxisd(x[3 * i], V3::UnitX())).toRotationMatrix()); uniformMatrix(ctx, key, R); break; }
    case 10: { std::vector<double> rr, th; for (size_t i = 0; i < N; i++) { rr.push_back(std::hypot(x[2 * i], x[2 * i + 1])); th.push_back(std::atan2(x[2 * i + 1], x[2 * i])); } inside(ctx, key, rr, rmin, rmax, 1e-9 * rmax + 1e-12); if (rmax > rmin * (1 + 1e-6)) ks(ctx, key, rr, [&](double t) { return uni(t * t, rmin * rmin, rmax * rmax); }); if (rmax > 0) ks(ctx, key, th, [](double t) { return uni(t, -M_PI, M_PI); }); break; }
    default: { std::vector<double> rr; std::vector<V3> p; for (size_t i = 0; i < N; i++) { V3 v(x[3 * i], x[3 * i + 1], x[3 * i + 2]); rr.push_back(v.norm()); if (rmax > 0) p.push_back(v.normalized()); } inside(ctx, key, rr, rmin, rmax, 1e-9 * rmax + 1e-12); if (rmax > rmin * (1 + 1e-6)) ks(ctx, key, rr, [&](double t) { return uni(t * t * t, std::pow(rmin, 3), std::pow(rmax, 3)); });
      if (rmax > 0) for (int k = 0; k < 3; k++) { V3 u = dir(ctx); std::vector<double> q; for (auto& v : p) q.push_back(u.dot(v)); ks(ctx, key, q, [&](double t) { return uni(t, -u.norm(), u.norm()); }); } }
  }
}
PBT(C26, "seeds", 300, 10000) {
  uint32_t s1 = 1 + ctx.pick(1 << 30), s2 = 1 + ctx.pick(1 << 30); int k = ctx.range(2, 6), m = ctx.range(1, 6); bool other = ctx.flip(); ctx.note([&](std::ostream& o) { o << "seeds " << s1 << " " << s2 << " generators " << k << " draws " << m; }); ctx.nontrivial(true);
  auto draws = [&](double* o) { std::vector<fcl::RNGd> g(1); for (int i = 1; i < k; i++) g.emplace_back(); for (auto& r : g) for (int j = 0; j < m; j++) *o++ = other ? r.gaussian01() : r.uniform01(); *o = fcl::RNGd::getSeed(); };
  auto a = child(ctx, "seeds", k * m + 1, [&](double* o) { fcl::RNGd::setSeed(s1); draws(o); }), b = child(ctx, "seeds", k * m + 1, [&](double* o) { fcl::RNGd::setSeed(s1); draws(o); }), d = child(ctx, "seeds", k * m + 1, [&](double* o) { fcl::RNGd::setSeed(s2); draws(o); });
  auto u = child(ctx, "seeds", k * m + 1, draws), v = child(ctx, "seeds", k * m + 1, [&](double* o) { fcl::RNGd::setSeed((std::uint_fast32_t)u[k * m]); draws(o); });
  ctx.check(a == b, "seed:not-repeatable"); ctx.check(a[k * m] == s1, "seed:not-reported", [&](std::ostream& o) { o << a[k * m]; });
  if (s1 != s2) ctx.check(!std::equal(a.begin(), a.end() - 1, d.begin()), "seed:ignored");
  ctx.check(u == v, "seed:reported-seed-does-not-repeat", [&](std::ostream& o) { o.precision(17); o << "seed " << u[k * m] << " first draws " << u[0] << " and " << v[0]; });
  for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) ctx.check(!std::equal(a.begin() + i * m, a.begin() + (i + 1) * m, a.begin() + j * m), "seed:generators-alike");
}
PBT(C26, "samplers", 500, 20000) {
  uint32_t seed = 1 + ctx.pick(1 << 30); int kind = ctx.pick(7); Range r[6]; for (auto& x : r) x = range(ctx); double rad = ctx.pos_real(1e-2, 1e2), rmin = ctx.chance(1, 3) ? 0 : rad * ctx.unit(); double cx = ctx.real(-10, 10), cy = ctx.real(-10, 10), fx = ctx.real(-3, 3), fy = ctx.real(-3, 3); bool viaCtor = ctx.flip();
  const char* name[7] = {"SamplerR", "SamplerSE2", "SamplerSE2_disk", "SamplerSE3Euler", "SamplerSE3Euler_ball", "SamplerSE3Quat", "SamplerSE3Quat_ball"}; const int per[7] = {5, 3, 3, 6, 6, 7, 7}; std::string key = name[kind]; ctx.label(key); ctx.nontrivial(true);
  ctx.note([&](std::ostream& o) { o << key << " seed " << seed << (viaCtor ? " constructor" : " setBound"); for (auto& x : r) o << " [" << x.a << "," << x.b << "]"; o << " radius " << rmin << " " << rad << " centre " << cx << " " << cy << " reference " << fx << " " << fy; });
  int p = per[kind]; auto x = child(ctx, key.c_str(), N * p + 12, [&](double* o) {
    fcl::RNGd::setSeed(seed); double* e = o + N * p;
    auto put = [&](const auto& v) { for (int i = 0; i < v.size(); i++) *o++ = v[i]; for (int i = v.size(); i < p; i++) *o++ = NAN; };
    auto bound3 = [&](auto& s) { V3 lo, up; s.getBound(lo, up); for (int i = 0; i < 3; i++) { e[i] = lo[i]; e[3 + i] = up[i]; } };
    V3 lo(r[0].a, r[1].a, r[2].a), up(r[0].b, r[1].b, r[2].b);
    switch (kind) {
      case 0: { fcl::VectorN<double, 5> l, u; for (int i = 0; i < 5; i++) { l[i] = r[i].a; u[i] = r[i].b; } fcl::SamplerR<double, 5> s(l, u), q; if (!viaCtor) { q.setBound(l, u); s = q; } fcl::VectorN<double, 5> a, b; s.getBound(a, b); for (int i = 0; i < 5; i++) { e[i] = a[i]; e[5 + i] = b[i]; } for (size_t i = 0; i < N; i++) put(s.sample()); break; }
      case 1: { fcl::Vector2<double> l(r[0].a, r[1].a), u(r[0].b, r[1].b), a, b; fcl::SamplerSE2d s(l, u), q(r[0].a, r[0].b, r[1].a, r[1].b), w; w.setBound(l, u); fcl::SamplerSE2d& t = seed % 3 == 0 ? s : seed % 3 == 1 ? q : w; t.getBound(a, b); e[0] = a[0]; e[1] = a[1]; e[5] = b[0]; e[6] = b[1]; for (size_t i = 0; i < N; i++) put(t.sample()); break; }
      case 2: { fcl::SamplerSE2_diskd s(cx, cy, rmin, rad, fx, fy), q; if (!viaCtor) q.setBound(cx, cy, rmin, rad, fx, fy); auto& t = viaCtor ? s : q; for (size_t i = 0; i < N; i++) put(t.sample()); break; }
      case 3: { fcl::SamplerSE3Eulerd s(lo, up), q; q.setBound(lo, up); auto& t = viaCtor ? s : q; bound3(t); for (size_t i = 0; i < N; i++) put(t.sample()); break; }
      case 4: { fcl::SamplerSE3Euler_balld s(rad), q; q.setBound(rad); auto& t = viaCtor ? s : q; t.getBound(e[0]); for (size_t i = 0; i < N; i++) put(t.sample()); break; }
      case 5: { fcl::SamplerSE3Quatd s(lo, up), q; q.setBound(lo, up); auto& t = viaCtor ? s : q; bound3(t); for (size_t i = 0; i < N; i++) put(t.sample()); break; }
      default: { fcl::SamplerSE3Quat_balld s(rad), q; q.setBound(rad); auto& t = viaCtor ? s : q; t.getBound(e[0]); for (size_t i = 0; i < N; i++) put(t.sample()); }
    } });
  const double* e = &x[N * p]; std::vector<double> s(x.begin(), x.begin() + N * p);
  auto box = [&](int n) { for (int k = 0; k < n; k++) { auto y = col(s, p, k); inside(ctx, key, y, r[k].a, r[k].b, 1e-12 * (1 + std::abs(r[k].a) + std::abs(r[k].b))); if (r[k].b > r[k].a) ks(ctx, key, y, [&](double t) { return uni(t, r[k].a, r[k].b); }); } };
  auto bounds = [&](int n, int off) { for (int k = 0; k < n; k++) ctx.check(e[k] == r[k].a && e[off + k] == r[k].b, key + ":bounds"); };
  auto ball = [&]() { ctx.check(e[0] == rad, key + ":bounds"); std::vector<double> rr; std::vector<V3> v; for (size_t i = 0; i < N; i++) { v.push_back(V3(s[p * i], s[p * i + 1], s[p * i + 2])); rr.push_back(v.back().norm()); } inside(ctx, key, rr, 0, rad, 1e-9 * rad); ks(ctx, key, rr, [&](double t) { return uni(t * t * t, 0, rad * rad * rad); }); for (int k = 0; k < 3; k++) { std::vector<double> q; for (auto& w : v) q.push_back(w.normalized()[k]); ks(ctx, key, q, [](double t) { return uni(t, -1, 1); }); } };
  auto quat = [&]() { std::vector<std::array<double, 4>> q; for (size_t i = 0; i < N; i++) q.push_back({{s[7 * i + 3], s[7 * i + 4], s[7 * i + 5], s[7 * i + 6]}}); uniformRotation(ctx, key, q); };
  auto euler = [&]() { std::vector<M3> R; for (size_t i = 0; i < N; i++) { double* a = &s[6 * i + 3]; for (int k = 0; k < 3; k++) ctx.check(std::abs(a[k]) <= M_PI + 1e-9, key + ":angles"); R.push_back((Eigen::AngleAxisd(a[0], V3::UnitX()) * Eigen::AngleAxisd(a[1], V3::UnitY()) * Eigen::AngleAxisd(a[2], V3::UnitZ())).toRotationMatrix()); } uniformMatrix(ctx, key, R); };
  auto angle = [&]() { auto y = col(s, 3, 2); inside(ctx, key, y, -M_PI, M_PI); ks(ctx, key, y, [](double t) { return uni(t, -M_PI, M_PI); }); };
  switch (kind) {
    case 0: bounds(5, 5); box(5); break; case 1: bounds(2, 5); box(2); angle(); break;
    case 2: { std::vector<double> rr; for (size_t i = 0; i < N; i++) rr.push_back(std::hypot(s[3 * i] - cx + fx, s[3 * i + 1] - cy + fy)); inside(ctx, key, rr, rmin, rad, 1e-9 * (rad + 20)); if (rad > rmin * (1 + 1e-6)) ks(ctx, key, rr, [&](double t) { return uni(t * t, rmin * rmin, rad * rad); }); angle(); break; }
    case 3: bounds(3, 3); box(3); euler(); break; case 4: ball(); euler(); break; case 5: bounds(3, 3); box(3); quat(); break; default: ball(); quat();
  }
}

namespace {
// point sets as fitters get them: points or triangles, subsets by index, two frames
struct Cloud { std::vector<V3> p, q; std::vector<fcl::Triangle> t; std::vector<unsigned> idx; int n; bool two, tri, ind; std::vector<V3> all; double size;
  const V3* ps() const { return p.data(); } const V3* ps2() const { return two ? q.data() : nullptr; } fcl::Triangle* ts() { return tri ? t.data() : nullptr; } unsigned* ix() { return ind ? idx.data() : nullptr; } };
Cloud cloud(Ctx& c) {
  Cloud r; double s = c.pos_real(1e-2, 20); int m = c.range(3, 20); V3 o = c.chance(1, 3) ? vec(c, 20) : V3(V3::Zero()), d = dir(c); int shape = c.weighted({5, 1, 1, 1}); V3 e = d.unitOrthogonal();
  auto pt = [&]() -> V3 { switch (shape) { case 0: return o + vec(c, s); case 1: return o + d * c.real(-s, s); case 2: return o + d * c.real(-s, s) + e * c.real(-s, s); default: return o + V3(c.range(-1, 1), c.range(-1, 1), c.range(-1, 1)) * s; } };
  for (int i = 0; i < m; i++) { r.p.push_back(pt()); r.q.push_back(pt()); }
  r.two = c.chance(1, 3); r.tri = c.flip(); r.ind = c.flip(); int k = r.tri ? c.range(1, 12) : m; if (r.tri) for (int i = 0; i < k; i++) { int a = c.pick(m), b = c.pick(m), d2 = c.pick(m); r.t.push_back(fcl::Triangle(a, b, d2)); }
  r.n = c.range(1, k); if (r.ind) for (int i = 0; i < r.n; i++) r.idx.push_back(c.pick(k));
  for (int i = 0; i < r.n; i++) { int j = r.ind ? (int)r.idx[i] : i; for (int f = 0; f < (r.two ? 2 : 1); f++) { auto& v = f ? r.q : r.p; if (r.tri) for (int l = 0; l < 3; l++) r.all.push_back(v[r.t[j][l]]); else r.all.push_back(v[j]); } }
  r.size = 0; for (auto& v : r.all) r.size = std::max(r.size, v.norm()); r.size += s; return r;
}
void noteCloud(Ctx& c, const Cloud& r) { c.note([&](std::ostream& o) { o << (r.tri ? "triangles" : "points") << (r.two ? " two frames" : "") << (r.ind ? " by index" : "") << " n " << r.n << ":"; for (auto& v : r.all) show(o, v); }); }
}  // namespace

PBT(C26, "fits", 30000, 1000000) {
  Cloud r = cloud(ctx); noteCloud(ctx, r); M3 A = rot(ctx); double tol = 1e-9 * r.size; ctx.nontrivial(r.all.size() > 3); ctx.label(r.tri ? "triangles" : "points");
  V3 ce, ex; fcl::getExtentAndCenter<double>(r.ps(), r.ps2(), r.ts(), r.ix(), r.n, A, ce, ex);
  V3 lo = V3::Constant(1e300), hi = -lo; for (auto& v : r.all) { V3 l = A.transpose() * v; lo = lo.cwiseMin(l); hi = hi.cwiseMax(l); } V3 want = A * V3((lo + hi) / 2);
  ctx.check((ce - want).norm() <= tol && (ex - (hi - lo) / 2).norm() <= tol, "extent", [&](std::ostream& o) { o << "centre "; show(o, ce); o << "extent "; show(o, ex); o << "expected "; show(o, want); show(o, V3((hi - lo) / 2)); });
  V3 q = vec(ctx, r.size); double far = 0; for (auto& v : r.all) far = std::max(far, (v - q).norm()); double md = fcl::maximumDistance<double>(r.ps(), r.ps2(), r.ts(), r.ix(), r.n, q); ctx.check(std::abs(md - far) <= tol, "maximum-distance", [&](std::ostream& o) { o << md << " expected " << far; });
  M3 C, D = M3::Zero(); fcl::getCovariance<double>(r.ps(), r.ps2(), r.ts(), r.ix(), r.n, C); V3 mean = V3::Zero(); for (auto& v : r.all) mean += v / r.all.size(); for (auto& v : r.all) D += (v - mean) * (v - mean).transpose();
  ctx.check((C - D).norm() <= 1e-9 * r.size * r.size * r.all.size(), "covariance", [&](std::ostream& o) { o << C << " expected " << D; }); ctx.check((C - C.transpose()).norm() == 0, "covariance:symmetric");
  fcl::RSSd b; b.axis = A; fcl::getRadiusAndOriginAndRectangleSize<double>(r.ps(), r.ps2(), r.ts(), r.ix(), r.n, A, b.To, b.l, b.r); for (auto& v : r.all) ctx.check(out(b, v) <= tol, "swept-rectangle", [&](std::ostream& o) { o << "point "; show(o, v); o << " outside by " << out(b, v); });
  ctx.check(b.l[0] >= 0 && b.l[1] >= 0 && b.r >= 0 && std::abs(2 * b.r - (hi - lo)[2]) <= tol && b.l[0] <= 2 * (hi - lo)[0] + 2 * (hi - lo)[1] + tol, "swept-rectangle:size");
  T3 tf2 = T3::Identity(); tf2.linear() = A; double l2[2], r2; fcl::getRadiusAndOriginAndRectangleSize<double>(r.ps(), r.ps2(), r.ts(), r.ix(), r.n, tf2, l2, r2); ctx.check((tf2.translation() - b.To).norm() <= tol && std::abs(l2[0] - b.l[0]) + std::abs(l2[1] - b.l[1]) + std::abs(r2 - b.r) <= tol, "swept-rectangle:transform");
}
PBT(C26, "decompositions", 40000, 1500000) {
  double s = ctx.pos_real(1e-3, 1e3); M3 Q = rot(ctx); V3 d(std::abs(ctx.real(0, s)), std::abs(ctx.real(0, s)), std::abs(ctx.real(0, s))); int k = ctx.weighted({5, 1, 1, 1, 2}); if (k == 1) d[1] = d[0]; if (k == 2) d[1] = d[2] = d[0]; if (k == 3) d[2] = 0; M3 m = Q * d.asDiagonal() * Q.transpose(); if (k == 4) { m = V3(d).asDiagonal(); if (ctx.flip()) m(0, 1) = m(1, 0) = ctx.real(-s, s); } m = (0.5 * (m + m.transpose())).eval();
  ctx.note([&](std::ostream& o) { o << "matrix " << m.format(Eigen::IOFormat(17, 0, " ", ";")); }); double n = m.norm(), tol = 1e-9 * n + 1e-300; ctx.nontrivial(n > 0); ctx.label(k == 1 || k == 2 ? "equal eigenvalues" : k == 3 ? "singular" : k == 4 ? "sparse" : "full");
  V3 w, wo; M3 E, Eo; fcl::eigen<double>(m, w, E); fcl::eigen_old<double>(m, wo, Eo); M3 I = M3::Identity();
  ctx.check((E * w.asDiagonal() * E.transpose() - m).norm() <= tol && (E.transpose() * E - I).norm() < 1e-9, "eigen:columns", [&](std::ostream& o) { o << "values "; show(o, w); o << "vectors " << E; });
  ctx.check((Eo.transpose() * wo.asDiagonal() * Eo - m).norm() <= tol && (Eo.transpose() * Eo - I).norm() < 1e-9, "eigen_old:rows", [&](std::ostream& o) { o << "values "; show(o, wo); o << "vectors " << Eo; });
  M3 ax; fcl::axisFromEigen<double>(Eo, wo, ax); T3 tf = T3::Identity(); fcl::axisFromEigen<double>(E, w, tf);
  V3 sorted = w; std::sort(sorted.data(), sorted.data() + 3); auto frame = [&](const M3& a, const char* name) { ctx.check((a.transpose() * a - I).norm() < 1e-9 && a.determinant() > 0, std::string(name) + ":not-a-frame"); for (int i = 0; i < 3; i++) { double v = a.col(i).dot(m * a.col(i)); ctx.check(std::abs(v - sorted[2 - i]) <= tol, std::string(name) + ":order", [&](std::ostream& o) { o << "axis " << i << " has spread " << v << " expected " << sorted[2 - i]; }); } };
  frame(ax, "axisFromEigen"); frame(tf.linear(), "axisFromEigen:transform");
  bool psd = sorted[0] >= -1e-12 * n; fcl::Variance3d v(m); ctx.check((v.axis * v.sigma.asDiagonal() * v.axis.transpose() - m).norm() <= tol && (v.axis.transpose() * v.axis - I).norm() < 1e-9 && v.Sigma == m, "variance:axes", [&](std::ostream& o) { o << "sigma "; show(o, v.sigma); o << "axis " << v.axis; });
  V3 before = v.sigma; fcl::Variance3d& v2 = v.sqrt(); ctx.check(&v2 == &v, "variance:chain"); for (int i = 0; i < 3; i++) ctx.check(std::abs(v.sigma[i] - std::sqrt(std::max(0.0, before[i]))) <= 1e-12 * (1 + v.sigma[i]), "variance:sqrt-values");
  if (psd) ctx.check((v.Sigma * v.Sigma - m).norm() <= 1e-6 * n + 1e-300, "variance:sqrt", [&](std::ostream& o) { o << "square of the root differs by " << (v.Sigma * v.Sigma - m).norm() << " of " << n; });
}
PBT(C26, "frames", 40000, 1500000) {
  double s = ctx.pos_real(1e-3, 1e3); V3 a = vec(ctx, s), b = vec(ctx, s), c = vec(ctx, s); if (ctx.chance(1, 10)) a = V3::Zero(); ctx.note([&](std::ostream& o) { show(o, a); show(o, b); show(o, c); }); ctx.nontrivial(a.norm() > 0);
  M3 H; fcl::hat<double>(H, a); ctx.check((H * b - a.cross(b)).norm() <= 1e-12 * s * s && (H + H.transpose()).norm() == 0, "hat");
  ctx.check(std::abs(fcl::triple(a, b, c) - a.dot(b.cross(c))) <= 1e-12 * s * s * s, "triple");
  V3 u = a; bool ok = false; fcl::normalize<double>(u, &ok); ctx.check(ok == (a.norm() > 0), "normalize:signal"); ctx.check(ok ? std::abs(u.norm() - 1) < 1e-12 && u.cross(a).norm() <= 1e-12 * a.norm() && u.dot(a) > 0 : u == a, "normalize");
  if (a.norm() > 1e-9) { M3 F = fcl::generateCoordinateSystem<double>(a); ctx.check((F.transpose() * F - M3::Identity()).norm() < 1e-12 && std::abs(F.determinant() - 1) < 1e-12 && (F.col(0) - a.normalized()).norm() < 1e-12, "coordinate-system", [&](std::ostream& o) { o << F; }); }
  T3 A = pose(ctx, s), B = pose(ctx, s), R = A.inverse() * B; M3 M; V3 t; fcl::relativeTransform(A.linear(), A.translation(), B.linear(), B.translation(), M, t); ctx.check((M - R.linear()).norm() < 1e-12 && (t - R.translation()).norm() <= 1e-11 * (1 + s), "relative"); M.setZero(); t.setZero(); fcl::relativeTransform<double>(A, B, M, t); ctx.check((M - R.linear()).norm() < 1e-12 && (t - R.translation()).norm() <= 1e-11 * (1 + s), "relative:transforms");
  V3 ctr; double rad; V3 e1 = a - c, e2 = b - c; double area = e1.cross(e2).norm(); if (area > 1e-2 * s * s) { fcl::circumCircleComputation<double>(a, b, c, ctr, rad); double tol = 1e-7 * s * (1 + rad / s); ctx.check(std::abs((a - ctr).norm() - rad) <= tol && std::abs((b - ctr).norm() - rad) <= tol && std::abs((c - ctr).norm() - rad) <= tol && std::abs((ctr - c).dot(e1.cross(e2))) <= tol * area, "circumcircle", [&](std::ostream& o) { o << "centre "; show(o, ctr); o << "radius " << rad << " distances " << (a - ctr).norm() << " " << (b - ctr).norm() << " " << (c - ctr).norm(); }); }
  fcl::VectorN<double, 2> p(a[0], a[1]); fcl::VectorN<double, 3> q(b); auto pq = fcl::combine<double, 2, 3>(p, q); ctx.check(pq[0] == a[0] && pq[1] == a[1] && pq[2] == b[0] && pq[3] == b[1] && pq[4] == b[2], "combine");
  fcl::Triangle T(1, 2, 3); T[1] = 7; ctx.check(T[0] == 1 && T[1] == 7 && T[2] == 3, "triangle"); T.set(4, 5, 6); const fcl::Triangle& T2 = T; ctx.check(T2[0] == 4 && T2[1] == 5 && T2[2] == 6, "triangle");
}
PBT_MAIN
