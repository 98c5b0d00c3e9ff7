// C32, continuous collision: single and double precision agree.
// PBT-NEEDS: ccd
#include "gen_float.h"
#include "fcl/narrowphase/continuous_collision.h"
using namespace gen;

namespace {
template <class S> struct Ask { fcl::ContinuousCollisionRequest<S> rq; };
fcl::ContinuousCollisionRequestf single(const fcl::ContinuousCollisionRequestd& q) { fcl::ContinuousCollisionRequestf r; r.num_max_iterations = q.num_max_iterations; r.toc_err = (float)q.toc_err; r.ccd_motion_type = q.ccd_motion_type; r.gjk_solver_type = q.gjk_solver_type; r.ccd_solver_type = q.ccd_solver_type; return r; }
}
PBT(C32, "continuous", 2500, 40000) {
  // bodies that meet somewhere on straight paths, turning on the way
  int solver = ctx.pick(3); static const fcl::CCDSolverType ST[] = {fcl::CCDC_NAIVE, fcl::CCDC_CONSERVATIVE_ADVANCEMENT, fcl::CCDC_POLYNOMIAL_SOLVER}; static const char* SN[] = {"naive", "advancement", "polynomial"};
  fcl::ContinuousCollisionRequestd rq; rq.ccd_solver_type = ST[solver]; rq.gjk_solver_type = ctx.flip() ? fcl::GST_LIBCCD : fcl::GST_INDEP; rq.num_max_iterations = solver == 0 ? 10 * ctx.range(1, 4) : 10; rq.toc_err = 1e-4;
  rq.ccd_motion_type = solver == 2 ? fcl::CCDM_TRANS : ctx.flip() ? fcl::CCDM_TRANS : ctx.flip() ? fcl::CCDM_LINEAR : fcl::CCDM_SCREW;
  Two w; unsigned bvs = solver == 0 ? 255u : 1u << B_RSS | 1u << B_OBBRSS; w.A = any(ctx, solver == 2 ? 2 : 3, bvs, false, solver == 0); w.B = any(ctx, solver == 2 ? 2 : 3, w.A.k == A_MESH ? 1u << w.A.bv : bvs, false, solver == 0); placeTwo(ctx, w, 1);
  double u = ctx.uni(-0.2, 1.2); V3 v = vec(ctx, w.scale * ctx.pos_real(0.3, 4)); auto turn = [&](const T3& x) { T3 y = x; if (rq.ccd_motion_type != fcl::CCDM_TRANS && ctx.chance(2, 3)) { V3 ax = dir(ctx); y.linear() = Eigen::AngleAxisd(ctx.uni(-2.5, 2.5), ax).toRotationMatrix() * x.linear(); } return y; };
  T3 a0 = w.a, a1 = turn(w.a), b0 = shift(w.b, -v * u), b1 = shift(turn(w.b), v * (1 - u)); std::string key = std::string("continuous:") + SN[solver] + ":" + w.name + "/" + solverName(rq.gjk_solver_type);
  ctx.note([=](std::ostream& o) { o << "\n motion " << (int)rq.ccd_motion_type << " first to "; show(o, a1); o << " second from "; show(o, b0); o << " to "; show(o, b1); });
  auto ask = [&](double e, int i, fcl::ContinuousCollisionResultd& r) { V3 q = V3::Unit(i % 3) * (i < 3 ? e : -e); return fcl::continuousCollide(w.A.g.get(), a0, a1, w.B.g.get(), shift(b0, q), shift(b1, q), rq, r); };
  auto A = convert(w.A), B = convert(w.B); fcl::ContinuousCollisionResultf s; float tf = fcl::continuousCollide(A.get(), conv(a0), conv(a1), B.get(), conv(b0), conv(b1), single(rq), s);
  fcl::ContinuousCollisionResultd r; double td = ask(0, 0, r); ctx.nontrivial(r.is_collide); ctx.label(std::string(SN[solver]) + (r.is_collide ? ", meet" : ", do not meet"));
  auto D = [&](std::ostream& o) { o << "double precision: " << r.is_collide << " at " << r.time_of_contact << " (returned " << td << "), single: " << s.is_collide << " at " << s.time_of_contact << " (returned " << tf << ")"; };
  ctx.check(std::isfinite(s.time_of_contact) && s.time_of_contact >= 0 && s.time_of_contact <= 1, key + ":time", D);
  if (r.is_collide == s.is_collide && std::abs(r.time_of_contact - s.time_of_contact) <= 1e-2) return;
  // a difference counts only where each precision gives its answer at nearby poses too
  double lo = 2, hi = -1, flo = 2, fhi = -1; int yes = 0, no = 0, fyes = 0, fno = 0;
  for (int i = -1; i < 12; i++) {
    V3 q = i < 0 ? V3(V3::Zero()) : V3(V3::Unit(i % 3) * (i / 3 % 2 ? -2e-3 : 2e-3)); T3 p0 = b0, p1 = b1; if (i < 6) { p0 = shift(p0, q * w.scale); p1 = shift(p1, q * w.scale); } else { M3 R = Eigen::AngleAxisd(2e-3, q.normalized()).toRotationMatrix(); p0.linear() = R * p0.linear(); p1.linear() = R * p1.linear(); }
    fcl::ContinuousCollisionResultd z; fcl::continuousCollide(w.A.g.get(), a0, a1, w.B.g.get(), p0, p1, rq, z); z.is_collide ? yes++ : no++; lo = std::min(lo, z.time_of_contact); hi = std::max(hi, z.time_of_contact);
    fcl::ContinuousCollisionResultf y; fcl::continuousCollide(A.get(), conv(a0), conv(a1), B.get(), conv(p0), conv(p1), single(rq), y); y.is_collide ? fyes++ : fno++; flo = std::min(flo, (double)y.time_of_contact); fhi = std::max(fhi, (double)y.time_of_contact);
  }
  if ((yes && no) || (fyes && fno)) return; ctx.check(r.is_collide == s.is_collide, key + ":verdict", D);
  ctx.check(flo <= hi + 0.02 && fhi >= lo - 0.02, key + ":contact-time", D);
}
PBT_MAIN
