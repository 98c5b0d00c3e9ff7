// Bounding volumes seen through their public fields only: how far outside is a point, is the volume well formed.
#ifndef GEN_BV_H
#define GEN_BV_H
#include "gen_mesh.h"
#include "fcl/math/bv/utility.h"
namespace {
using gen::V3; using gen::M3; using gen::T3;
typedef fcl::AABBd AABB; typedef fcl::OBBd OBB; typedef fcl::RSSd RSS; typedef fcl::OBBRSSd OBBRSS; typedef fcl::kIOSd kIOS;
typedef fcl::KDOPd<16> K16; typedef fcl::KDOPd<18> K18; typedef fcl::KDOPd<24> K24;

// how far outside a point is, from the public fields alone (<= 0: inside); not-a-number counts as outside
double nn(double x) { return x == x ? x : ref::INF; }
double out(const AABB& b, const V3& p) { double m = -ref::INF; for (int i = 0; i < 3; i++) m = std::max(m, std::max(nn(b.min_[i] - p[i]), nn(p[i] - b.max_[i]))); return m; }
double out(const OBB& b, const V3& p) { double m = -ref::INF; for (int i = 0; i < 3; i++) m = std::max(m, nn(std::abs(b.axis.col(i).dot(p - b.To)) - b.extent[i])); return m; }
double out(const RSS& b, const V3& p) {
  double q[3]; for (int i = 0; i < 3; i++) q[i] = b.axis.col(i).dot(p - b.To);
  for (int i = 0; i < 2; i++) q[i] -= std::max(0.0, std::min(b.l[i], q[i]));
  return nn(std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]) - b.r);
}
double out(const OBBRSS& b, const V3& p) { return std::max(out(b.obb, p), out(b.rss, p)); }
double out(const kIOS& b, const V3& p) { double m = out(b.obb, p); if (b.num_spheres < 1 || b.num_spheres > 5) return ref::INF; for (unsigned i = 0; i < b.num_spheres; i++) m = std::max(m, nn((p - b.spheres[i].o).norm() - b.spheres[i].r)); return m; }
const int KD[12][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 0, 1}, {0, 1, 1}, {1, -1, 0}, {1, 0, -1}, {0, 1, -1}, {1, 1, -1}, {1, -1, 1}, {-1, 1, 1}};
V3 kdir(int i) { return V3(KD[i][0], KD[i][1], KD[i][2]); }
template <size_t N> double out(const fcl::KDOP<double, N>& b, const V3& p) {
  double m = -ref::INF; for (size_t i = 0; i < N / 2; i++) { double x = kdir((int)i).dot(p), l = kdir((int)i).norm(); m = std::max(m, std::max(nn(b.dist(i) - x), nn(x - b.dist(i + N / 2))) / l); } return m;
}
// fields describe a proper volume: orthonormal right-handed axes, nothing negative
double frameError(const M3& a) { double e = 0; M3 x = a.transpose() * a - M3::Identity(); for (int i = 0; i < 9; i++) e = std::max(e, nn(std::abs(x.data()[i]))); return std::max(e, nn(std::abs(a.determinant() - 1))); }
double bad(const AABB&) { return 0; }
double bad(const OBB& b) { return frameError(b.axis) + (b.extent.minCoeff() >= 0 ? 0 : 1); }
double bad(const RSS& b) { return frameError(b.axis) + (b.l[0] >= 0 && b.l[1] >= 0 && b.r >= 0 ? 0 : 1); }
double bad(const OBBRSS& b) { return std::max(bad(b.obb), bad(b.rss)); }
double bad(const kIOS& b) { return bad(b.obb); }
template <size_t N> double bad(const fcl::KDOP<double, N>&) { return 0; }

template <class B> struct Nm; 
#define NM(T, s) template <> struct Nm<T> { static const char* n() { return s; } };
NM(AABB, "AABB") NM(OBB, "OBB") NM(RSS, "RSS") NM(OBBRSS, "OBBRSS") NM(kIOS, "kIOS") NM(K16, "KDOP16") NM(K18, "KDOP18") NM(K24, "KDOP24")

}  // namespace
#endif
