// Any geometry, converted to single precision.
#ifndef GEN_FLOAT_H
#define GEN_FLOAT_H
#include "gen_any.h"
namespace gen {
using F3 = fcl::Vector3f; using TF = fcl::Transform3f;
// f: units of the single-precision world
inline TF conv(const T3& x, double f = 1) { TF r = TF::Identity(); r.linear() = x.linear().cast<float>(); r.translation() = (f * x.translation()).cast<float>(); return r; }
template <class BV> std::shared_ptr<fcl::CollisionGeometryf> meshF(const Mesh& M, int splitter, double f) {
  auto m = std::make_shared<fcl::BVHModel<BV>>(); static const fcl::detail::SplitMethodType sm[] = {fcl::detail::SPLIT_METHOD_MEAN, fcl::detail::SPLIT_METHOD_MEDIAN, fcl::detail::SPLIT_METHOD_BV_CENTER};
  m->bv_splitter.reset(new fcl::detail::BVSplitter<BV>(sm[splitter])); std::vector<F3> v; for (auto& p : M.v) v.push_back((f * p).cast<float>()); m->beginModel(); m->addSubModel(v, M.t); m->endModel(); m->computeLocalAABB(); return m;
}
inline std::shared_ptr<fcl::CollisionGeometryf> convert(const Any& a, double f = 1) {
  std::shared_ptr<fcl::CollisionGeometryf> g;
  if (a.k == A_MESH) {
    switch (a.bv) {
      case B_AABB: return meshF<fcl::AABBf>(a.M, a.split, f); case B_OBB: return meshF<fcl::OBBf>(a.M, a.split, f); case B_RSS: return meshF<fcl::RSSf>(a.M, a.split, f); case B_OBBRSS: return meshF<fcl::OBBRSSf>(a.M, a.split, f);
      case B_KIOS: return meshF<fcl::kIOSf>(a.M, a.split, f); case B_K16: return meshF<fcl::KDOPf<16>>(a.M, a.split, f); case B_K18: return meshF<fcl::KDOPf<18>>(a.M, a.split, f); default: return meshF<fcl::KDOPf<24>>(a.M, a.split, f);
    }
  }
  if (a.k == A_OCT) { auto o = std::make_shared<fcl::OcTreef>(std::shared_ptr<const octomap::OcTree>(a.o.t)); g = o; }
  else {
    auto d = a.g.get();
    switch (d->getNodeType()) {
      case fcl::GEOM_SPHERE: g.reset(new fcl::Spheref((float)(f * static_cast<fcl::Sphered*>(d)->radius))); break;
      case fcl::GEOM_BOX: g.reset(new fcl::Boxf(F3((f * static_cast<fcl::Boxd*>(d)->side).cast<float>()))); break;
      case fcl::GEOM_CAPSULE: { auto q = static_cast<fcl::Capsuled*>(d); g.reset(new fcl::Capsulef((float)(f * q->radius), (float)(f * q->lz))); break; }
      case fcl::GEOM_CYLINDER: { auto q = static_cast<fcl::Cylinderd*>(d); g.reset(new fcl::Cylinderf((float)(f * q->radius), (float)(f * q->lz))); break; }
      case fcl::GEOM_CONE: { auto q = static_cast<fcl::Coned*>(d); g.reset(new fcl::Conef((float)(f * q->radius), (float)(f * q->lz))); break; }
      case fcl::GEOM_ELLIPSOID: g.reset(new fcl::Ellipsoidf(F3((f * static_cast<fcl::Ellipsoidd*>(d)->radii).cast<float>()))); break;
      case fcl::GEOM_HALFSPACE: { auto q = static_cast<fcl::Halfspaced*>(d); g.reset(new fcl::Halfspacef(F3(q->n.cast<float>()), (float)(f * q->d))); break; }
      case fcl::GEOM_PLANE: { auto q = static_cast<fcl::Planed*>(d); g.reset(new fcl::Planef(F3(q->n.cast<float>()), (float)(f * q->d))); break; }
      default: { auto q = static_cast<fcl::Convexd*>(d); auto v = std::make_shared<std::vector<F3>>(); for (auto& p : q->getVertices()) v->push_back((f * p).cast<float>()); g.reset(new fcl::Convexf(v, q->getFaceCount(), std::make_shared<const std::vector<int>>(q->getFaces()))); }
    }
  }
  g->computeLocalAABB(); return g;
}
}  // namespace gen
#endif
