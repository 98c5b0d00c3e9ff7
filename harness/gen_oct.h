// Octrees: generator and the list of their leaves, read from octomap itself.
#ifndef GEN_OCT_H
#define GEN_OCT_H
#include "gen_mesh.h"
#include "fcl/geometry/octree/octree.h"
#include <thread>
namespace gen {
struct Leaf { V3 c; double s; double occ; const octomap::OcTreeNode* node; bool occupied, free_; ref::Shape box(const T3& x) const { ref::Shape r; r.k = ref::BOX; r.h = V3(s, s, s) / 2; r.R = x.linear(); r.t = x * c; return r; } };
struct Oct { std::shared_ptr<octomap::OcTree> t; std::shared_ptr<fcl::OcTreed> g; std::vector<Leaf> leaves; std::string desc; double res, reach = 0; };
// n: number of updated cells, span: where they are
inline Oct octree(Ctx& c, int n, double span, bool thresholds = false) {
  Oct O; O.res = c.flip() ? 0.1 * c.range(1, 8) : c.pos_real(0.08, 0.8); O.t = std::make_shared<octomap::OcTree>(O.res); std::ostringstream d; d.precision(17); d << "octree(res " << O.res;
  int mode = c.pick(3); V3 base = vec(c, span);
  bool away = c.chance(1, 8);   // later cells are made by another thread: its part of the heap, and so its nodes' addresses, lie far from the root's
  for (int i = 0; i < n; i++) {
    V3 p = mode == 0 ? vec(c, span) : mode == 1 ? V3(base + vec(c, 2.5 * O.res)) : V3(base + O.res * V3(i & 1, i >> 1 & 1, i >> 2 & 1)); int k = c.weighted({6, 2, 1, 1});
    octomap::point3d q((float)p[0], (float)p[1], (float)p[2]);
    int m = k == 2 ? c.range(2, 8) : 1; float l = k == 3 ? (float)c.uni(-1, 1) : 0.f; auto put = [&]() { if (k == 3) O.t->setNodeValue(q, l); else for (int x = 0; x < m; x++) O.t->updateNode(q, k != 1); };
    if (away && i) std::thread(put).join(); else put();
    d << "; " << "+f0v"[k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : 3]; std::ostringstream o; show(o, p); d << o.str();
  }
  if (c.chance(1, 3)) { O.t->prune(); d << "; pruned"; }
  O.g = std::make_shared<fcl::OcTreed>(std::shared_ptr<const octomap::OcTree>(O.t));
  if (thresholds && c.chance(1, 3)) { double a = c.uni(0.5, 0.9); O.g->setOccupancyThres(a); d << "; occupied from " << a; if (c.flip()) { double f = c.uni(0.1, 0.5); O.g->setFreeThres(f); d << ", free to " << f; } }
  for (auto it = O.t->begin_leafs(), e = O.t->end_leafs(); it != e; ++it) { Leaf l; l.c = V3(it.getX(), it.getY(), it.getZ()); l.s = it.getSize(); l.node = &*it; l.occ = it->getOccupancy(); double lo = it->getLogOdds(); l.occupied = lo >= octomap::logodds(O.g->getOccupancyThres()) - 0; l.free_ = lo <= octomap::logodds(O.g->getFreeThres()); l.occupied = O.g->isNodeOccupied(l.node); l.free_ = O.g->isNodeFree(l.node); O.leaves.push_back(l); O.reach = std::max(O.reach, l.c.norm() + l.s); }
  if (away && n > 1) { d << "; made by two threads"; c.label("octree made by two threads"); }
  d << ")"; O.desc = d.str(); O.g->computeLocalAABB(); return O;
}
}  // namespace gen
#endif
