// PBT-NEEDS: collide distance
// C09 octree queries against brute force over leaves, C30 octree wrapper.
#include "gen_oct.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace gen;

namespace {
// the other object: parts with ids
struct Other { int kind; std::shared_ptr<fcl::CollisionGeometryd> g; std::vector<ref::Shape> part; std::vector<intptr_t> id; std::string desc, name; double size = 0; bool bounded = true, exact = false; T3 t; Oct o; };
enum { O_SHAPE, O_MESH, O_OCT };
struct Scene { Oct a; Other b; T3 ta; bool swap; fcl::GJKSolverType solver; std::vector<int> occ; std::vector<ref::Shape> boxes; double scale; std::string name; std::vector<std::vector<ref::Bounds>> d; };
void placeParts(Other& b, const Mesh& M, const ref::Shape& s) {
  b.part.clear(); b.id.clear();
  if (b.kind == O_SHAPE) { ref::Shape r = s; place(r, b.t); b.part.push_back(r); b.id.push_back(fcl::Contactd::NONE); }
  else if (b.kind == O_MESH) { TriWorld w = world(M, b.t); for (size_t i = 0; i < w.t.size(); i++) { ref::Shape T; T.k = ref::TRI; V3 o = (w.t[i][0] + w.t[i][1] + w.t[i][2]) / 3; T.t = o; for (auto& q : w.t[i]) T.v.push_back(q - o); T.f.push_back({{0, 1, 2}}); b.part.push_back(T); b.id.push_back((intptr_t)i); } }
  else for (auto& l : b.o.leaves) if (l.occupied) { b.part.push_back(l.box(b.t)); b.id.push_back(l.node - b.o.t->getRoot()); }
}
Scene scene(Ctx& c, bool dist) {
  Scene s; int n = c.chance(1, 30) ? 0 : c.range(1, c.chance(1, 5) ? 25 : 8); double span = c.pos_real(0.5, 3); s.a = octree(c, n, span, true); s.swap = c.flip(); s.solver = c.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  for (size_t i = 0; i < s.a.leaves.size(); i++) if (s.a.leaves[i].occupied) s.occ.push_back((int)i);
  s.ta = c.chance(1, 3) ? T3(T3::Identity()) : pose(c, 3); Other& b = s.b; b.kind = c.weighted({4, 3, 2}); Mesh M; Shape sh; b.t = T3::Identity();
  if (b.kind == O_SHAPE) { static const Kind K[] = {ref::SPHERE, ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL, ref::HALFSPACE, ref::PLANE}; Kind k = K[c.pick(dist ? 7 : 9)]; sh = shape(c, k, 0.1, 3); b.g = sh.g; b.desc = sh.desc; b.name = kindName(k); b.bounded = k != ref::HALFSPACE && k != ref::PLANE; b.size = b.bounded ? sh.r.size() : 1; b.exact = !b.bounded || k == ref::SPHERE || k == ref::BOX; }
  else if (b.kind == O_MESH) { M = mesh(c, 16, 0.7); int bv = c.pick(8), sp = c.pick(3), how = c.pick(7); b.g = buildAny(bv, M, sp, how); std::ostringstream o; o.precision(17); o << bvName(bv) << " splitter " << sp << " built " << how << " "; showMesh(o, M); b.desc = o.str(); b.name = std::string("mesh-") + bvName(bv); b.size = M.size(); }
  else { int q = c.chance(1, 20) ? 0 : c.range(1, 8); b.o = octree(c, q, span, true); b.g = b.o.g; b.desc = b.o.desc; b.name = "octree"; b.size = b.o.reach; b.exact = true; }
  s.scale = std::max(s.a.reach, b.size); b.t.linear() = rot(c); placeParts(b, M, sh.r);
  V3 p = s.ta.translation(); if (!s.occ.empty()) { ref::Shape x = s.a.leaves[s.occ[c.pick(s.occ.size())]].box(s.ta); V3 u = dir(c); p = x.sup(u); double g = c.weighted({3, 2, 1, 1}) == 0 ? 0 : c.uni(-1, dist ? 4 : 1.5) * std::min(s.a.reach, b.size); if (g != 0) p += u * g; if (b.bounded && !b.part.empty()) { ref::Shape y = b.part[c.pick(b.part.size())]; p -= y.sup(-u) ; } }
  if (b.bounded) b.t.translation() = p; else { V3 nn = b.part[0].wn(); b.t.translation() = nn * (nn.dot(p) - b.part[0].d); }
  placeParts(b, M, sh.r); for (int i : s.occ) s.boxes.push_back(s.a.leaves[i].box(s.ta));
  s.name = (s.swap ? b.name + "-octree" : "octree-" + b.name) + "/" + (s.solver == fcl::GST_LIBCCD ? "libccd" : "indep");
  s.d.resize(s.boxes.size()); for (size_t i = 0; i < s.boxes.size(); i++) for (auto& y : b.part) { if (dist || !y.bounded() || (s.boxes[i].t - y.centre()).norm() <= s.boxes[i].size() + 2 * y.size() + 1) s.d[i].push_back(ref::sd(s.boxes[i], y, 1e-6 * std::max(s.boxes[i].size(), y.size()))); else { ref::Bounds f; f.lo = f.hi = 1; s.d[i].push_back(f); } }
  c.note([&](std::ostream& o) { o << s.name << "\n " << s.a.desc << "\n  at "; show(o, s.ta); o << "\n " << b.desc << "\n  at "; show(o, b.t); o << "\n occupied leaves (centre, size):"; for (int i : s.occ) { o << " "; show(o, s.a.leaves[i].c); o << s.a.leaves[i].s; } });
  return s;
}
double off(const ref::Shape& x, const V3& p) { if (x.k != ref::TRI) return x.outside(p); V3 v[3]; for (int i = 0; i < 3; i++) v[i] = x.R * x.v[i] + x.t; return ref::pointTri(p, v[0], v[1], v[2]); }
}  // namespace

PBT(C09, "octree_collision", 15000, 400000) {
  Scene s = scene(ctx, false); Other& b = s.b; auto root = s.a.t->getRoot();
  typedef std::pair<intptr_t, intptr_t> PP; std::map<PP, std::pair<int, int>> must, may; auto tol = [&](int i, int j) { return 1e-3 * std::max(s.boxes[i].size(), b.part[j].bounded() ? b.part[j].size() : 1.0); };
  for (size_t i = 0; i < s.boxes.size(); i++) for (size_t j = 0; j < b.part.size(); j++) { PP k(s.a.leaves[s.occ[i]].node - root, b.id[j]); double t = tol(i, j); if (s.d[i][j].hi < -t) must[k] = {i, j}; if (s.d[i][j].lo <= t) may[k] = {i, j}; }
  ctx.nontrivial(!must.empty() && must.size() < s.boxes.size() * b.part.size()); ctx.label(s.name.substr(0, s.name.find('/')) + (must.empty() ? may.empty() ? " apart" : " touching" : " overlap"));
  int mode = ctx.pick(3); bool contact = ctx.flip(); size_t maxc = mode == 0 ? 1 : mode == 1 ? 1000000 : (size_t)ctx.range(1, 6);
  fcl::CollisionRequestd rq(maxc, contact); rq.gjk_solver_type = s.solver; fcl::CollisionResultd rs;
  size_t ret = s.swap ? fcl::collide(b.g.get(), b.t, s.a.g.get(), s.ta, rq, rs) : fcl::collide(s.a.g.get(), s.ta, b.g.get(), b.t, rq, rs);
  auto say = [&](std::ostream& o) { o << must.size() << " leaf pairs certainly overlap, " << may.size() << " may; limit " << maxc << ", " << rs.numContacts() << " contacts " << (contact ? "with" : "without") << " geometry"; };
  ctx.check(ret == rs.numContacts() && ret <= maxc, s.name + ":contact-count", say);
  if (!must.empty()) ctx.check(rs.isCollision(), s.name + ":missed", say); if (may.empty()) ctx.check(!rs.isCollision(), s.name + ":phantom", say);
  std::vector<fcl::CostSourced> cs; rs.getCostSources(cs); ctx.check(cs.empty(), s.name + ":costs-not-asked-for");
  std::map<PP, int> got;
  for (size_t k = 0; k < rs.numContacts(); k++) {
    auto& c = rs.getContact(k); bool fwd = c.o1 == s.a.g.get() && c.o2 == b.g.get(), bwd = c.o2 == s.a.g.get() && c.o1 == b.g.get(); ctx.check(fwd || bwd, s.name + ":objects", say);
    PP p(fwd ? c.b1 : c.b2, fwd ? c.b2 : c.b1); auto D0 = [&](std::ostream& o) { o << "contact of cell " << p.first << " and part " << p.second << " pos "; show(o, c.pos); o << " normal "; show(o, c.normal); o << " depth " << c.penetration_depth << "; "; say(o); };
    ctx.check(may.count(p) > 0, s.name + ":wrong-pair", D0); auto ij = may[p]; double t = tol(ij.first, ij.second); got[p]++;
    if (!contact) ctx.check(got[p] == 1, s.name + ":pair-repeated", D0);
    if (contact && must.count(p)) {
      ref::Shape &x = s.boxes[ij.first], &y = b.part[ij.second]; V3 n = fwd ? V3(c.normal) : V3(-c.normal); double sc = t * 1000;
      double r; if (y.bounded()) r = x.h_(n) + y.h_(-n) - c.penetration_depth; else { ref::Shape z = y; z.t += n * c.penetration_depth; r = -ref::sd(x, z).lo; }
      auto D = [&](std::ostream& o) { D0(o); o << "; overlap left " << r << ", reference [" << s.d[ij.first][ij.second].lo << "," << s.d[ij.first][ij.second].hi << "]"; };
      ctx.check(std::abs(c.normal.norm() - 1) < 1e-6, s.name + ":normal-not-unit", D); ctx.check(c.penetration_depth >= -t, s.name + ":depth-negative", D);
      if (b.exact && b.kind != O_OCT && y.k != ref::BOX) { ctx.check(std::abs(r) <= 10 * t, s.name + ":does-not-separate", D); }
      else if (b.exact) { ctx.check(r >= -0.01 * sc - 0.06 * c.penetration_depth, s.name + ":depth-beyond-overlap", D); }
      else if (s.solver == fcl::GST_LIBCCD) ctx.check(r >= -10 * t, s.name + ":depth-beyond-overlap", D);
      double po = std::max(x.outside(c.pos), off(y, c.pos)); if (b.exact || s.solver == fcl::GST_LIBCCD) ctx.check(po <= c.penetration_depth + 10 * t, s.name + ":position-off", D);
      fcl::AABBd cell; octomap::OcTreeKey key; unsigned depth = 0; V3 q = s.ta.inverse() * c.pos;
      if (x.outside(c.pos) < 0.3 * s.a.res) { auto nd = s.a.g->getNodeByQueryCellId(p.first, q, &cell, &key, &depth); auto& L = s.a.leaves[s.occ[ij.first]]; ctx.check(nd == L.node && std::abs(cell.width() - L.s) < 1e-6 && (cell.center() - L.c).norm() < 1e-6, s.name + ":cell-lookup", D); }
    }
  }
  if (mode == 1) for (auto& p : must) ctx.check(got.count(p.first) > 0, s.name + ":pair-missing", [&](std::ostream& o) { o << "cell " << p.first.first << " and part " << p.first.second << " overlap (" << s.d[p.second.first][p.second.second].lo << ") but are not reported; "; say(o); });
  if (mode == 2 && !contact) ctx.check(rs.numContacts() >= std::min(maxc, must.size()), s.name + ":too-few-contacts", say);
}

PBT(C09, "octree_distance", 12000, 300000) {
  Scene s = scene(ctx, true); Other& b = s.b; auto root = s.a.t->getRoot(); double lo = 1e300, hi = 1e300; double sc = 0;
  for (size_t i = 0; i < s.boxes.size(); i++) for (size_t j = 0; j < b.part.size(); j++) { lo = std::min(lo, s.d[i][j].lo); hi = std::min(hi, s.d[i][j].hi); sc = std::max(sc, std::max(s.boxes[i].size(), b.part[j].size())); }
  double tol = 1e-3 * sc; bool sep = lo > tol, ovl = hi < -tol; bool none = lo > 1e200; if (!sep && !ovl) ctx.discard("touching within tolerance");
  fcl::DistanceRequestd rq; rq.enable_nearest_points = ctx.flip(); rq.enable_signed_distance = ctx.chance(1, 4); rq.gjk_solver_type = s.solver; fcl::DistanceResultd rs;
  double d = s.swap ? fcl::distance(b.g.get(), b.t, s.a.g.get(), s.ta, rq, rs) : fcl::distance(s.a.g.get(), s.ta, b.g.get(), b.t, rq, rs);
  ctx.nontrivial(!none && s.boxes.size() * b.part.size() > 1); ctx.label(s.name.substr(0, s.name.find('/')) + (none ? " nothing occupied" : sep ? " apart" : " overlap"));
  auto D = [&](std::ostream& o) { o << "distance() returned " << d << ", min_distance " << rs.min_distance << ", ids " << rs.b1 << " " << rs.b2 << ", reference [" << lo << ", " << hi << "], points "; show(o, rs.nearest_points[0]); show(o, rs.nearest_points[1]); };
  ctx.check(d == rs.min_distance, s.name + ":return-differs", D);
  if (none) { ctx.check(d > 1e100, s.name + ":distance-to-nothing", D); return; }
  if (ovl) { ctx.check(d <= (rq.enable_signed_distance ? tol : 1e-12), s.name + ":positive-when-overlapping", D); return; }
  ctx.check(d >= lo - tol && d <= hi + tol, s.name + ":wrong-distance", D);
  bool fwd = rs.o1 == s.a.g.get() && rs.o2 == b.g.get(), bwd = rs.o2 == s.a.g.get() && rs.o1 == b.g.get(); ctx.check(fwd || bwd, s.name + ":objects", D);
  intptr_t ia = fwd ? rs.b1 : rs.b2, ib = fwd ? rs.b2 : rs.b1; int I = -1, J = -1; for (size_t i = 0; i < s.occ.size(); i++) if (s.a.leaves[s.occ[i]].node - root == ia) I = (int)i; for (size_t j = 0; j < b.id.size(); j++) if (b.id[j] == ib) J = (int)j;
  ctx.check(I >= 0 && J >= 0, s.name + ":ids", D); ctx.check(s.d[I][J].lo <= hi + 2 * tol, s.name + ":named-pair-not-nearest", D);
  if (rq.enable_nearest_points) {
    V3 p = fwd ? rs.nearest_points[0] : rs.nearest_points[1], q = fwd ? rs.nearest_points[1] : rs.nearest_points[0];
    ctx.check(s.boxes[I].outside(p) < 10 * tol && off(b.part[J], q) < 10 * tol, s.name + ":point-not-on-object", D);
    ctx.check(std::abs((p - q).norm() - d) < 10 * tol, s.name + ":points-not-at-distance", D);
    if (s.boxes[I].outside(p) < 0.3 * s.a.res) { fcl::AABBd cell; auto nd = s.a.g->getNodeByQueryCellId(ia, s.ta.inverse() * p, &cell); ctx.check(nd == s.a.leaves[s.occ[I]].node, s.name + ":cell-lookup", D); }
  }
}
PBT(C30, "wrapper", 15000, 400000) {
  int n = ctx.chance(1, 30) ? 0 : ctx.range(1, ctx.chance(1, 4) ? 60 : 12); double span = ctx.pos_real(0.3, 12); Oct o = octree(ctx, n, span, true); auto& g = *o.g; ctx.nontrivial(o.leaves.size() > 1);
  ctx.note([&](std::ostream& q) { q << o.desc << "; " << o.leaves.size() << " leaves"; });
  auto same = [&](const V3& a, const V3& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-6 * (1 + o.reach); };
  // thresholds
  double a = ctx.uni(0.02, 0.98), f = ctx.uni(0.02, 0.98), df = ctx.uni(0, 1); fcl::OcTreed h(std::shared_ptr<const octomap::OcTree>(o.t)); 
  ctx.check(std::abs(h.getOccupancyThres() - o.t->getOccupancyThres()) < 1e-6 && std::abs(h.getFreeThres() - 0.5) < 1e-6 && std::abs(h.getDefaultOccupancy() - o.t->getOccupancyThres()) < 1e-6, "default-thresholds");
  h.setOccupancyThres(a); h.setFreeThres(f); h.setCellDefaultOccupancy(df); ctx.check(std::abs(h.getOccupancyThres() - a) < 1e-6 && std::abs(h.getFreeThres() - f) < 1e-6 && h.getDefaultOccupancy() == df, "thresholds", [&](std::ostream& q) { q << a << " " << f << " read back " << h.getOccupancyThres() << " " << h.getFreeThres(); });
  for (auto& l : o.leaves) { bool oc = h.isNodeOccupied(l.node), fr = h.isNodeFree(l.node), un = h.isNodeUncertain(l.node); if (std::abs(l.occ - a) > 1e-5) ctx.check(oc == (l.occ > a), "node-occupied"); if (std::abs(l.occ - f) > 1e-5) ctx.check(fr == (l.occ < f), "node-free"); ctx.check(un == (!oc && !fr), "node-uncertain"); }
  // boxes
  auto bx = g.toBoxes(); std::vector<const Leaf*> occ; for (auto& l : o.leaves) { bool want = l.occ >= g.getOccupancyThres() - 1e-7; if (std::abs(l.occ - g.getOccupancyThres()) < 1e-5) want = g.isNodeOccupied(l.node); if (want) occ.push_back(&l); }
  ctx.check(bx.size() == occ.size(), "boxes-count", [&](std::ostream& q) { q << bx.size() << " boxes, " << occ.size() << " occupied leaves"; });
  for (auto l : occ) { bool found = false; for (auto& b : bx) if (same(V3(b[0], b[1], b[2]), l->c) && std::abs(b[3] - l->s) < 1e-9 && std::abs(b[4] - l->occ) < 1e-6) found = true; ctx.check(found, "box-missing", [&](std::ostream& q) { q << "no box for the leaf at "; show(q, l->c); q << " size " << l->s; }); }
  // structure seen through the wrapper
  if (g.getRoot()) {
    std::vector<std::pair<const octomap::OcTreeNode*, fcl::AABBd>> st; st.push_back({g.getRoot(), g.getRootBV()}); std::map<const octomap::OcTreeNode*, fcl::AABBd> cell; size_t nodes = 0;
    while (!st.empty()) { auto x = st.back(); st.pop_back(); nodes++; bool any = false; for (unsigned i = 0; i < 8; i++) if (g.nodeHasChildren(x.first) && g.nodeChildExists(x.first, i)) { any = true; fcl::AABBd c; fcl::computeChildBV(x.second, i, c); st.push_back({static_cast<const fcl::OcTreed&>(g).getNodeChild(x.first, i), c}); } ctx.check(any == g.nodeHasChildren(x.first), "children"); if (!any) cell[x.first] = x.second; }
    ctx.check(nodes == o.t->size() && cell.size() == o.leaves.size(), "walk", [&](std::ostream& q) { q << nodes << " nodes, " << cell.size() << " leaves seen; octomap has " << o.t->size() << " and " << o.leaves.size(); });
    for (auto& l : o.leaves) { auto it = cell.find(l.node); ctx.check(it != cell.end() && same(it->second.min_, l.c - V3::Constant(l.s / 2)) && same(it->second.max_, l.c + V3::Constant(l.s / 2)), "cell-box", [&](std::ostream& q) { q << "leaf at "; show(q, l.c); q << " size " << l.s; }); }
  } else ctx.check(o.leaves.empty(), "no-root");
  // lookup by query cell id
  for (int k = 0; k < 6 && !o.leaves.empty(); k++) {
    auto& l = o.leaves[ctx.pick(o.leaves.size())]; intptr_t id = l.node - g.getRoot(); V3 p = l.c; for (int i = 0; i < 3; i++) { int w = ctx.pick(4); p[i] += w == 0 ? -l.s / 2 : w == 1 ? l.s / 2 : ctx.uni(-0.5, 0.5) * l.s; }
    auto W = [&](std::ostream& q) { q << "cell at "; show(q, l.c); q << " size " << l.s << ", point "; show(q, p); };
    fcl::AABBd bb; octomap::OcTreeKey key; unsigned depth = 99; auto nd = g.getNodeByQueryCellId(id, p, &bb, &key, &depth); ctx.check(nd == l.node, "lookup", W);
    ctx.check(same(bb.min_, l.c - V3::Constant(l.s / 2)) && same(bb.max_, l.c + V3::Constant(l.s / 2)), "lookup-box", W); ctx.check(o.t->search(key, depth) == l.node, "lookup-key", W); ctx.check(g.getNodeByQueryCellId(id, p) == l.node, "lookup-plain", W);
    ctx.check(g.getNodeByQueryCellId(id + 1, p) != l.node, "lookup-other-id", W);
    V3 far = l.c + dir(ctx).cwiseSign() * (l.s / 2 + 3 * o.res); V3 d = (far - l.c).cwiseAbs() - V3::Constant(l.s / 2); if (d.maxCoeff() > 2.1 * o.res) { depth = 99; ctx.check(g.getNodeByQueryCellId(id, far, nullptr, nullptr, &depth) == nullptr && depth == 99, "lookup-far", W); }
  }
}
PBT_MAIN
