// Any collision geometry (shape, mesh under any bounding volume, octree) with its convex parts, and placements of pairs.
#ifndef GEN_ANY_H
#define GEN_ANY_H
#include "gen_oct.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
#include "fcl/narrowphase/collision_object.h"
namespace gen {
enum AnyKind { A_SHAPE, A_MESH, A_OCT };
struct Any {
  AnyKind k; std::shared_ptr<fcl::CollisionGeometryd> g; std::string desc, name; Shape s; Mesh M; int bv = 0; Oct o; double size = 1; bool bounded = true; int split = 0;
  struct Part { ref::Shape r; intptr_t id; V3 lo, hi; double density; bool occupied, free_; };
  // the parts placed in the world
  std::vector<Part> parts(const T3& x) const {
    std::vector<Part> v;
    auto box = [](Part& p) { for (int i = 0; i < 3; i++) { p.hi[i] = p.r.h_(V3::Unit(i)); p.lo[i] = -p.r.h_(V3(-V3::Unit(i))); } };
    auto state = [&](Part& p) { p.density = g->cost_density; p.occupied = g->isOccupied(); p.free_ = g->isFree(); };
    if (k == A_SHAPE) { Part p; p.r = s.r; place(p.r, x); p.id = fcl::Contactd::NONE; if (bounded) box(p); else { p.lo.setConstant(-1e300); p.hi.setConstant(1e300); } state(p); v.push_back(p); }
    else if (k == A_MESH) { TriWorld w = world(M, x); for (size_t i = 0; i < w.t.size(); i++) { Part p; p.r.k = ref::TRI; V3 c = (w.t[i][0] + w.t[i][1] + w.t[i][2]) / 3; p.r.R.setIdentity(); p.r.t = c; for (auto& q : w.t[i]) p.r.v.push_back(q - c); p.r.f.push_back({{0, 1, 2}}); p.id = (int)i; p.lo = w.lo[i]; p.hi = w.hi[i]; state(p); v.push_back(p); } }
    else for (auto& l : o.leaves) { Part p; p.r = l.box(x); p.id = l.node - o.t->getRoot(); box(p); p.density = l.occ; p.occupied = l.occupied; p.free_ = l.free_; v.push_back(p); }
    return v;
  }
  // a point on or in the geometry, in its own frame
  V3 point(Ctx& c) const {
    if (k == A_SHAPE) { if (!bounded) return s.r.n * s.r.d; ref::Shape r = s.r; r.R.setIdentity(); r.t.setZero(); return r.sup(dir(c)); }
    if (k == A_MESH) { auto& t = M.t[c.pick((int)M.t.size())]; double a = c.uni(0, 1), b = c.uni(0, 1 - a); return M.v[t[0]] * (1 - a - b) + M.v[t[1]] * a + M.v[t[2]] * b; }
    if (o.leaves.empty()) return V3::Zero(); auto& l = o.leaves[c.pick((int)o.leaves.size())]; return l.c + dir(c) * (l.s / 2);
  }
};
// bvs: bit set of allowed bounding volumes; kinds: bit set of AnyKind
inline Any any(Ctx& c, unsigned kinds, unsigned bvs, bool unbounded = false, bool ellipsoid = true) {
  Any a; int w[3] = {kinds & 1 ? 4 : 0, kinds & 2 ? 4 : 0, kinds & 4 ? 2 : 0}; int q = c.pick(w[0] + w[1] + w[2]); a.k = q < w[0] ? A_SHAPE : q < w[0] + w[1] ? A_MESH : A_OCT;
  std::ostringstream d; d.precision(17);
  if (a.k == A_SHAPE) { static const Kind K[] = {ref::SPHERE, ref::BOX, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::HULL, ref::ELLIPSOID, ref::HALFSPACE, ref::PLANE}; int n = c.pick(unbounded ? 9 : 7); if (!ellipsoid && n == 6) n = 5; Kind k = K[n]; a.s = shape(c, k, 0.2, 2); a.g = a.s.g; d << a.s.desc; a.name = kindName(k); a.bounded = n < 7; a.size = a.bounded ? a.s.r.size() : 1; if (a.bounded) { for (int i = 0; i < 6; i++) { V3 e = V3::Unit(i / 2) * (i % 2 ? -1 : 1); a.size = std::max(a.size, std::abs(a.s.r.h_(e))); } } }
  else if (a.k == A_MESH) { std::vector<int> b; for (int i = 0; i < 8; i++) if (bvs >> i & 1) b.push_back(i); a.bv = b[c.pick((int)b.size())]; a.M = mesh(c, c.chance(1, 5) ? 40 : 16, 0.7); int sp = a.split = c.pick(3); a.g = buildAny(a.bv, a.M, sp, 0); a.size = a.M.size(); d << bvName(a.bv) << " mesh splitter " << sp << " "; showMesh(d, a.M); a.name = bvName(a.bv); }
  else { a.o = octree(c, c.range(1, c.chance(1, 4) ? 20 : 6), c.pos_real(0.5, 2)); a.g = a.o.g; d << a.o.desc; a.name = "octree"; a.size = a.o.reach; }
  a.desc = d.str(); return a;
}
struct Two { Any A, B; T3 a, b; double scale; std::string name; };
// near: largest gap relative to the size
inline void placeTwo(Ctx& c, Two& w, double near) {
  w.a = c.chance(1, 5) ? T3(T3::Identity()) : pose(c, 3); w.b.setIdentity(); w.b.linear() = rot(c); w.scale = std::max(w.A.size, w.B.size); double m = std::min(w.A.size, w.B.size);
  V3 u = dir(c); double g = c.weighted({3, 2, 1}) == 0 ? c.uni(-0.3, 0.3) * m : c.chance(1, 6) ? 0 : c.uni(-1, near) * m;
  if (!w.A.bounded && w.B.bounded) { V3 n = w.a.linear() * w.A.s.r.n; V3 p = w.a * V3(w.A.s.r.n * w.A.s.r.d); w.b.translation() = p - w.b.linear() * w.B.point(c) + n * g; }
  else w.b.translation() = w.a * w.A.point(c) - w.b.linear() * w.B.point(c) + u * g;
  w.name = w.A.name + "-" + w.B.name;
  c.note([=](std::ostream& o) { o << w.A.desc << "\n  at "; show(o, w.a); o << "\n " << w.B.desc << "\n  at "; show(o, w.b); });
}
// two geometries fcl can collide; meshes share the bounding volume
inline Two two(Ctx& c, unsigned kinds = 7, unsigned bvs = 255, bool unbounded = true, double near = 0.5) {
  Two w; w.A = any(c, kinds, bvs, unbounded); unsigned k2 = kinds, b2 = bvs; if (w.A.k == A_MESH) b2 = 1u << w.A.bv; w.B = any(c, k2, b2, unbounded); if (c.flip()) std::swap(w.A, w.B); placeTwo(c, w, near); return w;
}
inline T3 shift(T3 t, const V3& v) { t.translation() += v; return t; }
inline const char* solverName(int s) { return s == fcl::GST_LIBCCD ? "libccd" : "indep"; }
}  // namespace gen
#endif
