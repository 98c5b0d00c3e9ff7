// C13 broad phase collision, C14 broad phase distance, C15 registry and early stop: model-based histories over every manager.
// PBT-NEEDS: collide distance
#include "gen_oct.h"
#include "fcl/broadphase/broadphase_bruteforce.h"
#include "fcl/broadphase/broadphase_SSaP.h"
#include "fcl/broadphase/broadphase_SaP.h"
#include "fcl/broadphase/broadphase_interval_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree.h"
#include "fcl/broadphase/broadphase_dynamic_AABB_tree_array.h"
#include "fcl/broadphase/broadphase_spatialhash.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/default_broadphase_callbacks.h"
#include "fcl/geometry/octree/octree.h"
#include "fcl/narrowphase/collision.h"
#include "fcl/narrowphase/distance.h"
using namespace gen;

namespace {
using Obj = fcl::CollisionObjectd; using Mgr = fcl::BroadPhaseCollisionManagerd; using Box = fcl::AABB<double>;
using SparseHash = fcl::detail::SparseHashTable<Box, Obj*, fcl::detail::SpatialHash<double>>;
using HashA = fcl::SpatialHashingCollisionManager<double>; using HashB = fcl::SpatialHashingCollisionManager<double, SparseHash>;
const int NM = 8;
const char* mgrName(int k) { static const char* n[] = {"Naive", "SSaP", "SaP", "IntervalTree", "DynTree", "DynTreeArray", "SpatialHash", "SpatialHashSparse"}; return n[k]; }
struct Params { double cell; V3 lo, hi; unsigned table; int level, init, thr, nb = 10, inc = 10; std::string desc; };
Params params(Ctx& c, int k) {
  Params p; p.cell = 1; p.lo = V3(-8, -8, -8); p.hi = V3(8, 8, 8); p.table = 1000; p.level = 0; p.init = 0; p.thr = 2;
  if (k == 4 || k == 5) { p.level = c.range(0, 3); p.init = c.range(0, 3); p.thr = c.range(2, 6); if (c.flip()) { p.nb = c.range(-3, 3); p.inc = c.range(-1, 4); } p.desc = " level " + std::to_string(p.level) + " init " + std::to_string(p.init) + " threshold " + std::to_string(p.thr); }
  if (k >= 6) { p.cell = c.pos_real(0.5, 8); double h = c.pos_real(1, 10); V3 m = c.flip() ? V3(0, 0, 0) : vec(c, 4); if (c.flip()) { h = std::ceil(h); for (int i = 0; i < 3; i++) m[i] = std::floor(m[i]); p.cell = std::ceil(p.cell); } int cap = c.flip() ? 14 : 6; p.cell = std::max(p.cell, 2 * h / cap); p.lo = m - V3(h, h, h); p.hi = m + V3(h, h, h); p.table = cap > 6 ? c.range(200, 1200) : c.pick(3) == 0 ? 1000 : c.range(1, 40);
    std::ostringstream o; o << " cell " << p.cell << " scene "; show(o, p.lo); show(o, p.hi); o << " table " << p.table; p.desc = o.str(); }
  return p;
}
std::unique_ptr<Mgr> make(int k, const Params& p) {
  switch (k) {
    case 0: return std::unique_ptr<Mgr>(new fcl::NaiveCollisionManagerd); case 1: return std::unique_ptr<Mgr>(new fcl::SSaPCollisionManagerd);
    case 2: return std::unique_ptr<Mgr>(new fcl::SaPCollisionManagerd); case 3: return std::unique_ptr<Mgr>(new fcl::IntervalTreeCollisionManagerd);
    case 4: { auto m = new fcl::DynamicAABBTreeCollisionManagerd; m->tree_topdown_level = p.level; m->tree_init_level = p.init; m->tree_topdown_balance_threshold = p.thr; m->max_tree_nonbalanced_level = p.nb; m->tree_incremental_balance_pass = p.inc; return std::unique_ptr<Mgr>(m); }
    case 5: { auto m = new fcl::DynamicAABBTreeCollisionManager_Arrayd; m->tree_topdown_level = p.level; m->tree_init_level = p.init; m->tree_topdown_balance_threshold = p.thr; m->max_tree_nonbalanced_level = p.nb; m->tree_incremental_balance_pass = p.inc; return std::unique_ptr<Mgr>(m); }
    case 6: return std::unique_ptr<Mgr>(new HashA(p.cell, p.lo, p.hi, p.table));
    default: return std::unique_ptr<Mgr>(new HashB(p.cell, p.lo, p.hi, p.table));
  }
}
// objects: boxes of random, integer or zero sizes, spheres, rarely a half-space
struct World { std::vector<std::unique_ptr<Obj>> own; bool grid; double span; std::map<const Obj*, int> id; V3 ax = V3(1, 1, 1); double size = 4; };
V3 where(Ctx& c, const World& w) { if (w.grid) { double x = c.range(-4, 4), y = c.range(-4, 4), z = c.range(-4, 4); return V3(x, y, z); } return w.ax.cwiseProduct(vec(c, w.span)); }
void move(Ctx& c, const World& w, Obj* o) {
  if (c.chance(1, 4) && !w.grid) o->setRotation(rot(c)); else if (c.chance(1, 8)) o->setRotation(M3::Identity());
  if (c.chance(1, 3)) { V3 t = o->getTranslation(); int a = c.pick(3); t[a] = where(c, w)[a]; o->setTranslation(t); } else o->setTranslation(where(c, w));
  o->computeAABB();
}
Obj* make(Ctx& c, World& w) {
  std::shared_ptr<fcl::CollisionGeometryd> g; int k = c.weighted({8, 2, 1, 2});
  if (k == 0) { double s[3]; for (double& x : s) x = w.grid ? c.range(1, 4) : c.pos_real(0.05, w.size); g.reset(new fcl::Boxd(s[0], s[1], s[2])); }
  else if (k == 1) g.reset(new fcl::Sphered(w.grid ? c.range(1, 2) : c.pos_real(0.05, 2)));
  else if (k == 2 && c.chance(1, 3)) g.reset(new fcl::Halfspaced(V3::Unit(c.pick(3)) * (c.flip() ? 1 : -1), 0));
  else { double s[3]; for (double& x : s) x = c.flip() ? 0 : w.grid ? c.range(1, 4) : c.pos_real(0.05, 4); g.reset(new fcl::Boxd(s[0], s[1], s[2])); }
  w.own.emplace_back(new Obj(g)); Obj* o = w.own.back().get(); w.id[o] = (int)w.own.size(); o->setTranslation(where(c, w)); o->computeAABB(); return o;
}
// a flat box with a rotation: the box of the object is a cube around it, fine
bool strict(const Box& a, const Box& b) { for (int i = 0; i < 3; i++) if (!(a.min_[i] < b.max_[i] && b.min_[i] < a.max_[i])) return false; return true; }
void showBox(std::ostream& o, const Box& b) { o << "["; for (int i = 0; i < 3; i++) o << (i ? " x " : "") << b.min_[i] << ".." << b.max_[i]; o << "]"; }
using Pair = std::pair<Obj*, Obj*>;
Pair pr(Obj* a, Obj* b) { return a < b ? Pair(a, b) : Pair(b, a); }
struct Rec { std::vector<Pair> calls; long stop = -1; bool stopped = false, after = false, hold = false; double best = 1e300; uint64_t salt = 0; World* w = 0; double scale = 0; };
double metric(const Rec& r, Obj* a, Obj* b) {   // a distance no smaller than that of the boxes
  uint64_t i = r.w->id[a], j = r.w->id[b]; if (i > j) std::swap(i, j); uint64_t s = r.salt ^ (i * 1000003 + j); double u = (pbt::splitmix(s) >> 11) * (1.0 / 9007199254740992.0);
  return a->getAABB().distance(b->getAABB()) + r.scale * u;
}
bool onCollide(Obj* a, Obj* b, void* d) { Rec& r = *(Rec*)d; if (r.stopped) r.after = true; r.calls.push_back({a, b}); if (r.stop >= 0 && (long)r.calls.size() > r.stop) { r.stopped = true; return true; } return false; }
bool onDistance(Obj* a, Obj* b, void* d, double& dist) { Rec& r = *(Rec*)d; if (r.stopped) r.after = true; r.calls.push_back({a, b}); if (a != b) r.best = std::min(r.best, metric(r, a, b)); if (!r.hold) dist = r.best; if (r.stop >= 0 && (long)r.calls.size() > r.stop) { r.stopped = true; return true; } return false; }

enum Mode { COLLIDE, DISTANCE, REGISTRY };
struct Hist {
  Ctx& c; Mode mode; bool dist = false; int k; Params p; World w; std::unique_ptr<Mgr> m; std::vector<Obj*> reg, out; std::ostringstream log; int step = 0;
  Hist(Ctx& c, Mode mode) : c(c), mode(mode) {}
  std::string nm(Obj* o) { return "#" + std::to_string(w.id.count(o) ? w.id[o] : -1); }
  template <class F> void chk(bool ok, const char* what, F&& f) { c.check(ok, std::string(what) + ":" + mgrName(k), [&](std::ostream& o) { o << mgrName(k) << p.desc << ": "; f(o); o << "\nhistory: " << log.str(); }); }
  void sayObj(Obj* o) { log << " " << nm(o); showBox(log, o->getAABB()); }
  Obj* fresh() { if (!out.empty() && c.flip()) { int i = c.pick(out.size()); Obj* o = out[i]; out.erase(out.begin() + i); if (c.flip()) move(c, w, o); return o; } return make(c, w); }
  void checkRegistry() {
    std::vector<Obj*> v; m->getObjects(v); std::vector<Obj*> a = v, b = reg; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    chk(a == b, "getObjects", [&](std::ostream& o) { o << "getObjects returns " << a.size() << " objects, " << b.size() << " are registered; returned:"; for (auto x : v) o << " " << nm(x); });
    chk(m->size() == reg.size(), "size", [&](std::ostream& o) { o << "size() is " << m->size() << ", " << reg.size() << " are registered"; });
    chk(m->empty() == reg.empty(), "empty", [&](std::ostream& o) { o << "empty() is " << m->empty() << " with " << reg.size() << " objects registered"; });
  }
  void query(const char* kind, const std::vector<Obj*>& A, const std::vector<Obj*>& B, bool self, std::function<void(Rec&)> run) {
    Rec r; r.w = &w; r.salt = c.draw(1000); r.scale = c.pick(3) == 0 ? 0 : c.pick(3) * 2.0; bool stop = mode == REGISTRY && c.flip(); if (stop) r.stop = c.pick(4);
    dist = mode == DISTANCE || (mode == REGISTRY && c.flip()); if (stop && dist) r.hold = true;
    log << "; " << kind << (dist ? "-distance" : "-collide"); if (stop) log << " stopping at callback " << r.stop + 1;
    run(r);
    std::set<Pair> want, all; 
    if (self) { for (size_t i = 0; i < A.size(); i++) for (size_t j = i + 1; j < A.size(); j++) { all.insert(pr(A[i], A[j])); } }
    else for (auto a : A) for (auto b : B) if (a != b) all.insert(pr(a, b));
    std::set<Pair> got;
    for (auto& x : r.calls) {
      if (x.first == x.second && !self) continue;    // a registered object as its own query: tolerated
      chk(all.count(pr(x.first, x.second)), "foreign", [&](std::ostream& o) { o << kind << ": callback for " << nm(x.first) << "," << nm(x.second) << ", which is no pair of this query"; });
      bool fresh = got.insert(pr(x.first, x.second)).second;
      if (!dist) chk(fresh, "twice", [&](std::ostream& o) { o << kind << ": callback twice for " << nm(x.first) << "," << nm(x.second); });
    }
    chk(!r.after, "after-stop", [&](std::ostream& o) { o << kind << ": callback again after it returned true"; });
    if (r.stopped || (dist && mode == REGISTRY)) return;
    if (dist) {
      double best = 1e300; Pair bp; for (auto& x : all) { double d = metric(r, x.first, x.second); if (d < best) { best = d; bp = x; } }
      double tol = 1e-9 * (1 + std::min(best, 1e6)); if (best > 1e100 && r.best > 1e100) return;
      chk(std::abs(r.best - best) <= tol, "minimum", [&](std::ostream& o) { o << kind << ": smallest distance " << r.best << " after " << r.calls.size() << " callbacks, but pair " << nm(bp.first) << "," << nm(bp.second) << " has " << best; });
      if (all.size() > 1) c.nontrivial();
    } else {
      int n = 0;
      for (auto& x : all) if (strict(x.first->getAABB(), x.second->getAABB())) { n++; chk(got.count(x), "missed", [&](std::ostream& o) { o << kind << ": no callback for overlapping objects " << nm(x.first); showBox(o, x.first->getAABB()); o << " and " << nm(x.second); showBox(o, x.second->getAABB()); }); }
      if (n && n < (int)all.size()) c.nontrivial();
    }
  }
  void queries() {
    if (c.chance(2, 3)) { log << "\n  "; query("self", reg, reg, true, [&](Rec& r) { if (dist) m->distance(&r, onDistance); else m->collide(&r, onCollide); }); }
    if (c.chance(1, 2)) { Obj* q = !reg.empty() && c.chance(1, 5) ? reg[c.pick(reg.size())] : make(c, w); log << "\n  query"; sayObj(q);
      query("object", {q}, reg, false, [&](Rec& r) { if (dist) m->distance(q, &r, onDistance); else m->collide(q, &r, onCollide); }); }
    if (c.chance(1, 4)) {
      if (c.chance(1, 6)) { log << "\n  "; query("itself as other manager", reg, reg, true, [&](Rec& r) { if (dist) m->distance(m.get(), &r, onDistance); else m->collide(m.get(), &r, onCollide); }); return; }
      auto m2 = ::make(k, c.chance(1, 3) ? params(c, k) : p); std::vector<Obj*> B; int n = c.range(0, c.chance(1, 4) ? 20 : 5); log << "\n  other manager"; for (int i = 0; i < n; i++) { B.push_back(make(c, w)); sayObj(B.back()); }
      if (c.flip()) m2->registerObjects(B); else for (auto o : B) m2->registerObject(o);
      m2->setup();
      query("manager", reg, B, false, [&](Rec& r) { if (dist) m->distance(m2.get(), &r, onDistance); else m->collide(m2.get(), &r, onCollide); });
    }
  }
  // many objects, spread differently along the axes: the queries of some managers then turn to other axes
  void crowded() {
    w.ax = V3(1, 1, 1); for (int i = 0; i < 3; i++) w.ax[i] = c.pick(3) == 0 ? 1 : c.pick(2) ? 0.2 : 0.03; w.grid = c.chance(1, 10); w.size = c.pos_real(0.2, 4); log << " crowd";
    int n = c.range(101, 220); std::vector<Obj*> v; for (int i = 0; i < n; i++) { v.push_back(make(c, w)); sayObj(v.back()); } m->registerObjects(v); reg = v; m->setup();
    w.size = c.chance(1, 3) ? w.size : c.pos_real(4, 40); queries(); w.size = 4;
  }
  void run(bool crowd = false) {
    k = crowd ? c.weighted({0, 6, 1, 6, 1, 1, 1, 1}) : c.pick(NM); p = params(c, k); m = ::make(k, p); w.grid = c.chance(2, 5); w.span = c.pick(3) == 0 ? 3 : c.pos_real(1, 20); c.label(mgrName(k)); log.precision(17); log << mgrName(k) << p.desc << ":";
    int steps = crowd ? c.range(0, 3) : c.range(1, 8); bool big = !crowd && c.chance(1, 40);
    try {
    if (crowd) crowded();
    for (step = 0; step < steps; step++) {
      log << "\n"; bool upd = false;
      int op = c.weighted({4, 4, 3, 3, 3, 3, 1, 1});
      if (op == 0) { Obj* o = fresh(); log << " register"; sayObj(o); m->registerObject(o); reg.push_back(o); }
      else if (op == 1) { std::vector<Obj*> v; int n = big && reg.empty() ? c.range(100, 140) : c.range(0, c.chance(1, 4) ? 25 : 7); log << " registerObjects"; for (int i = 0; i < n; i++) { v.push_back(fresh()); sayObj(v.back()); } m->registerObjects(v); reg.insert(reg.end(), v.begin(), v.end()); }
      else if (op == 2 && !reg.empty()) { int n = c.range(1, std::min(3, (int)reg.size())); while (n--) { int i = c.pick(reg.size()); Obj* o = reg[i]; bool mv = c.chance(1, 4); if (mv) move(c, w, o); log << " unregister " << nm(o) << (mv ? " (moved since the last update)" : ""); m->unregisterObject(o); reg.erase(reg.begin() + i); out.push_back(o); } }
      else if (op == 3 && !reg.empty()) { int n = c.range(0, std::min(6, (int)reg.size())); log << " move"; while (n--) { Obj* o = reg[c.pick(reg.size())]; move(c, w, o); sayObj(o); } log << " update()"; m->update(); upd = true; }
      else if (op == 4 && !reg.empty()) { Obj* o = reg[c.pick(reg.size())]; move(c, w, o); log << " move+update(obj)"; sayObj(o); m->update(o); upd = true; }
      else if (op == 5 && !reg.empty()) { std::set<Obj*> s; int n = c.range(1, std::min(6, (int)reg.size())); while (n--) { Obj* o = reg[c.pick(reg.size())]; move(c, w, o); s.insert(o); } std::vector<Obj*> v; for (auto o : reg) if (s.count(o)) v.push_back(o); log << " move+update(vector)"; for (auto o : v) sayObj(o); m->update(v); upd = true; }
      else if (op == 6) { log << " clear"; m->clear(); out.insert(out.end(), reg.begin(), reg.end()); reg.clear(); }
      if (!upd || c.flip()) { log << " setup()"; m->setup(); }
      if (mode == REGISTRY || c.chance(1, 4)) checkRegistry();
      if (step == steps - 1 || c.flip()) queries();
      if (c.chance(1, 3) && mode == REGISTRY) checkRegistry();
    }
    if (mode == REGISTRY) { c.nontrivial(reg.size() > 0 && steps > 2); checkRegistry(); }
    } catch (...) { c.note([&](std::ostream& o) { o << log.str(); }); throw; }
    c.note([&](std::ostream& o) { o << log.str(); });
  }
};
}  // namespace

namespace {
// ---- default callbacks, over real geometry ----------------------------------
struct Real { std::vector<std::unique_ptr<Obj>> own; std::vector<std::string> desc; std::vector<bool> oct; std::map<const Obj*, int> id; std::map<const fcl::CollisionGeometryd*, int> gid; };
Obj* real(Ctx& c, Real& w, double span, int oct) {   // oct: 0 never, 1 sometimes, 2 always an octree
  std::shared_ptr<fcl::CollisionGeometryd> g; std::string d; bool isOct = false;
  if (oct == 2 || (oct == 1 && c.chance(1, 6))) { int n = c.range(0, 6); Oct o = octree(c, n, 1.5); g = o.g; d = o.desc; isOct = true; }
  else if (c.chance(1, 4)) { Mesh M = mesh(c, 10, 0.4); g = buildBVH<fcl::OBBRSSd>(M); std::ostringstream o; o.precision(17); showMesh(o, M); d = o.str(); }
  else { static const Kind K[] = {ref::BOX, ref::SPHERE, ref::CAPSULE, ref::CYLINDER, ref::CONE, ref::ELLIPSOID, ref::HULL}; Shape s = shape(c, K[c.pick(7)], 0.2, 2); g = s.g; d = s.desc; }
  w.own.emplace_back(new Obj(g)); Obj* o = w.own.back().get(); w.id[o] = w.gid[g.get()] = (int)w.own.size() - 1; o->setTransform(pose(c, span)); o->computeAABB();
  std::ostringstream s; s.precision(17); s << d << " at "; show(s, T3(o->getTransform())); w.desc.push_back(s.str()); w.oct.push_back(isOct); return o;
}
struct Scene {
  Ctx& c; Real w; int k; Params p; std::unique_ptr<Mgr> m, m2; std::vector<Obj*> A, B; int kind; bool decompose = false; std::ostringstream log; std::vector<Pair> pairs;
  Scene(Ctx& c) : c(c) {
    k = c.pick(NM); p = params(c, k); m = ::make(k, p); double span = c.pos_real(1, 6); int n = c.range(1, 8); c.label(mgrName(k));
    bool tree = k == 4 || k == 5; if (tree) { decompose = c.flip(); setMode(m.get()); }
    for (int i = 0; i < n; i++) A.push_back(real(c, w, span, tree)); m->registerObjects(A); m->setup();
    if (c.flip()) { for (auto o : A) if (c.chance(1, 2)) { o->setTransform(pose(c, span)); o->computeAABB(); } m->update(); std::ostringstream s; for (auto o : A) { s.str(""); s.precision(17); s << " then at "; show(s, T3(o->getTransform())); w.desc[w.id[o]] += s.str(); } }
    kind = c.pick(3);
    if (kind == 1) B.push_back(real(c, w, span, tree ? c.flip() ? 2 : 0 : 0));
    if (kind == 2) { int q = c.range(1, 5); while (q--) B.push_back(real(c, w, span, tree)); m2 = ::make(k, p); if (tree) setMode(m2.get()); m2->registerObjects(B); m2->setup(); }
    if (kind == 0) { for (size_t i = 0; i < A.size(); i++) for (size_t j = i + 1; j < A.size(); j++) pairs.push_back({A[i], A[j]}); } else for (auto a : A) for (auto b : B) pairs.push_back({a, b});
    c.note([&](std::ostream& o) { o << mgrName(k) << p.desc << (kind == 0 ? " self" : kind == 1 ? " object" : " manager") << (decompose ? " octree objects decomposed" : ""); for (size_t i = 0; i < w.desc.size(); i++) o << "\n #" << i << (i < A.size() ? " registered " : " query ") << w.desc[i]; o << log.str(); });
  }
  void setMode(Mgr* m) { if (k == 4) { auto t = static_cast<fcl::DynamicAABBTreeCollisionManagerd*>(m); t->octree_as_geometry_collide = t->octree_as_geometry_distance = !decompose; } else { auto t = static_cast<fcl::DynamicAABBTreeCollisionManager_Arrayd*>(m); t->octree_as_geometry_collide = t->octree_as_geometry_distance = !decompose; } }
  bool temp() const { if (!decompose) return false; for (auto b : B) if (w.oct[w.id.at(b)]) return true; for (auto a : A) if (kind && w.oct[w.id.at(a)]) return true; return kind == 0; }
};
}  // namespace

PBT(C13, "default_callback", 6000, 200000) {
  Scene s(ctx); fcl::DefaultCollisionData<double> d; d.request.num_max_contacts = ctx.flip() ? 1 : 1000000; d.request.gjk_solver_type = ctx.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  if (s.kind == 0) s.m->collide(&d, fcl::DefaultCollisionFunction<double>); else if (s.kind == 1) s.m->collide(s.B[0], &d, fcl::DefaultCollisionFunction<double>); else s.m->collide(s.m2.get(), &d, fcl::DefaultCollisionFunction<double>);
  std::set<std::pair<int, int>> must, may; auto key = [&](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
  auto hit = [&](Obj* a, Obj* b) { fcl::CollisionResultd r; fcl::collide(a, b, fcl::CollisionRequestd(1, false, 1, false, true, d.request.gjk_solver_type), r); return r.isCollision(); };
  for (auto& x : s.pairs) {
    Obj *a = x.first, *b = x.second; bool u = hit(a, b), v = hit(b, a), all = u && v, any = u || v; bool oct = s.w.oct[s.w.id[a]] || s.w.oct[s.w.id[b]];
    if (oct && strict(a->getAABB(), b->getAABB())) { V3 t0 = b->getTranslation(); for (int i = 0; i < 6; i++) { Obj q(*b); q.setTranslation(t0 + V3::Unit(i / 2) * (i & 1 ? 1e-4 : -1e-4)); bool y = hit(a, &q); all = all && y; any = any || y; } }
    if (all && strict(a->getAABB(), b->getAABB())) must.insert(key(s.w.id[a], s.w.id[b])); if (any) may.insert(key(s.w.id[a], s.w.id[b]));
  }
  ctx.nontrivial(!must.empty()); std::string nm = mgrName(s.k);
  auto D = [&](std::ostream& o) { o << s.pairs.size() << " pairs, " << must.size() << " certainly collide, " << may.size() << " may; the manager reports " << d.result.numContacts() << " contacts"; for (auto& p : must) o << " " << p.first << "-" << p.second; };
  if (!must.empty()) ctx.check(d.result.isCollision(), "callback-missed:" + nm, D); if (may.empty()) ctx.check(!d.result.isCollision(), "callback-phantom:" + nm, D);
  if (d.request.num_max_contacts == 1) { ctx.check(d.result.numContacts() <= 1, "callback-too-many:" + nm, D); if (!s.temp() && d.result.isCollision()) { auto& q = d.result.getContact(0); ctx.check(s.w.gid.count(q.o1) && s.w.gid.count(q.o2) && may.count(key(s.w.gid[q.o1], s.w.gid[q.o2])), "callback-wrong-pair:" + nm, D); } return; }
  if (s.temp()) return;
  std::set<std::pair<int, int>> got; for (size_t i = 0; i < d.result.numContacts(); i++) { auto& q = d.result.getContact(i); ctx.check(s.w.gid.count(q.o1) && s.w.gid.count(q.o2), "callback-foreign:" + nm, D); auto kk = key(s.w.gid[q.o1], s.w.gid[q.o2]); ctx.check(may.count(kk), "callback-wrong-pair:" + nm, D); got.insert(kk); }
  for (auto& q : must) ctx.check(got.count(q), "callback-pair-missed:" + nm, [&](std::ostream& o) { D(o); o << "; " << q.first << "-" << q.second << " is not among the contacts"; });
}

PBT(C14, "default_callback", 6000, 200000) {
  Scene s(ctx); fcl::DefaultDistanceData<double> d; d.request.gjk_solver_type = ctx.flip() ? fcl::GST_INDEP : fcl::GST_LIBCCD;
  if (s.kind == 0) s.m->distance(&d, fcl::DefaultDistanceFunction<double>); else if (s.kind == 1) s.m->distance(s.B[0], &d, fcl::DefaultDistanceFunction<double>); else s.m->distance(s.m2.get(), &d, fcl::DefaultDistanceFunction<double>);
  double lo = 1e300, hi = 1e300; Pair bp; auto dist = [&](Obj* a, Obj* b) { fcl::DistanceResultd r; fcl::distance(a, b, fcl::DistanceRequestd(false, false, 0, 0, 1e-6, d.request.gjk_solver_type), r); return r.min_distance; };
  for (auto& x : s.pairs) { double u = dist(x.first, x.second), v = dist(x.second, x.first), l = std::min(u, v); if (l < lo) { lo = l; bp = x; } hi = std::min(hi, std::max(u, v)); }
  std::string nm = mgrName(s.k); double got = d.result.min_distance; ctx.nontrivial(s.pairs.size() > 1 && lo > 0 && lo < 1e100);
  auto D = [&](std::ostream& o) { o << "the manager reports " << got << ", testing all " << s.pairs.size() << " pairs gives " << lo << ".." << hi; if (lo < 1e300) o << " at #" << s.w.id[bp.first] << "-#" << s.w.id[bp.second]; };
  if (hi <= 1e-3) { ctx.check(got <= 1e-3, "callback-minimum:" + nm, D); return; }
  if (lo <= 1e-3) return;
  if (lo > 1e100) { ctx.check(got > 1e100, "callback-minimum:" + nm, D); return; }
  double tol = 1e-5 * (1 + hi) + 2e-3; if (!s.temp()) tol = 1e-5 * (1 + hi);
  ctx.check(got >= lo - tol && got <= hi + tol, "callback-minimum:" + nm, D);
}

namespace {
// an octree presented cell by cell: the boxes handed to the callback are the cells not known to be free
struct Cells {
  Ctx& c; int k; Params p; std::unique_ptr<Mgr> m; std::vector<Shape> S; std::vector<std::unique_ptr<Obj>> own; std::map<const Obj*, int> id; Oct o; std::unique_ptr<Obj> q; std::vector<std::string> desc;
  struct Given { int obj; V3 ctr; double side; bool cube, occ, fre; T3 t; }; std::vector<Given> given; std::vector<double> value; bool foreign = false, want;
  Cells(Ctx& c, bool collide) : c(c), want(collide) {
    k = c.flip() ? 4 : 5; p = params(c, k); m = ::make(k, p); double span = c.pos_real(0.5, 3); int n = c.range(1, 8); std::vector<Obj*> A;
    for (int i = 0; i < n; i++) { static const Kind K[] = {ref::BOX, ref::SPHERE, ref::CAPSULE, ref::CYLINDER, ref::ELLIPSOID}; S.push_back(shape(c, K[c.pick(5)], 0.2, 1.5)); T3 t = pose(c, span); place(S.back().r, t); own.emplace_back(new Obj(S.back().g, t)); own.back()->computeAABB(); id[own.back().get()] = i; A.push_back(own.back().get()); std::ostringstream d; d.precision(17); d << S.back().desc << " at "; show(d, t); desc.push_back(d.str()); }
    o = octree(c, c.range(1, 8), 1.5, true); T3 t = pose(c, span); if (c.flip()) t.linear().setIdentity(); q.reset(new Obj(o.g, t)); q->computeAABB(); std::ostringstream d; d.precision(17); d << "query " << o.desc << " at "; show(d, t); desc.push_back(d.str());
    if (k == 4) { auto z = static_cast<fcl::DynamicAABBTreeCollisionManagerd*>(m.get()); z->octree_as_geometry_collide = z->octree_as_geometry_distance = false; } else { auto z = static_cast<fcl::DynamicAABBTreeCollisionManager_Arrayd*>(m.get()); z->octree_as_geometry_collide = z->octree_as_geometry_distance = false; }
    c.note([this](std::ostream& x) { x << mgrName(k) << p.desc << " octree cell by cell"; for (auto& e : desc) x << "\n " << e; }); c.label(mgrName(k)); m->registerObjects(A); m->setup();
  }
  void take(Obj* a, Obj* b) {
    if (!id.count(a)) std::swap(a, b);
    auto f = id.find(a); if (f == id.end() || id.count(b) || b->getNodeType() != fcl::GEOM_BOX) { foreign = true; return; }
    auto g = static_cast<const fcl::Boxd*>(b->collisionGeometry().get()); Given z; z.obj = f->second; z.t = b->getTransform(); z.ctr = z.t.translation(); z.side = g->side[0]; z.cube = g->side.maxCoeff() - g->side.minCoeff() <= 1e-9; z.occ = b->isOccupied(); z.fre = b->isFree(); given.push_back(z);
  }
  double gap(int i, const ref::Shape& b) { auto r = ref::sd(S[i].r, b, 1e-6, false); return std::max(0.0, r.mid()); }
  bool call(Obj* a, Obj* b) { take(a, b); return false; }
  bool call(Obj* a, Obj* b, double& d) { take(a, b); if (foreign) return true; auto& z = given.back(); ref::Shape r; r.k = ref::BOX; r.h = V3(z.side, z.side, z.side) / 2; r.R = z.t.linear(); r.t = z.ctr; d = std::min(d, gap(z.obj, r)); value.push_back(d); return false; }
};
bool cellCollide(Obj* a, Obj* b, void* d) { return static_cast<Cells*>(d)->call(a, b); }
bool cellDistance(Obj* a, Obj* b, void* d, double& v) { return static_cast<Cells*>(d)->call(a, b, v); }
void judgeCells(Cells& s) {
  Ctx& ctx = s.c; std::string nm = mgrName(s.k); T3 t = s.q->getTransform(); double tol = 1e-6 * (1 + s.o.res); ctx.check(!s.foreign, "cells-foreign:" + nm);
  auto D = [&](std::ostream& x) { x << s.given.size() << " callbacks for " << s.o.leaves.size() << " leaves and " << s.S.size() << " objects"; };
  std::vector<std::set<int>> got(s.S.size());
  for (auto& z : s.given) {
    ctx.check(z.cube && (z.t.linear() - t.linear()).norm() < 1e-9, "cells-box:" + nm, D); int l = -1; for (size_t i = 0; i < s.o.leaves.size(); i++) if ((t * s.o.leaves[i].c - z.ctr).norm() < tol && std::abs(s.o.leaves[i].s - z.side) < tol) l = (int)i;
    if (l < 0) { ctx.check(s.want && !z.occ, "cells-unknown-occupied:" + nm, D); continue; }      // space without a node
    auto& f = s.o.leaves[l]; ctx.check(!f.free_, "cells-free:" + nm, D); ctx.check(!s.want ? f.occupied : z.occ == f.occupied && !z.fre, "cells-class:" + nm, [&](std::ostream& x) { D(x); x << "; the box of a leaf of occupancy " << f.occ << " is given as " << (z.occ ? "occupied" : z.fre ? "free" : "uncertain"); });
    ctx.check(got[z.obj].insert(l).second, "cells-repeated:" + nm, D);
  }
  ref::Shape ab; ab.k = ref::BOX; ab.R.setIdentity(); bool some = false;
  if (s.want) for (size_t i = 0; i < s.S.size(); i++) { auto& b = s.own[i]->getAABB(); ab.h = (b.max_ - b.min_) / 2; ab.t = (b.max_ + b.min_) / 2;
    for (size_t l = 0; l < s.o.leaves.size(); l++) { if (s.o.leaves[l].free_) continue; auto r = ref::sd(ab, s.o.leaves[l].box(t), 1e-6, false); if (r.hi < -1e-4) { some = true; ctx.check(got[i].count((int)l), "cells-missed:" + nm, [&](std::ostream& x) { D(x); x << "; object " << i << " and the leaf at "; show(x, s.o.leaves[l].c); x << " of size " << s.o.leaves[l].s << " and occupancy " << s.o.leaves[l].occ << " were not presented"; }); } } }
  else { double best = 1e300; for (size_t i = 0; i < s.S.size(); i++) for (auto& f : s.o.leaves) if (f.occupied) { some = true; best = std::min(best, s.gap((int)i, f.box(t))); }
    double least = s.value.empty() ? 1e300 : s.value.back(); ctx.check(some ? least <= best + 1e-4 : s.given.empty(), "cells-minimum:" + nm, [&](std::ostream& x) { D(x); x << "; least distance presented " << least << ", over all occupied leaves " << best; }); }
  ctx.nontrivial(some);
}
}  // namespace
PBT(C13, "octree_cells", 3000, 100000) { Cells s(ctx, true); s.m->collide(s.q.get(), &s, cellCollide); judgeCells(s); }
PBT(C14, "octree_cells", 3000, 100000) { Cells s(ctx, false); s.m->distance(s.q.get(), &s, cellDistance); judgeCells(s); }

PBT(C13, "collide_history", 20000, 400000) { Hist(ctx, COLLIDE).run(); }
PBT(C14, "distance_history", 20000, 400000) { Hist(ctx, DISTANCE).run(); }
PBT(C13, "crowded_history", 600, 30000) { Hist(ctx, COLLIDE).run(true); }
PBT(C14, "crowded_history", 600, 30000) { Hist(ctx, DISTANCE).run(true); }
PBT(C15, "registry_history", 20000, 400000) { Hist(ctx, REGISTRY).run(); }
PBT_MAIN
