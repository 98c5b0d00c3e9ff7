// C25: the search structures behind the broad phase (hierarchy trees, interval tree, hash tables, Morton codes) against models.
#include "gen.h"
#include <map>
#include <set>
#include <bitset>
#include <limits>
#include "fcl/math/bv/AABB.h"
#include "fcl/broadphase/detail/hierarchy_tree.h"
#include "fcl/broadphase/detail/hierarchy_tree_array.h"
#include "fcl/broadphase/detail/interval_tree.h"
#include "fcl/broadphase/detail/simple_hash_table.h"
#include "fcl/broadphase/detail/sparse_hash_table.h"
#include "fcl/broadphase/detail/spatial_hash.h"
#include "fcl/broadphase/detail/morton.h"
using namespace gen;

namespace {
typedef fcl::AABBd BV;
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
const double INF = std::numeric_limits<double>::infinity(), BIG = std::numeric_limits<double>::max();
BV box(Ctx& c, double span) {
  V3 m = vec(c, span), e(c.uni(0, 1), c.uni(0, 1), c.uni(0, 1)); e *= c.chance(1, 8) ? 0 : c.chance(1, 6) ? span : c.pos_real(0.05, 1);
  if (c.chance(1, 3)) for (int i = 0; i < 3; i++) { m[i] = std::floor(m[i]); e[i] = std::floor(e[i] * 3); }   // on a grid: touching and equal boxes
  BV b(m, V3(m + e)); if (c.chance(1, 40)) { int i = c.pick(3); double big = c.flip() ? INF : BIG; if (c.flip()) b.max_[i] = big; else b.min_[i] = -big; } return b;
}
bool in(const BV& big, const BV& b) { for (int i = 0; i < 3; i++) if (!(big.min_[i] <= b.min_[i] && big.max_[i] >= b.max_[i])) return false; return true; }
bool near(const BV& a, const BV& b) { for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) { double x = k ? a.max_[i] : a.min_[i], y = k ? b.max_[i] : b.min_[i]; if (x != y && !(std::abs(x - y) <= 1e-9 * (1 + std::abs(x) + std::abs(y)))) return false; } return true; }
BV join(const BV& a, const BV& b) { BV r; r.min_ = a.min_.cwiseMin(b.min_); r.max_ = a.max_.cwiseMax(b.max_); return r; }
void show(std::ostream& o, const BV& b) { o << "["; gen::show(o, b.min_); gen::show(o, b.max_); o << "]"; }

// one interface over the pointer tree and the array tree
struct Ptr {
  typedef fcl::detail::HierarchyTree<BV> T; typedef T::NodeType* H; T t; Ptr(int a, int b) : t(a, b) {} static const char* name() { return "pointers"; }
  bool null(H h) { return !h; } H root() { return t.getRoot(); } BV& bv(H h) { return h->bv; } bool leaf(H h) { return h->isLeaf(); } bool internal(H h) { return h->isInternal(); } H kid(H h, int i) { return h->children[i]; } H parent(H h) { return h->parent; } void* data(H h) { return h->data; }
  void init(const std::vector<BV>& b, const std::vector<void*>& d, int level) { std::vector<H> v; for (size_t i = 0; i < b.size(); i++) { H n = new T::NodeType; n->bv = b[i]; n->parent = nullptr; n->children[1] = nullptr; n->data = d[i]; v.push_back(n); } t.init(v, level); }
  bool update(Ctx&, H h, const BV& b) { return t.update(h, b); }   // the forms with a velocity do not compile for this tree
  enum { stable = true };
};
struct Arr {
  typedef fcl::detail::implementation_array::HierarchyTree<BV> T; typedef size_t H; T t; Arr(int a, int b) : t(a, b) {} static const char* name() { return "array"; }
  bool null(H h) { return h == T::NULL_NODE; } H root() { return t.getRoot(); } BV& bv(H h) { return t.getNodes()[h].bv; } bool leaf(H h) { return t.getNodes()[h].isLeaf(); } bool internal(H h) { return t.getNodes()[h].isInternal(); } H kid(H h, int i) { return t.getNodes()[h].children[i]; } H parent(H h) { return t.getNodes()[h].parent; } void* data(H h) { return t.getNodes()[h].data; }
  void init(const std::vector<BV>& b, const std::vector<void*>& d, int level) { typedef fcl::detail::implementation_array::NodeBase<BV> N; std::vector<N> v(b.size()); for (size_t i = 0; i < b.size(); i++) { v[i].bv = b[i]; v[i].parent = T::NULL_NODE; v[i].children[1] = (size_t)-1; v[i].data = d[i]; } t.init(v.data(), (int)v.size(), level); }
  bool update(Ctx& c, H h, const BV& b) { switch (c.pick(3)) { case 0: return t.update(h, b); case 1: return t.update(h, b, vec(c, 1)); default: return t.update(h, b, vec(c, 1), c.uni(0, 1)); } }
  enum { stable = false };
};
template <class A> struct Hier {
  Ctx& c; A a; typedef typename A::H H; std::map<long, BV> want; std::map<long, H> at; long next = 1; std::string hist; int level;
  Hier(Ctx& c_) : c(c_), a(c_.chance(1, 2) ? 16 : c_.range(0, 20), c_.pick(2)) {}
  void bad(const std::string& k, const std::string& m) { c.fail(std::string(A::name()) + ":" + k, m + " after " + hist); }
  size_t walk(H h, H parent, bool rootNode, size_t depth, size_t& deep, std::map<long, H>& seen, BV& tight) {
    if (depth > 4 * want.size() + 8) bad("cycle", "the tree is deeper than it has nodes");
    if (rootNode ? !a.null(a.parent(h)) : a.parent(h) != parent) bad("parent", "wrong parent link");
    if (a.leaf(h) == a.internal(h)) bad("leaf-flag", "a node is both leaf and internal");
    deep = std::max(deep, depth);
    if (a.leaf(h)) { long id = (long)(intptr_t)a.data(h); if (!want.count(id)) bad("leaf-unknown", "the tree holds a leaf that is not registered"); if (seen.count(id)) bad("leaf-twice", "a leaf occurs twice"); seen[id] = h; if (A::stable && at[id] != h) bad("handle", "a leaf moved to another node"); tight = a.bv(h);
      if (!in(a.bv(h), want[id])) bad("leaf-box", "the box of a leaf does not contain the box given"); return 0; }
    BV t1, t2; size_t h1 = walk(a.kid(h, 0), h, false, depth + 1, deep, seen, t1), h2 = walk(a.kid(h, 1), h, false, depth + 1, deep, seen, t2);
    tight = join(t1, t2); if (!in(a.bv(h), tight)) bad("encloses", "an inner box does not contain the boxes below it"); if (!near(a.bv(h), tight)) bad("tight", "an inner box is larger than the boxes below it");
    return std::max(h1, h2) + 1;
  }
  void check() {
    if (a.t.size() != want.size()) bad("size", "size() is " + std::to_string(a.t.size()) + ", " + std::to_string(want.size()) + " leaves are registered");
    if (a.t.empty() != want.empty()) bad("empty", "empty() is wrong");
    if (want.empty()) { if (!a.null(a.root())) bad("root", "an empty tree has a root"); if (a.t.getMaxHeight() || a.t.getMaxDepth()) bad("height", "height of an empty tree"); at.clear(); return; }
    std::map<long, H> seen; BV t; size_t deep = 0, h = walk(a.root(), a.root(), true, 0, deep, seen, t);
    if (seen.size() != want.size()) bad("leaf-lost", std::to_string(want.size() - seen.size()) + " leaves are missing");
    for (auto& s : seen) if (!A::stable && at.count(s.first) && !moved && at[s.first] != s.second) bad("handle", "a leaf moved to another node");
    at = seen; moved = false; if (a.t.getMaxHeight() != h) bad("height", "getMaxHeight() is " + std::to_string(a.t.getMaxHeight()) + " instead of " + std::to_string(h)); if (a.t.getMaxDepth() != deep) bad("depth", "getMaxDepth() is wrong");
  }
  bool moved = false;
  long some() { auto i = want.begin(); std::advance(i, c.pick((int)want.size())); return i->first; }
  void run(int n, double span) {
    for (int i = 0; i < n; i++) {
      static const char* nm[] = {"insert", "remove", "update", "set+update", "set+refit", "bottomup", "topdown", "incremental", "clear", "init", "drain"};
      int k = want.empty() ? (c.chance(1, 4) ? 9 : c.chance(1, 8) ? 5 + c.pick(4) : 0) : c.weighted({10, 5, 8, 3, 2, 2, 2, 3, 1, 2, 1}); hist += nm[k];
      switch (k) {
        case 0: { int m = c.chance(1, 6) ? c.range(2, 30) : 1; for (int j = 0; j < m; j++) { BV b = box(c, span); if (c.chance(1, 6) && !want.empty()) b = want[some()]; want[next] = b; at[next] = a.t.insert(b, (void*)(intptr_t)next); next++; } if (m > 1) hist += "*" + std::to_string(m); break; }
        case 1: { long id = some(); a.t.remove(at[id]); at.erase(id); want.erase(id); break; }
        case 10: { int m = (int)want.size() - c.pick(3); for (int j = 0; j < m; j++) { long id = some(); a.t.remove(at[id]); at.erase(id); want.erase(id); } break; }
        case 2: { long id = some(); BV b = box(c, span); if (c.chance(1, 4)) { b = want[id]; b.min_ += (b.max_ - b.min_) * 0.25; if (!(b.min_[0] <= b.max_[0] && b.min_[1] <= b.max_[1] && b.min_[2] <= b.max_[2])) b = want[id]; }
          bool inside = in(a.bv(at[id]), b), r; r = a.update(c, at[id], b);
          want[id] = b; if (r != !inside) bad("update-result", "update() returned the wrong value"); break; }
        case 3: { long id = some(); want[id] = box(c, span); a.bv(at[id]) = want[id]; a.t.update(at[id], c.range(-1, 4)); break; }
        case 4: { int m = c.range(1, 6); for (int j = 0; j < m; j++) { long id = some(); want[id] = box(c, span); a.bv(at[id]) = want[id]; } a.t.refit(); break; }
        case 5: a.t.balanceBottomup(); moved = true; break;
        case 6: a.t.balanceTopdown(); moved = true; break;
        case 7: { int m = c.range(-1, 12); a.t.balanceIncremental(m); hist += "(" + std::to_string(m) + ")"; break; }
        case 8: a.t.clear(); want.clear(); at.clear(); break;
        case 9: { int m = c.chance(1, 5) ? 1 : c.range(1, c.chance(1, 4) ? 70 : 12), lv = c.range(0, 3); want.clear(); at.clear(); std::vector<BV> b; std::vector<void*> d; for (int j = 0; j < m; j++) { b.push_back(j && c.chance(1, 6) ? b[c.pick(j)] : box(c, span)); d.push_back((void*)(intptr_t)next); want[next++] = b[j]; }
          a.init(b, d, lv); moved = true; if (A::stable) refresh(a.root(), 0); hist += "(" + std::to_string(m) + ",level " + std::to_string(lv) + ")"; break; }
      }
      hist += " "; check();
    }
  }
  void refresh(H h, int depth) { if (a.null(h) || depth > 500) return; if (a.leaf(h)) at[(long)(intptr_t)a.data(h)] = h; else { refresh(a.kid(h, 0), depth + 1); refresh(a.kid(h, 1), depth + 1); } }
};
}  // namespace

PBT(C25, "tree_pointers", 4000, 100000) { double span = ctx.pos_real(0.5, 20); int n = ctx.range(3, 25); Hier<Ptr> h(ctx); ctx.note([&](std::ostream& o) { o << h.hist; }); h.run(n, span); ctx.nontrivial(h.next > 6); }
PBT(C25, "tree_array", 4000, 100000) { double span = ctx.pos_real(0.5, 20); int n = ctx.range(3, 25); Hier<Arr> h(ctx); ctx.note([&](std::ostream& o) { o << h.hist; }); h.run(n, span); ctx.nontrivial(h.next > 6); }

// ---- interval tree -----------------------------------------------------------
namespace { struct Iv : fcl::detail::SimpleInterval<double> { int id; Iv(double a, double b, int i) : id(i) { low = a; high = b; } }; }
PBT(C25, "interval_tree", 4000, 100000) {
  typedef fcl::detail::IntervalTreeNode<double> N; fcl::detail::IntervalTree<double> t; std::map<int, std::pair<std::unique_ptr<Iv>, N*>> m; std::vector<std::unique_ptr<Iv>> dead; int next = 0; std::ostringstream h; h.precision(17); int maxn = 0, hits = 0;
  bool grid = ctx.flip(); double span = ctx.pos_real(1, 100); ctx.note([&](std::ostream& o) { o << h.str(); });
  auto val = [&]() { double x = ctx.uni(-span, span); if (grid) x = std::floor(x / span * 6); if (ctx.chance(1, 60)) x = x < 0 ? -BIG : BIG; return x; };
  auto some = [&]() { auto i = m.begin(); std::advance(i, ctx.pick((int)m.size())); return i; };
  int n = ctx.range(3, 60);
  for (int i = 0; i < n; i++) {
    int k = m.empty() ? 0 : ctx.weighted({8, 3, 3, 6, 2, 1}); maxn = std::max(maxn, (int)m.size());
    if (k == 0) { double a = val(), b = a + (ctx.chance(1, 5) ? 0 : std::abs(val()) * 0.5); if (ctx.chance(1, 6) && !m.empty()) { auto j = some(); a = j->second.first->low; if (ctx.flip()) b = j->second.first->high; else b = std::max(a, b); } std::unique_ptr<Iv> v(new Iv(a, b, next)); N* nd = t.insert(v.get()); h << "insert#" << next << "[" << a << "," << b << "] "; m[next++] = {std::move(v), nd}; }
    else if (k == 1) { auto j = some(); h << "delete#" << j->first << " "; t.deleteNode(j->second.first.get()); dead.push_back(std::move(j->second.first)); m.erase(j); }
    else if (k == 2) { auto j = some(); h << "deleteNode#" << j->first << " "; auto r = t.deleteNode(j->second.second); ctx.check(r == j->second.first.get(), "interval:deleted", [&](std::ostream& o) { o << h.str(); }); dead.push_back(std::move(j->second.first)); m.erase(j); }
    else if (k == 3) { double a = val(), b = a + (ctx.chance(1, 4) ? 0 : std::abs(val()) * 0.3); if (ctx.chance(1, 4)) { auto j = some(); a = j->second.first->high; b = std::max(a, b); } h << "query[" << a << "," << b << "] "; auto q = t.query(a, b); std::multiset<int> got; for (auto x : q) got.insert(((Iv*)x)->id); std::multiset<int> want; for (auto& x : m) if (x.second.first->low <= b && a <= x.second.first->high) want.insert(x.first); hits += !want.empty() && want.size() < m.size();
      ctx.check(got == want, "interval:query", [&](std::ostream& o) { o << "got " << got.size() << ", expected " << want.size() << " after " << h.str(); }); }
    else if (k == 4) { // in-order walk by successor and predecessor
      std::vector<std::pair<double, N*>> o; for (auto& x : m) o.push_back({x.second.first->low, x.second.second}); double mn = 1e308; for (auto& x : o) mn = std::min(mn, x.first); std::map<N*, double> low; for (auto& x : o) low[x.second] = x.first;
      // start: walk back from any node to the first one
      N* f = some()->second.second; size_t g = 0; for (;;) { N* p = t.getPredecessor(f); if (!low.count(p)) break; ctx.check(low[p] <= low[f], "interval:predecessor", [&](std::ostream& q) { q << h.str(); }); f = p; if (++g > m.size()) ctx.fail("interval:predecessor-cycle", h.str()); }
      size_t cnt = 1; std::set<N*> seen{f}; for (;;) { N* s = t.getSuccessor(f); if (!low.count(s)) break; ctx.check(low[f] <= low[s] && seen.insert(s).second, "interval:successor", [&](std::ostream& q) { q << h.str(); }); f = s; cnt++; }
      ctx.check(cnt == m.size(), "interval:walk", [&](std::ostream& q) { q << "walked " << cnt << " of " << m.size() << " after " << h.str(); }); }
    else { Iv ghost(val(), BIG, -1); t.deleteNode(&ghost); h << "delete-unknown "; }
  }
  ctx.nontrivial(maxn > 3 && hits > 0);
}

// ---- hash tables ---------------------------------------------------------------
namespace {
template <class Tab> void hashRun(Ctx& ctx, const char* nm, bool cells) {
  double span = ctx.pos_real(1, 10), cell = span * ctx.pos_real(0.08, 1.2); BV scene(V3(-span, -span, -span), V3(V3(1, 1, 1) * span + V3(ctx.uni(0, 1), ctx.uni(0, 1), ctx.uni(0, 1)) * span)); fcl::detail::SpatialHash<double> hash(scene, cell); Tab t(hash); size_t size = ctx.range(1, 40); t.init(size);
  std::ostringstream h; h.precision(17); h << nm << " cell " << cell << " size " << size << " "; std::vector<std::pair<BV, int*>> m; static int ids[400]; int next = 0; int hits = 0;
  auto bx = [&]() { V3 lo, hi; for (int i = 0; i < 3; i++) { double a = ctx.uni(scene.min_[i], scene.max_[i]), b = std::min(scene.max_[i], a + (ctx.chance(1, 6) ? 0 : ctx.uni(0, 1.5) * cell)); if (ctx.chance(1, 6)) a = b = scene.min_[i] + cell * std::floor((a - scene.min_[i]) / cell); lo[i] = a; hi[i] = b; } return BV(lo, hi); };
  auto cellsOf = [&](const BV& b) { std::set<std::array<long, 3>> s; long lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = (long)std::floor((b.min_[i] - scene.min_[i]) / cell); hi[i] = (long)std::floor((b.max_[i] - scene.min_[i]) / cell); } for (long x = lo[0]; x <= hi[0]; x++) for (long y = lo[1]; y <= hi[1]; y++) for (long z = lo[2]; z <= hi[2]; z++) s.insert({{x, y, z}}); return s; };
  int n = ctx.range(3, 40); ctx.note([&](std::ostream& o) { o << h.str(); });
  for (int i = 0; i < n; i++) {
    int k = m.empty() ? 0 : ctx.weighted({8, 3, 6, 1});
    if (k == 0) { BV b = bx(); t.insert(b, &ids[next]); m.push_back({b, &ids[next]}); next++; h << "insert "; }
    else if (k == 1) { int j = ctx.pick((int)m.size()); t.remove(m[j].first, m[j].second); m.erase(m.begin() + j); h << "remove "; }
    else if (k == 3) { t.clear(); m.clear(); h << "clear "; }
    else { BV b = ctx.chance(1, 3) && !m.empty() ? m[ctx.pick((int)m.size())].first : bx(); auto q = t.query(b); h << "query "; std::set<int*> got(q.begin(), q.end()); ctx.check(got.size() == q.size(), std::string(nm) + ":twice", [&](std::ostream& o) { o << h.str(); }); std::set<int*> all; for (auto& x : m) all.insert(x.second); for (int* g : got) ctx.check(all.count(g), std::string(nm) + ":removed-found", [&](std::ostream& o) { o << h.str(); });
      auto qc = cellsOf(b); auto keys = hash(b); std::set<unsigned> ks(keys.begin(), keys.end());
      for (auto& x : m) { bool ov = true; for (int d = 0; d < 3; d++) if (x.first.min_[d] > b.max_[d] || b.min_[d] > x.first.max_[d]) ov = false; auto xc = cellsOf(x.first); bool shareCell = false; for (auto& y : xc) if (qc.count(y)) shareCell = true; hits += ov;
        ctx.check(!ov || got.count(x.second), std::string(nm) + ":overlap-missed", [&](std::ostream& o) { o << "box "; show(o, x.first); o << " query "; show(o, b); o << " after " << h.str(); });
        ctx.check(!shareCell || got.count(x.second), std::string(nm) + ":cell-missed", [&](std::ostream& o) { o << h.str(); });
        if (cells) { auto k2 = hash(x.first); bool share = false; for (auto y : k2) if (ks.count(y)) share = true; ctx.check(share == (got.count(x.second) > 0), std::string(nm) + ":wrong-cells", [&](std::ostream& o) { o << h.str(); }); } }
      auto u = [&](double v) { return v; }; (void)u; ctx.check(keys.size() == qc.size(), "hash:keys", [&](std::ostream& o) { o << keys.size() << " keys for " << qc.size() << " cells "; show(o, b); o << " cell " << cell; }); }
  }
  ctx.nontrivial(hits > 0 && next > 2);
}
}  // namespace
PBT(C25, "hash_tables", 6000, 150000) {
  typedef fcl::detail::SimpleHashTable<BV, int*, fcl::detail::SpatialHash<double>> A; typedef fcl::detail::SparseHashTable<BV, int*, fcl::detail::SpatialHash<double>, fcl::detail::unordered_map_hash_table> B;
  if (ctx.flip()) hashRun<A>(ctx, "simple", false); else hashRun<B>(ctx, "sparse", true);
}

// ---- Morton codes ----------------------------------------------------------------
PBT(C25, "morton", 20000, 500000) {
  using namespace fcl::detail; auto spread = [](uint32_t x, uint32_t y, uint32_t z, int bits) { uint64_t r = 0; for (int i = 0; i < bits; i++) r |= ((uint64_t)(x >> i & 1) << (3 * i)) | ((uint64_t)(y >> i & 1) << (3 * i + 1)) | ((uint64_t)(z >> i & 1) << (3 * i + 2)); return r; };
  auto num = [&](int bits) { uint32_t m = (1u << bits) - 1; int k = ctx.pick(4); return k == 0 ? (1u << ctx.pick(bits)) : k == 1 ? (m ^ (1u << ctx.pick(bits))) : (uint32_t)ctx.pick((int)m + 1); };
  uint32_t x = num(10), y = num(10), z = num(10), X = num(20), Y = num(20), Z = num(20); ctx.nontrivial(x && y && z);
  ctx.check(morton_code(x, y, z) == spread(x, y, z, 10), "morton30", [&](std::ostream& o) { o << x << " " << y << " " << z << " -> " << morton_code(x, y, z); });
  ctx.check(fcl::detail::morton_code60(X, Y, Z) == spread(X, Y, Z, 20), "morton60", [&](std::ostream& o) { o << X << " " << Y << " " << Z << " -> " << morton_code60(X, Y, Z); });
  double span = ctx.pos_real(0.01, 100); V3 lo = vec(ctx, span), e(ctx.pos_real(0.1, 1) * span, ctx.pos_real(0.1, 1) * span, ctx.pos_real(0.1, 1) * span); BV b(lo, V3(lo + e));
  morton_functor<double, fcl::uint32> f32(b); morton_functor<double, fcl::uint64> f64(b); morton_functor<double, std::bitset<30>> fb(b); morton_functor<double, std::bitset<60>> fb60(b); morton_functor<double, std::bitset<9>> fb9(b);
  V3 p; for (int i = 0; i < 3; i++) { int k = ctx.pick(6); p[i] = k == 0 ? b.min_[i] : k == 1 ? b.max_[i] : k == 2 ? b.min_[i] + e[i] * ctx.range(0, 8) / 8 : k == 3 ? b.min_[i] + e[i] * ctx.uni(-0.5, 1.5) : b.min_[i] + e[i] * ctx.uni(0, 1); }
  auto W = [&](std::ostream& o) { gen::show(o, p); o << " in "; show(o, b); };
  uint32_t q[3]; uint32_t Q[3]; bool sure = true; for (int i = 0; i < 3; i++) { double u = (p[i] - b.min_[i]) * (1.0 / (b.max_[i] - b.min_[i])); auto fl = [&](double s) { double v = std::floor(u * s); double fr = std::abs(u * s - std::round(u * s)); if (fr < 1e-6 && u > 1e-9 && u < 1 - 1e-9) sure = false; if (fr < 1e-6 && u != 0 && std::abs(u) < 1e-8) sure = false; if (u != 1 && std::abs(u - 1) < 1e-8) sure = false; return (uint32_t)std::max(0.0, std::min(s - 1, v)); }; q[i] = fl(1024); Q[i] = fl(1 << 20); }
  if (sure) {
    ctx.check(f32(p) == spread(q[0], q[1], q[2], 10), "functor30", W); ctx.check(f64(p) == spread(Q[0], Q[1], Q[2], 20), "functor60", W); ctx.check(fb(p).to_ullong() == spread(q[0], q[1], q[2], 10), "functor-bits30", W); ctx.check(fb60(p).to_ullong() == spread(Q[0], Q[1], Q[2], 20), "functor-bits60", W);
    ctx.check(fb9(p).to_ullong() == spread(q[0] >> 7, q[1] >> 7, q[2] >> 7, 3), "functor-bits9", W);
  }
  // monotone in each coordinate
  { int i = ctx.pick(3); V3 r = p; r[i] += e[i] * ctx.uni(0, 1); ctx.check(f32(r) >= f32(p) && f64(r) >= f64(p), "monotone", W); }
  static_assert(morton_functor<double, fcl::uint32>::bits() == 30 && morton_functor<double, fcl::uint64>::bits() == 60 && morton_functor<double, std::bitset<9>>::bits() == 9, "bits");
}
PBT_MAIN
