// C10: histories of building, replacing and updating a BVH model, against a model of its data and return codes.
#include "gen_bv.h"
#include "fcl/geometry/bvh/BVH_utility.h"
using namespace gen;

namespace {
struct Quiet { Quiet() { std::cerr.setstate(std::ios::failbit); } } quiet;   // fcl reports misuse on stderr
struct Model {   // what the object should contain
  int state = fcl::BVH_BUILD_STATE_EMPTY; std::vector<V3> v, prev; std::vector<std::array<long, 3>> t; size_t updated = 0; bool hasPrev = false;
  std::vector<bool> known;   // positions written since an update began (the others are unspecified)
};
template <class BV> struct Run {
  Ctx& c; typedef fcl::BVHModel<BV> M; std::unique_ptr<M> m; Model x; std::string hist; bool built = false; int ops = 0, trees = 0;
  Run(Ctx& c_) : c(c_), m(new M) {}
  void ret(int got, int want, const char* op) { hist += std::string(op) + "=" + std::to_string(got) + " "; c.check(got == want, std::string("return:") + op, [&](std::ostream& o) { o << Nm<BV>::n() << ": " << hist << "returned " << got << ", expected " << want; }); }
  std::vector<V3> pts(int n) { std::vector<V3> p; double s = c.pos_real(0.1, 10); int k = c.weighted({4, 1, 1, 1}); V3 d = dir(c); V3 o = c.chance(1, 4) ? vec(c, 20) : V3(0, 0, 0); for (int i = 0; i < n; i++) p.push_back(k == 0 ? V3(o + vec(c, s)) : k == 1 ? V3(o + d * c.uni(-s, s)) : k == 2 ? o : V3(o + vec(c, s).cwiseProduct(V3(1, 1, 0)))); return p; }
  void contents(const char* when) {
    auto bad = [&](const char* what) { c.fail(std::string("contents:") + what, std::string(Nm<BV>::n()) + ": after " + hist + what + " differ from the data given"); };
    if (m->build_state != x.state) c.fail("state", std::string(Nm<BV>::n()) + ": after " + hist + "the build state is " + std::to_string(m->build_state) + ", expected " + std::to_string(x.state));
    if (m->num_vertices != (int)x.v.size()) bad("vertex count"); if (m->num_tris != (int)x.t.size()) bad("triangle count");
    for (size_t i = 0; i < x.v.size(); i++) if (x.known[i] && m->vertices[i] != x.v[i]) bad("vertices");
    for (size_t i = 0; i < x.t.size(); i++) for (int k = 0; k < 3; k++) if ((long)m->tri_indices[i][k] != x.t[i][k]) bad("triangles");
    if (x.hasPrev != (m->prev_vertices != nullptr)) bad("previous frame"); if (x.hasPrev) for (size_t i = 0; i < x.prev.size(); i++) if (m->prev_vertices[i] != x.prev[i]) bad("previous vertices");
    (void)when;
  }
  std::vector<V3> prim(int i) { std::vector<V3> p; if (x.t.empty()) { p.push_back(x.v[i]); if (x.hasPrev) p.push_back(x.prev[i]); } else for (int k = 0; k < 3; k++) { p.push_back(x.v[x.t[i][k]]); if (x.hasPrev) p.push_back(x.prev[x.t[i][k]]); } return p; }
  std::vector<int> node(int id, int depth) {
    int n = m->getNumBVs(); std::string B = Nm<BV>::n();
    c.check(id >= 0 && id < n && depth <= n, "tree:index", [&](std::ostream& o) { o << B << ": after " << hist << "node " << id << " of " << n; });
    auto& b = m->getBV(id); std::vector<int> r;
    if (b.isLeaf()) { r.push_back(b.primitiveId()); c.check(b.num_primitives == 1, "tree:leaf-count", [&](std::ostream& o) { o << B << ": leaf with " << b.num_primitives << " primitives after " << hist; }); }
    else { c.check(b.leftChild() != b.rightChild(), "tree:children"); r = node(b.leftChild(), depth + 1); auto q = node(b.rightChild(), depth + 1); r.insert(r.end(), q.begin(), q.end());
      c.check((int)r.size() == b.num_primitives, "tree:count", [&](std::ostream& o) { o << B << ": node " << id << " says " << b.num_primitives << " primitives, its leaves hold " << r.size() << " after " << hist; }); }
    c.check(bad(b.bv) < 1e-6, "tree:malformed:" + B, [&](std::ostream& o) { o << B << ": node " << id << " is malformed after " << hist; });
    int np = x.t.empty() ? (int)x.v.size() : (int)x.t.size();
    for (int i : r) { c.check(i >= 0 && i < np, "tree:primitive", [&](std::ostream& o) { o << B << ": leaf refers to primitive " << i << " of " << np << " after " << hist; });
      for (auto& p : prim(i)) { double e = out(b.bv, p); c.check(e <= 1e-9 * (1 + p.norm() + big()), "tree:encloses:" + B, [&](std::ostream& o) { o << B << ": node " << id << " (depth " << depth << ") leaves out primitive " << i << " at "; show(o, p); o << " by " << e << " after " << hist; }); } }
    return r;
  }
  double big() { double b = 0; for (auto& p : x.v) b = std::max(b, p.norm()); for (auto& p : x.prev) b = std::max(b, p.norm()); return b; }
  void tree() {
    trees++; int np = x.t.empty() ? (int)x.v.size() : (int)x.t.size();
    c.check(m->getNumBVs() == 2 * np - 1, "tree:size", [&](std::ostream& o) { o << Nm<BV>::n() << ": " << m->getNumBVs() << " nodes for " << np << " primitives after " << hist; });
    c.check(m->getModelType() == (x.t.empty() ? fcl::BVH_MODEL_POINTCLOUD : fcl::BVH_MODEL_TRIANGLES), "tree:type");
    auto r = node(0, 1); std::sort(r.begin(), r.end()); for (int i = 0; i < np; i++) c.check(i < (int)r.size() && r[i] == i, "tree:partition", [&](std::ostream& o) { o << Nm<BV>::n() << ": the leaves do not hold every primitive once after " << hist; });
    if (c.chance(1, 4)) { m->computeLocalAABB(); for (auto& p : x.v) { c.check(out(m->aabb_local, p) <= 0, "local-box"); c.check((p - m->aabb_center).norm() <= m->aabb_radius * (1 + 1e-12) + 1e-12 * big(), "local-radius"); } }
  }
  void add(const std::vector<V3>& p) { for (auto& q : p) { x.v.push_back(q); x.known.push_back(true); } }
  void upd(const std::vector<V3>& p) { for (auto& q : p) { if (x.updated < x.v.size()) { x.v[x.updated] = q; x.known[x.updated] = true; } x.updated++; } }
  int remaining() { return (int)x.v.size() - (int)x.updated; }
  // 0..13: the calls of the interface
  void op(int k) {
    using namespace fcl; ops++; bool begun = x.state == BVH_BUILD_STATE_BEGUN, rep = x.state == BVH_BUILD_STATE_REPLACE_BEGUN, up = x.state == BVH_BUILD_STATE_UPDATE_BEGUN, ready = x.state == BVH_BUILD_STATE_PROCESSED || x.state == BVH_BUILD_STATE_UPDATED;
    const int OOS = BVH_ERR_BUILD_OUT_OF_SEQUENCE;
    switch (k) {
      case 0: { int a = c.range(-1, 6), b = c.range(-1, 12); int r = m->beginModel(a, b); bool empty = x.state == BVH_BUILD_STATE_EMPTY; ret(r, empty ? BVH_OK : OOS, "beginModel"); x = Model(); x.state = empty ? BVH_BUILD_STATE_BEGUN : BVH_BUILD_STATE_EMPTY; break; }
      case 1: { auto p = pts(1); ret(m->addVertex(p[0]), begun ? BVH_OK : OOS, "addVertex"); if (begun) add(p); break; }
      case 2: { auto p = pts(3); ret(m->addTriangle(p[0], p[1], p[2]), begun ? BVH_OK : OOS, "addTriangle"); if (begun) { long b = x.v.size(); add(p); x.t.push_back({{b, b + 1, b + 2}}); } break; }
      case 3: { auto p = pts(c.pick(12)); ret(m->addSubModel(p), begun ? BVH_OK : OOS, "addSubModel(points)"); if (begun) add(p); break; }
      case 4: { auto p = pts(c.range(1, 12)); std::vector<Triangle> t; int n = c.pick(16); for (int i = 0; i < n; i++) { size_t a = c.pick((int)p.size()), b = c.pick((int)p.size()), d = c.pick((int)p.size()); t.push_back(Triangle(a, b, d)); }
        ret(m->addSubModel(p, t), begun ? BVH_OK : OOS, "addSubModel"); if (begun) { long b = x.v.size(); add(p); for (auto& q : t) x.t.push_back({{(long)q[0] + b, (long)q[1] + b, (long)q[2] + b}}); } break; }
      case 5: { int want = !begun ? OOS : x.v.empty() ? BVH_ERR_BUILD_EMPTY_MODEL : BVH_OK; ret(m->endModel(), want, "endModel"); if (want == BVH_OK) { x.state = BVH_BUILD_STATE_PROCESSED; built = true; } break; }
      case 6: case 9: { bool r = k == 6; int got = r ? m->beginReplaceModel() : m->beginUpdateModel(); ret(got, ready ? BVH_OK : BVH_ERR_BUILD_EMPTY_PREVIOUS_FRAME, r ? "beginReplaceModel" : "beginUpdateModel"); if (!ready) break; x.updated = 0;
        if (r) { x.hasPrev = false; x.prev.clear(); x.state = BVH_BUILD_STATE_REPLACE_BEGUN; } else { x.prev = x.v; x.hasPrev = true; x.known.assign(x.v.size(), false); x.state = BVH_BUILD_STATE_UPDATE_BEGUN; } break; }
      case 7: case 10: { bool r = k == 7, ok = r ? rep : up; int how = c.weighted({2, 2, 4}), n = how == 0 ? 1 : how == 1 ? 3 : ok && c.chance(3, 4) ? std::max(0, remaining()) : c.pick(9); auto p = pts(n); int got;
        if (how == 0) got = r ? m->replaceVertex(p[0]) : m->updateVertex(p[0]); else if (how == 1) got = r ? m->replaceTriangle(p[0], p[1], p[2]) : m->updateTriangle(p[0], p[1], p[2]); else got = r ? m->replaceSubModel(p) : m->updateSubModel(p);
        ret(got, ok ? BVH_OK : OOS, r ? (how == 0 ? "replaceVertex" : how == 1 ? "replaceTriangle" : "replaceSubModel") : (how == 0 ? "updateVertex" : how == 1 ? "updateTriangle" : "updateSubModel")); if (ok) upd(p); break; }
      case 8: case 11: { bool r = k == 8, ok = r ? rep : up; bool refit = c.flip(), bottom = c.flip(); int want = !ok ? OOS : x.updated != x.v.size() ? BVH_ERR_INCORRECT_DATA : BVH_OK; int got = r ? m->endReplaceModel(refit, bottom) : m->endUpdateModel(refit, bottom);
        ret(got, want, r ? (refit ? bottom ? "endReplaceModel(refit,bottomup)" : "endReplaceModel(refit,topdown)" : "endReplaceModel(rebuild)") : (refit ? bottom ? "endUpdateModel(refit,bottomup)" : "endUpdateModel(refit,topdown)" : "endUpdateModel(rebuild)"));
        if (want == BVH_OK) x.state = r ? BVH_BUILD_STATE_PROCESSED : BVH_BUILD_STATE_UPDATED; break; }
      case 12: { std::unique_ptr<M> q(new M(*m)); hist += "copy "; m.swap(q); if (c.flip()) { q.reset(); break; }   // go on with the copy, the original gone; or change the original, which must not show
        if (ready) { q->beginReplaceModel(); std::vector<V3> z(x.v.size(), V3(7, 7, 7)); q->replaceSubModel(z); q->endReplaceModel(c.flip()); } break; }
      default: { static const detail::SplitMethodType sm[] = {detail::SPLIT_METHOD_MEAN, detail::SPLIT_METHOD_MEDIAN, detail::SPLIT_METHOD_BV_CENTER}; m->bv_splitter.reset(new detail::BVSplitter<BV>(sm[c.pick(3)])); hist += "splitter "; }
    }
    contents(""); if (x.state == BVH_BUILD_STATE_PROCESSED || x.state == BVH_BUILD_STATE_UPDATED) tree();
  }
};
template <class BV> void history(Ctx& c) {
  Run<BV> r(c); c.label(Nm<BV>::n()); int n = c.range(1, c.tier ? 40 : 20); 
  for (int i = 0; i < n; i++) {
    int k; using namespace fcl; bool any = c.chance(1, 6);
    if (any) k = c.pick(14);
    else switch (r.x.state) {
      case BVH_BUILD_STATE_EMPTY: k = 0; break;
      case BVH_BUILD_STATE_BEGUN: k = r.x.v.size() > 30 ? 5 : std::vector<int>{1, 2, 3, 4, 4, 5, 5, 13}[c.pick(8)]; break;
      case BVH_BUILD_STATE_REPLACE_BEGUN: k = r.remaining() > 0 ? 7 : 8; break;
      case BVH_BUILD_STATE_UPDATE_BEGUN: k = r.remaining() > 0 ? 10 : 11; break;
      default: k = std::vector<int>{6, 9, 9, 12, 13}[c.pick(5)];
    }
    r.op(k);
  }
  c.note([&](std::ostream& o) { o << Nm<BV>::n() << ": " << r.hist; }); c.nontrivial(r.trees >= 2);
}
// point clouds with uncertain positions: every node comes to enclose the ends of the axes of uncertainty of its points
template <class BV> void expanded(Ctx& c) {
  fcl::BVHModel<BV> m; int n = c.range(1, 30), sp = c.pick(3); double s = c.pos_real(0.1, 10), r = c.pos_real(0.1, 3); std::vector<V3> p; V3 o = c.chance(1, 3) ? vec(c, 20) : V3(V3::Zero()); bool flat = c.chance(1, 5); for (int i = 0; i < n; i++) { p.push_back(o + vec(c, s)); if (flat) p.back()[2] = o[2]; }
  m.bv_splitter.reset(new fcl::detail::BVSplitter<BV>((fcl::detail::SplitMethodType)sp)); m.beginModel(); m.addSubModel(p); c.check(m.endModel() == fcl::BVH_OK, "expand:build");
  std::vector<fcl::Variance3d> u; std::vector<M3> S; bool root = c.flip(); for (int i = 0; i < n; i++) { M3 Q = rot(c); V3 d(c.uni(0, 1), c.uni(0, 1), c.uni(0, 1)); if (c.chance(1, 6)) d[c.pick(3)] = 0; d *= s * c.pos_real(1e-2, 1); M3 v = Q * d.asDiagonal() * Q.transpose(); v = (0.5 * (v + v.transpose())).eval(); S.push_back(v); u.push_back(fcl::Variance3d(v)); if (root) u.back().sqrt(); }
  fcl::BVHExpand(m, u.data(), r); c.label(Nm<BV>::n()); c.nontrivial(n > 1); c.note([&](std::ostream& q) { q << Nm<BV>::n() << " splitter " << sp << " r " << r << (root ? " roots" : "") << " points:"; for (int i = 0; i < n; i++) { show(q, p[i]); q << "(" << S[i].format(Eigen::IOFormat(17, 0, " ", ";")) << ") "; } });
  std::function<std::vector<int>(int)> node = [&](int id) { auto& b = m.getBV(id); std::vector<int> q; if (b.isLeaf()) q.push_back(b.primitiveId()); else { q = node(b.leftChild()); auto w = node(b.rightChild()); q.insert(q.end(), w.begin(), w.end()); }
    for (int i : q) { Eigen::SelfAdjointEigenSolver<M3> es(S[i]); for (int k = 0; k < 3; k++) for (double g : {-1.0, 1.0}) { double l = std::max(0.0, es.eigenvalues()[k]); bool distinct = true; for (int j = 0; j < 3; j++) if (j != k && std::abs(es.eigenvalues()[j] - es.eigenvalues()[k]) < 1e-3 * S[i].norm()) distinct = false;
      V3 e = p[i] + (distinct ? V3(es.eigenvectors().col(k) * (g * r * (root ? std::sqrt(l) : l))) : V3(V3::Zero())); double x = out(b.bv, e); c.check(x <= 1e-7 * (1 + s + o.norm()), std::string("expand:encloses:") + Nm<BV>::n(), [&](std::ostream& f) { f << "node " << id << " does not enclose point " << i << " moved by its uncertainty along axis " << k << " to "; show(f, e); f << "by " << x; }); } }
    return q; };
  auto q = node(0); for (int i = 0; i < n; i++) c.check(m.vertices[i] == p[i], "expand:moves-points");
}
}  // namespace
#define EACH(f) switch (ctx.pick(8)) { case 0: f<AABB>(ctx); break; case 1: f<OBB>(ctx); break; case 2: f<RSS>(ctx); break; case 3: f<OBBRSS>(ctx); break; case 4: f<kIOS>(ctx); break; case 5: f<K16>(ctx); break; case 6: f<K18>(ctx); break; default: f<K24>(ctx); }
PBT(C10, "history", 40000, 1000000) { EACH(history) }
PBT(C10, "expanded", 6000, 200000) { EACH(expanded) }
PBT_MAIN
