// R02: parent/child bookkeeping of a mesh hierarchy: every fine entity has one
// parent, child lists and parent lists are inverse to each other, and the
// position of a child inside its parent describes the same set of points as
// the child's own geometry.
#include "hier.h"
using namespace hr;
namespace {
using Mat = Eigen::MatrixXd;
using lf::mesh::Entity;
Mat pts(RefEl r, int n) {
  if (r == RefEl::kPoint()) return Mat(0, 1);
  std::vector<Eigen::VectorXd> v;
  if (r == RefEl::kSegment())
    for (int i = 0; i <= n; ++i) v.push_back(Eigen::VectorXd::Constant(1, i / (double)n));
  else
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= (r == RefEl::kTria() ? n - i : n); ++j) v.push_back(Eigen::Vector2d(i / (double)n, j / (double)n));
  Mat m(r.Dimension(), v.size());
  for (size_t i = 0; i < v.size(); ++i) m.col(i) = v[i];
  return m;
}
double refArea(const Mat& c) {
  double a = 0;
  for (int i = 0; i < c.cols(); ++i) {
    const int j = (i + 1) % c.cols();
    a += c(0, i) * c(1, j) - c(1, i) * c(0, j);
  }
  return std::abs(a) / 2;
}
void checkLevel(const Spec& spec, const MeshHierarchy& h, unsigned L) {
  const std::string tag = mc::current() + (L + 2 == h.NumLevels() ? "" : " level " + std::to_string(L));
  const auto &C = *h.getMesh(L), &F = *h.getMesh(L + 1);
  const auto& ec = h.EdgeChildInfos(L);
  const auto& cc = h.CellChildInfos(L);
  const auto& pc = h.PointChildInfos(L);
  // ---- child lists partition the fine entities and are inverted by the parent lists
  std::array<std::vector<int>, 3> hit;
  for (unsigned cd = 0; cd <= 2; ++cd) {
    hit[cd].assign(F.NumEntities(cd), 0);
    MC_CHECK(h.ParentInfos(L + 1, cd).size() == F.NumEntities(cd), "parentinfo-size", tag);
  }
  auto link = [&](unsigned cd, unsigned child, const Entity* parent, unsigned num, const char* what) {
    MC_CHECK(child < F.NumEntities(cd), "child-range", tag << " " << what);
    if (child >= F.NumEntities(cd)) return;
    ++hit[cd][child];
    const auto& pi = h.ParentInfos(L + 1, cd)[child];
    MC_CHECK(pi.parent_ptr == parent && pi.parent_index == C.Index(*parent) && pi.child_number == num, "parent-child-inverse",
             tag << " " << what << " fine codim " << cd << " index " << child << " number " << num << " has number " << (int)pi.child_number << " parent " << (int)pi.parent_index);
  };
  for (const auto* n : C.Entities(2)) link(2, pc[C.Index(*n)].child_point_idx, n, 0, "node->node");
  for (const auto* e : C.Entities(1)) {
    auto& i = ec[C.Index(*e)];
    for (unsigned k = 0; k < i.child_edge_idx.size(); ++k) link(1, i.child_edge_idx[k], e, k, "edge->edge");
    for (unsigned k = 0; k < i.child_point_idx.size(); ++k) link(2, i.child_point_idx[k], e, k, "edge->node");
  }
  for (const auto* c : C.Entities(0)) {
    auto& i = cc[C.Index(*c)];
    for (unsigned k = 0; k < i.child_cell_idx.size(); ++k) link(0, i.child_cell_idx[k], c, k, "cell->cell");
    for (unsigned k = 0; k < i.child_edge_idx.size(); ++k) link(1, i.child_edge_idx[k], c, k, "cell->edge");
    for (unsigned k = 0; k < i.child_point_idx.size(); ++k) link(2, i.child_point_idx[k], c, k, "cell->node");
  }
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (unsigned i = 0; i < hit[cd].size(); ++i) MC_CHECK(hit[cd][i] == 1, "one-parent", tag << " fine codim " << cd << " index " << i << " listed " << hit[cd][i] << " times");
  // ---- children of an edge run from its first to its second endpoint
  for (const auto* e : C.Entities(1)) {
    auto& i = ec[C.Index(*e)];
    const auto n = e->SubEntities(1);
    const unsigned a = pc[C.Index(*n[0])].child_point_idx, b = pc[C.Index(*n[1])].child_point_idx;
    auto ends = [&](unsigned k) {
      auto q = F.EntityByIndex(1, i.child_edge_idx[k])->SubEntities(1);
      return std::pair<unsigned, unsigned>(F.Index(*q[0]), F.Index(*q[1]));
    };
    using P = std::pair<unsigned, unsigned>;
    if (i.child_edge_idx.size() == 1) MC_CHECK(ends(0) == P(a, b), "edge-copy-nodes", tag);
    if (i.child_edge_idx.size() == 2 && i.child_point_idx.size() == 1) {
      const unsigned mid = i.child_point_idx[0];
      MC_CHECK(ends(0) == P(a, mid) && ends(1) == P(mid, b), "edge-split-nodes", tag << " edge " << C.Index(*e));
    }
  }
  // ---- geometry
  std::vector<double> covered(C.NumEntities(0), 0.0);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const auto* e : F.Entities(cd)) {
      const Entity* p = h.ParentEntity(L + 1, *e);
      const auto* g = h.GeometryInParent(L + 1, *e);
      mc::transitions(2);
      MC_CHECK(p && C.Contains(*p) && p == h.ParentInfos(L + 1, cd)[F.Index(*e)].parent_ptr, "parent-entity", tag);
      MC_CHECK(g && g->RefEl() == e->RefEl() && g->DimGlobal() == p->RefEl().Dimension(), "relative-geometry-type", tag << " codim " << cd << " idx " << F.Index(*e));
      if (!p || !g || g->RefEl() != e->RefEl()) continue;
      if (p->Codim() == 2) {
        MC_CHECK(cd == 2, "node-parent", tag);
        MC_CHECK((p->Geometry()->Global(Mat(0, 1)) - e->Geometry()->Global(Mat(0, 1))).norm() < 1e-12, "node-position", tag);
        continue;
      }
      const Mat nc = e->RefEl() == RefEl::kPoint() ? Mat(0, 1) : Mat(e->RefEl().NodeCoords());
      const Mat lc = g->Global(nc);
      if (cd == 0) covered[C.Index(*p)] += refArea(lc);
      // inside the parent's reference element
      for (int q = 0; q < lc.cols(); ++q) {
        bool in = lc.col(q).minCoeff() > -1e-12 && lc.col(q).maxCoeff() < 1 + 1e-12;
        if (p->RefEl() == RefEl::kTria()) in = in && lc.col(q).sum() < 1 + 1e-12;
        MC_CHECK(in, "child-inside-parent", tag);
      }
      auto cmp = [&](const Mat& x, const char* key) {
        Mat a = e->Geometry()->Global(x), b = p->Geometry()->Global(Mat(g->Global(x).cwiseMax(0.0).cwiseMin(1.0)));
        MC_CHECK(a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() < 1e-11 * (1 + b.cwiseAbs().maxCoeff()), key,
                 tag << " codim " << cd << " idx " << F.Index(*e) << " parent codim " << p->Codim() << " idx " << C.Index(*p) << " got " << a << " want " << b);
      };
      cmp(nc, "nested-corners");
      // pointwise, wherever the parent's map restricted to the child is one of the child's shape functions
      bool second = false;
      for (auto& k : spec.cells) second = second || k.geo == kO2;
      const int n = lc.cols();
      bool full = p->RefEl() != RefEl::kQuad();
      if (!full) {
        if (n == 1) full = true;
        if (n == 2) full = std::abs(lc(0, 0) - lc(0, 1)) < 1e-12 || std::abs(lc(1, 0) - lc(1, 1)) < 1e-12;
        if (n == 4) {
          full = (lc.col(0) + lc.col(2) - lc.col(1) - lc.col(3)).norm() < 1e-12;
          for (int q = 0; full && q < 4; ++q) full = std::abs(lc(0, q) - lc(0, (q + 1) % 4)) < 1e-12 || std::abs(lc(1, q) - lc(1, (q + 1) % 4)) < 1e-12;
        }
        if (!full && p->Geometry()->isAffine()) full = true;
      }
      if (full) cmp(pts(e->RefEl(), 4), "nested-pointwise");
      (void)second;
    }
  for (const auto* c : C.Entities(0))
    MC_CHECK(std::abs(covered[C.Index(*c)] - (c->RefEl() == RefEl::kTria() ? 0.5 : 1.0)) < 1e-12, "children-tile-parent", tag << " cell " << C.Index(*c) << " covered " << covered[C.Index(*c)]);
}
void check(const Spec& spec, MeshHierarchy& h, const std::vector<Step>&) {
  // records of lower levels must survive later refinements
  for (unsigned L = 0; L + 1 < h.NumLevels(); ++L)
    if (L + 2 == h.NumLevels() || h.NumLevels() < 8) checkLevel(spec, h, L);
}
struct Job {
  Spec s;
  std::vector<int> rich;
  std::vector<Step> firsts;
};
std::vector<Job> jobs;
std::vector<std::pair<int, int>> items;
// long histories: base mesh x word over the pattern letters
struct Long {
  Spec s;
  std::vector<int> word;
  unsigned steps;
};
std::vector<Long> longs;
unsigned maxLong() { return mc::thorough ? 3000 : 350; }
void addLongs() {
  const bool T = mc::thorough;
  for (auto& s : bases({0, 1, 3}, false, {kO1}))
    for (int a = 0; a < kLetters; ++a)
      for (int b = 0; b < kLetters; ++b)
        for (int c = 0; c < (T ? kLetters : 1); ++c)
          if (a != b || c == 0) longs.push_back({s, T ? std::vector<int>{a, b, c} : a == b ? std::vector<int>{a} : std::vector<int>{a, b}, 12});
  // many levels, few cells
  for (auto& s : bases({2}, false, {kO1}))
    for (int a : {3, 4}) longs.push_back({s, {a}, T ? 60u : 30u}), longs.push_back({s, {a, 7 - a, 2}, T ? 60u : 30u});
  // more than 65536 entities, large base meshes
  for (int k = 0; k < 3; ++k) longs.push_back({large(130 + k, 131 - k, k, 7 + k), {k}, 1});
  longs.push_back({large(150, 180, 2, 9), {5}, 1});
  for (auto& s : largeSpecs(T ? 1100 : 75, T ? 4 : 1))
    for (int a = 0; a < kLetters; ++a) longs.push_back({s, {a}, 1});
}
long count() {
  auto add = [&](const std::vector<Spec>& b, std::vector<int> rich) {
    for (auto& s : b) {
      const unsigned ne = cellEdges(s).size();
      Job j{s, rich, alphabet(ne, rich[0] == 3 && ne > 10 ? 2 : rich[0])};
      for (int k = 0; k < (int)j.firsts.size(); ++k) items.push_back({(int)jobs.size(), k});
      jobs.push_back(std::move(j));
    }
  };
  const bool T = mc::thorough;
  add(bases({0}, true, {kO1, kO2}), T ? std::vector<int>{3, 3, 1, 1} : std::vector<int>{3, 3});
  auto para = bases({1}, true, {kPara});
  for (auto& s : para) s.pts[3] = s.pts[0] + s.pts[2] - s.pts[1];
  add(para, T ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 1});
  add(bases({1}, true, {kO1, kO2}), T ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 2});
  add(bases({0, 1}, false, {kO1, kO2}), T ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 1, 1});
  add(bases({2, 3, 4}, true, {kNone, kO2}), T ? std::vector<int>{3, 1} : std::vector<int>{3, 1});
  add(bases({5, 6, 7, 8, 9, 10}, false, {kO1, kO2}), T ? std::vector<int>{3, 1} : std::vector<int>{2});
  add(bases({0, 1, 3, 8}, false, {kO1, kO2}, 3), T ? std::vector<int>{3, 1} : std::vector<int>{3});
  addLongs();
  return items.size() + longs.size();
}
void item(long it) {
  if (it >= (long)items.size()) {
    auto& l = longs[it - items.size()];
    mc::sample(l.s.str());
    return longHistory(l.s, l.word, l.steps, std::max<unsigned>(maxLong(), l.s.cells.size() * 8), [&](MeshHierarchy& h, const std::vector<Step>& st) { check(l.s, h, st); });
  }
  auto& j = jobs[items[it].first];
  Explorer ex{j.s, j.rich, [&](MeshHierarchy& h, const std::vector<Step>& st) { check(j.s, h, st); }};
  mc::sample(j.s.str() + " :: " + j.firsts[items[it].second].str());
  ex.run(j.firsts[items[it].second]);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
