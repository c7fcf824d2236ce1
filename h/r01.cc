// R01: every refinement history yields conforming meshes in which exactly the
// marked edges and the ones forced by the closure are halved.
#include "hier.h"
using namespace hr;
namespace {
double area(const std::vector<Eigen::VectorXd>& p) {
  double a = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    auto &u = p[i], &v = p[(i + 1) % p.size()];
    a += u[0] * v[1] - u[1] * v[0];
  }
  return 0.5 * a;
}
bool strictlyInside(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const Eigen::VectorXd& p) {
  const Eigen::VectorXd d = b - a;
  const double t = (p - a).dot(d) / d.squaredNorm();
  return t > 1e-9 && t < 1 - 1e-9 && (p - a - t * d).norm() < 1e-10 * (1 + d.norm());
}
void check(const Spec& spec, MeshHierarchy& h, const std::vector<Step>& st) {
  const std::string tag = mc::current();
  const unsigned L = h.NumLevels() - 2;
  MC_CHECK(h.NumLevels() == st.size() + 1 && h.getMeshes().size() == st.size() + 1, "num-levels", tag);
  const Snap c = snap(h, L), f = snap(h, L + 1);
  const auto& m = *h.getMesh(L + 1);
  const char kind = st.back().kind;
  MC_CHECK(m.DimWorld() == (unsigned)spec.dim, "dim-world", tag);
  for (unsigned l = 0; l <= L + 1; ++l) {
    MC_CHECK(h.getMeshes()[l] == h.getMesh(l), "get-meshes", tag);
    MC_CHECK(h.RefinementEdges(l).size() == h.getMesh(l)->NumEntities(0), "refedge-size", tag);
  }
  auto sp = closure(c, st.back());
  // ---- which edges were halved
  const auto& ec = h.EdgeChildInfos(L);
  const auto& cc = h.CellChildInfos(L);
  const auto& pc = h.PointChildInfos(L);
  MC_CHECK(ec.size() == c.edges.size() && cc.size() == c.cells.size() && pc.size() == c.pos.size(), "childinfo-size", tag);
  unsigned nsplit = 0, wantCells = 0, wantInner = 0;
  for (size_t e = 0; e < sp.size(); ++e) {
    nsplit += sp[e];
    MC_CHECK((ec[e].ref_pat_ == RefPat::rp_split) == sp[e], "edge-split-exactly-closure", tag << " edge " << e << " expected split " << sp[e]);
    MC_CHECK(ec[e].child_edge_idx.size() == (sp[e] ? 2u : 1u) && ec[e].child_point_idx.size() == (sp[e] ? 1u : 0u), "edge-children", tag << " edge " << e);
  }
  for (size_t i = 0; i < c.cells.size(); ++i) {
    const int nch = numChildren(c.cells[i], sp, kind);
    wantCells += nch;
    MC_CHECK((int)cc[i].child_cell_idx.size() == nch, "cell-children", tag << " cell " << i << " has " << cc[i].child_cell_idx.size() << " children, expected " << nch);
    int k = 0;
    for (auto e : c.cells[i].e) k += sp[e];
    if ((c.cells[i].n.size() == 4 && k == 4) || (c.cells[i].n.size() == 3 && kind == 'b')) ++wantInner;
  }
  MC_CHECK(f.cells.size() == wantCells, "num-cells", tag << " " << f.cells.size() << " vs " << wantCells);
  MC_CHECK(f.pos.size() == c.pos.size() + nsplit + wantInner, "num-nodes", tag << " " << f.pos.size() << " vs " << c.pos.size() + nsplit + wantInner);
  // ---- old nodes survive
  for (size_t i = 0; i < pc.size(); ++i) {
    const auto k = pc[i].child_point_idx;
    MC_CHECK(k < f.pos.size() && (f.pos[k] - c.pos[i]).norm() < 1e-12 * (1 + c.pos[i].norm()), "node-copied", tag << " node " << i);
  }
  // ---- conformity: topology
  checkIncidence(m, tag);
  long euC = (long)c.pos.size() - (long)c.edges.size() + (long)c.cells.size();
  long euF = (long)f.pos.size() - (long)f.edges.size() + (long)f.cells.size();
  MC_CHECK(euC == euF, "euler", tag << " " << euC << " -> " << euF);
  // boundary edges of the fine mesh = children of the boundary edges of the coarse mesh
  std::map<unsigned, unsigned> parentOf;
  for (size_t e = 0; e < ec.size(); ++e)
    for (auto k : ec[e].child_edge_idx) MC_CHECK(k < f.edges.size() && parentOf.insert({k, (unsigned)e}).second, "edge-child-unique", tag << " edge " << e);
  unsigned bnd = 0;
  for (size_t e = 0; e < f.edges.size(); ++e) {
    const auto na = f.edgeCells[e].size();
    MC_CHECK(na == 1 || na == 2, "edge-valence", tag << " fine edge " << e << " belongs to " << na << " cells");
    auto it = parentOf.find(e);
    const size_t want = it == parentOf.end() ? 2 : c.edgeCells[it->second].size();
    MC_CHECK(na == want, "boundary-preserved", tag << " fine edge " << e << " belongs to " << na << " cells, expected " << want);
    bnd += na == 1;
  }
  (void)bnd;
  // ---- copied regions are unchanged
  for (size_t i = 0; i < c.cells.size(); ++i) {
    bool any = false;
    for (auto e : c.cells[i].e) any = any || sp[e];
    if (any || kind == 'b') continue;
    if (cc[i].child_cell_idx.size() != 1 || cc[i].child_cell_idx[0] >= f.cells.size()) continue;
    const auto k = cc[i].child_cell_idx[0];
    bool same = f.cells[k].n.size() == c.cells[i].n.size();
    for (size_t j = 0; same && j < f.cells[k].n.size(); ++j) same = f.cells[k].n[j] == pc[c.cells[i].n[j]].child_point_idx;
    if (c.cells[i].n.size() == 3) same = same && f.cells[k].ref == c.cells[i].ref;
    MC_CHECK(same, "copied-cell", tag << " cell " << i);
    const auto *a = h.getMesh(L)->EntityByIndex(0, i), *b = m.EntityByIndex(0, k);
    for (double x : {0.1, 0.3})
      for (double y : {0.2, 0.55}) {
        Eigen::MatrixXd q(2, 1);
        q << x, y;
        MC_CHECK((a->Geometry()->Global(q) - b->Geometry()->Global(q)).norm() < 1e-12, "copied-cell-geometry", tag << " cell " << i);
      }
  }
  // ---- conformity: geometry (planar straight meshes)
  if (straight(spec)) {
    double A = 0, B = 0;
    double amin = 1e300;
    for (auto& k : c.cells) {
      std::vector<Eigen::VectorXd> p;
      for (auto n : k.n) p.push_back(c.pos[n]);
      A += std::abs(area(p));
      amin = std::min(amin, std::abs(area(p)));
    }
    for (size_t i = 0; i < f.cells.size(); ++i) {
      std::vector<Eigen::VectorXd> p;
      for (auto n : f.cells[i].n) p.push_back(f.pos[n]);
      const double a = std::abs(area(p));
      MC_CHECK(a > 1e-6 * amin, "degenerate-child", tag << " cell " << i);
      B += a;
    }
    MC_CHECK(std::abs(A - B) < 1e-10 * A, "area", tag << " " << A << " -> " << B);
    for (size_t e = 0; e < f.edges.size() && f.pos.size() < 20000; ++e)
      for (size_t n = 0; n < f.pos.size(); ++n)
        if (n != f.edges[e][0] && n != f.edges[e][1] && strictlyInside(f.pos[f.edges[e][0]], f.pos[f.edges[e][1]], f.pos[n]))
          MC_CHECK(false, "hanging-node", tag << " node " << n << " on edge " << e);
  }
  // ---- initial refinement edges: a longest edge
  if (L == 0)
    for (size_t i = 0; i < c.cells.size(); ++i) {
      if (c.cells[i].n.size() != 3) continue;
      const auto* cell = h.getMesh(0)->EntityByIndex(0, i);
      double mx = 0, mine = -1;
      for (unsigned j = 0; j < 3; ++j) {
        Eigen::MatrixXd q(1, 1);
        q << 0.5;
        const double len = cell->SubEntities(1)[j]->Geometry()->Jacobian(q).norm();
        mx = std::max(mx, len);
        if (j == c.cells[i].ref) mine = len;
      }
      MC_CHECK(mine >= mx * (1 - 1e-12), "initial-refinement-edge", tag << " cell " << i);
    }
  for (auto& k : f.cells) MC_CHECK(k.n.size() == 4 || k.ref < 3, "refinement-edge-range", tag);
}

struct Job {
  Spec s;
  std::vector<int> rich;
  std::vector<Step> firsts;
  unsigned maxEdges;
};
std::vector<Job> jobs;
std::vector<std::pair<int, int>> items;
// fans whose spokes grow: bisecting the shortest spoke spreads through all cells; cell order 0: with, 1: against, 2: across the spread
std::vector<Spec> longFans(unsigned n0, unsigned n1) {
  std::vector<Spec> r;
  for (unsigned n = n0; n <= n1; ++n)
    for (int order = 0; order < 3; ++order) {
      Spec s;
      s.name = "fan" + std::to_string(n) + "/" + std::to_string(order);
      s.pts.push_back(V2(0, 0));
      for (unsigned i = 0; i <= n; ++i) s.pts.push_back(std::pow(1.12, i) * V2(std::cos(0.2 * i), std::sin(0.2 * i)));
      for (unsigned k = 0; k < n; ++k) {
        const idx j = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2;
        s.cells.push_back({k % 3 == 0 ? std::vector<idx>{0, j + 1, j + 2} : k % 3 == 1 ? std::vector<idx>{j + 2, 0, j + 1} : std::vector<idx>{j + 2, j + 1, 0}, k % 2 ? kO1 : kNone});
      }
      r.push_back(std::move(s));
    }
  return r;
}
// long histories: base mesh x word over the pattern letters
struct Long {
  Spec s;
  std::vector<int> word;
  unsigned steps;
};
std::vector<Long> longs;
unsigned maxLong() { return mc::thorough ? 3000 : 500; }
void addLongs() {
  const bool T = mc::thorough;
  for (auto& s : bases({0, 1, 3}, false, {kO1}))
    for (int a = 0; a < kLetters; ++a)
      for (int b = 0; b < kLetters; ++b)
        for (int c = 0; c < (T ? kLetters : 1); ++c)
          if (a != b || c == 0) longs.push_back({s, T ? std::vector<int>{a, b, c} : a == b ? std::vector<int>{a} : std::vector<int>{a, b}, 12});
  // many levels, few cells
  for (auto& s : bases({2}, false, {kO1}))
    for (int a : {3, 4}) longs.push_back({s, {a}, T ? 60u : 30u}), longs.push_back({s, {a, 7 - a, 2}, T ? 60u : 30u});
  // more than 65536 entities, large base meshes
  for (int k = 0; k < 3; ++k) longs.push_back({large(130 + k, 131 - k, k, 7 + k), {k}, 1});
  longs.push_back({large(150, 180, 2, 9), {5}, 1});
  for (auto& s : largeSpecs(T ? 1100 : 110, T ? 4 : 1))
    for (int a = 0; a < kLetters; ++a) longs.push_back({s, {a}, 1});
}
long count() {
  auto add = [&](const std::vector<Spec>& b, std::vector<int> rich, unsigned maxE = 1000) {
    for (auto& s : b) {
      const unsigned ne = cellEdges(s).size();
      Job j{s, rich, alphabet(ne, rich[0] == 3 && ne > 10 ? 2 : rich[0]), maxE};
      for (int k = 0; k < (int)j.firsts.size(); ++k) items.push_back({(int)jobs.size(), k});
      jobs.push_back(std::move(j));
    }
  };
  const bool T = mc::thorough;
  // all numberings, every subset of edges in the first step, richer second step
  add(bases({0}, true, {kO1, kO2}), T ? std::vector<int>{3, 3, 2, 1} : std::vector<int>{3, 3, 1}, T ? 14 : 1000);
  add(bases({1}, true, {kO1, kO2}), T ? std::vector<int>{3, 2, 2} : std::vector<int>{3, 2});
  add(bases({1}, false, {kO1}), {3, 2, 1});
  add(bases({2, 3, 4}, true, {kNone}), T ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 1});
  add(bases({5, 6, 7, 8, 9, 10}, false, {kO1}), T ? std::vector<int>{3, 2} : std::vector<int>{3});
  add(bases({5, 6, 7, 8, 9, 10}, true, {kO1}), T ? std::vector<int>{3, 1} : std::vector<int>{2});
  add(bases({2, 3, 4, 11, 12}, false, {kO2}), T ? std::vector<int>{3, 1} : std::vector<int>{2});
  add(bases({2, 3, 4, 8}, false, {kO1, kO2}, 3), T ? std::vector<int>{3, 1} : std::vector<int>{2});
  add(longFans(4, 8), T ? std::vector<int>{2, 1} : std::vector<int>{1, 1});
  add(longFans(9, T ? 30 : 20), T ? std::vector<int>{2} : std::vector<int>{1});
  addLongs();
  return items.size() + longs.size();
}
void item(long it) {
  if (it >= (long)items.size()) {
    auto& l = longs[it - items.size()];
    mc::sample(l.s.str());
    return longHistory(l.s, l.word, l.steps, std::max<unsigned>(maxLong(), l.s.cells.size() * 8), [&](MeshHierarchy& h, const std::vector<Step>& st) { check(l.s, h, st); });
  }
  auto& j = jobs[items[it].first];
  Explorer ex{j.s, j.rich, [&](MeshHierarchy& h, const std::vector<Step>& st) { check(j.s, h, st); }, j.maxEdges};
  mc::sample(j.s.str() + " :: " + j.firsts[items[it].second].str());
  ex.run(j.firsts[items[it].second]);
  const Step f = j.firsts[items[it].second];
  if (f.kind != 'm')  // the uniform hierarchy generator gives the same levels
    for (unsigned n : {1u, 2u}) {
      auto g = lf::refinement::GenerateMeshHierarchyByUniformRefinemnt(buildMesh(j.s), n, f.kind == 'r' ? lf::refinement::RefPat::rp_regular : lf::refinement::RefPat::rp_barycentric);
      auto h = makeHier(j.s);
      for (unsigned k = 0; k < n; ++k) apply(*h, f);
      MC_CHECK(g->NumLevels() == n + 1 && g->getMesh(n)->DimWorld() == (unsigned)j.s.dim, "uniform-hierarchy", mc::current());
      if (g->NumLevels() == n + 1) MC_CHECK(key(*g) == key(*h), "uniform-hierarchy", mc::current());
      check(j.s, *g, std::vector<Step>(n, f));
    }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
