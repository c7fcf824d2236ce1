// Reference model of the mesh produced from a list of points, edges, cells.
#pragma once
#include "meshes.h"

namespace ms {
using lf::mesh::Entity;
using lf::mesh::Orientation;

// Purely internal consistency of any 2D mesh: indexing, incidence, orientation,
// geometry/topology agreement.  `straight_nodes`: compare positions.
inline void checkIncidence(const lf::mesh::Mesh& m, const std::string& tag) {
  for (unsigned cd = 0; cd <= 2; ++cd) {
    auto es = m.Entities(cd);
    MC_CHECK(es.size() == m.NumEntities(cd), "num-entities", tag << " codim " << cd);
    std::set<const Entity*> seen;
    for (const auto* e : es) {
      MC_CHECK(e != nullptr && seen.insert(e).second, "entities-dup", tag << " codim " << cd);
      MC_CHECK(e->Codim() == cd, "codim", tag << " codim " << cd);
      const auto ix = m.Index(*e);
      MC_CHECK(ix < es.size(), "index-range", tag << " codim " << cd << " idx " << ix);
      if (ix < es.size())
        MC_CHECK(m.EntityByIndex(cd, ix) == e, "index-bijection", tag << " codim " << cd << " idx " << ix);
      MC_CHECK(m.Contains(*e), "contains-own", tag << " codim " << cd << " idx " << ix);
      MC_CHECK(e->SubEntities(0).size() == 1 && e->SubEntities(0)[0] == e, "self-subentity", tag << " codim " << cd << " idx " << ix);
      MC_CHECK(*e == *e && !(*e != *e), "entity-eq", tag);
      MC_CHECK(e->Geometry() != nullptr && e->Geometry()->RefEl() == e->RefEl() && e->Geometry()->DimGlobal() == m.DimWorld(), "geometry-type", tag << " codim " << cd << " idx " << ix);
    }
    for (unsigned i = 0; i < es.size(); ++i)
      MC_CHECK(m.Index(*m.EntityByIndex(cd, i)) == i, "entity-by-index", tag << " codim " << cd << " idx " << i);
  }
  MC_CHECK(m.NumEntities(RefEl::kTria()) + m.NumEntities(RefEl::kQuad()) == m.NumEntities(0), "num-cells", tag);
  MC_CHECK(m.NumEntities(RefEl::kSegment()) == m.NumEntities(1), "num-edges", tag);
  MC_CHECK(m.NumEntities(RefEl::kPoint()) == m.NumEntities(2), "num-nodes", tag);
  unsigned nt = 0, nq = 0;
  std::set<std::pair<unsigned, unsigned>> pairs;
  auto near = [](const Eigen::VectorXd& a, const Eigen::VectorXd& b) {
    return (a - b).norm() <= 1e-9 * (1 + a.norm());
  };
  const Eigen::Matrix<double, 0, 1> z;
  for (const auto* s : m.Entities(1)) {
    auto n = s->SubEntities(1);
    MC_CHECK(s->RefEl() == RefEl::kSegment() && n.size() == 2, "edge-type", tag);
    unsigned a = m.Index(*n[0]), b = m.Index(*n[1]);
    MC_CHECK(m.EntityByIndex(2, a) == n[0] && m.EntityByIndex(2, b) == n[1], "edge-nodes", tag);
    MC_CHECK(a != b && pairs.insert({std::min(a, b), std::max(a, b)}).second, "edge-unique", tag << " edge " << a << "," << b);
    auto o = s->RelativeOrientations();
    MC_CHECK(o.size() == 2 && o[0] == Orientation::negative && o[1] == Orientation::positive, "edge-endpoint-orientation", tag);
    Eigen::MatrixXd c = s->Geometry()->Global((Eigen::MatrixXd(1, 2) << 0, 1).finished());
    MC_CHECK(near(c.col(0), n[0]->Geometry()->Global(z)) && near(c.col(1), n[1]->Geometry()->Global(z)), "edge-geometry-endpoints", tag << " edge " << a << "," << b);
  }
  for (const auto* n : m.Entities(2)) MC_CHECK(n->RefEl() == RefEl::kPoint(), "node-type", tag);
  for (const auto* c : m.Entities(0)) {
    const bool tri = c->RefEl() == RefEl::kTria();
    (tri ? nt : nq)++;
    const unsigned k = tri ? 3 : 4;
    MC_CHECK(tri || c->RefEl() == RefEl::kQuad(), "cell-type", tag);
    auto n = c->SubEntities(2);
    auto s = c->SubEntities(1);
    auto o = c->RelativeOrientations();
    MC_CHECK(n.size() == k && s.size() == k && o.size() == k, "cell-arity", tag);
    Eigen::MatrixXd corners = lf::geometry::Corners(*c->Geometry());
    for (unsigned j = 0; j < k; ++j) {
      MC_CHECK(m.EntityByIndex(2, m.Index(*n[j])) == n[j], "cell-nodes", tag);
      MC_CHECK(m.EntityByIndex(1, m.Index(*s[j])) == s[j], "cell-edges", tag);
      auto en = s[j]->SubEntities(1);
      const bool pos = en[0] == n[j] && en[1] == n[(j + 1) % k];
      const bool neg = en[1] == n[j] && en[0] == n[(j + 1) % k];
      MC_CHECK(pos || neg, "cell-edge-endpoints", tag << " cell " << m.Index(*c) << " edge " << j);
      MC_CHECK(o[j] == (pos ? Orientation::positive : Orientation::negative), "cell-edge-orientation", tag << " cell " << m.Index(*c) << " edge " << j);
      MC_CHECK(near(corners.col(j), n[j]->Geometry()->Global(z)), "cell-geometry-corners", tag << " cell " << m.Index(*c) << " corner " << j);
    }
  }
  MC_CHECK(nt == m.NumEntities(RefEl::kTria()) && nq == m.NumEntities(RefEl::kQuad()), "num-by-type", tag);
}

// model vs. implementation
inline void checkBuilt(const Spec& s, const Built& b, bool complete = true) {
  const auto& m = *b.mesh;
  const std::string tag = s.str();
  MC_CHECK(m.DimMesh() == 2 && m.DimWorld() == (unsigned)s.dim, "dims", tag);
  // --- model: edges
  std::map<std::pair<idx, idx>, int> emap;  // unordered pair -> declared index or -1
  std::vector<std::pair<idx, idx>> dir;
  for (size_t i = 0; i < s.edges.size(); ++i)
    emap[{std::min(s.edges[i].a, s.edges[i].b), std::max(s.edges[i].a, s.edges[i].b)}] = (int)i;
  for (auto& e : cellEdges(s)) emap.insert({{std::min(e.first, e.second), std::max(e.first, e.second)}, -1});
  MC_CHECK(m.NumEntities(2) == s.pts.size(), "model-num-nodes", tag);
  MC_CHECK(m.NumEntities(0) == s.cells.size(), "model-num-cells", tag);
  MC_CHECK(m.NumEntities(1) == emap.size(), "model-num-edges", tag);
  if (m.NumEntities(2) != s.pts.size() || m.NumEntities(0) != s.cells.size() || m.NumEntities(1) != emap.size()) return;
  const Eigen::Matrix<double, 0, 1> z;
  auto near = [](const Eigen::VectorXd& a, const Eigen::VectorXd& b) { return (a - b).norm() <= 1e-9 * (1 + a.norm()); };
  for (idx i = 0; i < s.pts.size(); ++i)
    MC_CHECK(near(m.EntityByIndex(2, i)->Geometry()->Global(z), lift(s.pts[i], s.dim)), "model-node-position", tag << " node " << i);
  std::map<std::pair<idx, idx>, std::vector<std::pair<int, int>>> adj;
  for (size_t i = 0; i < s.cells.size(); ++i) {
    const auto* c = m.EntityByIndex(0, i);
    const auto& n = s.cells[i].n;
    MC_CHECK(c->RefEl() == (n.size() == 3 ? RefEl::kTria() : RefEl::kQuad()), "model-cell-type", tag << " cell " << i);
    auto sn = c->SubEntities(2);
    for (size_t j = 0; j < n.size(); ++j) {
      MC_CHECK(j < sn.size() && m.Index(*sn[j]) == n[j], "model-cell-nodes", tag << " cell " << i << " corner " << j);
      idx a = n[j], bb = n[(j + 1) % n.size()];
      adj[{std::min(a, bb), std::max(a, bb)}].push_back({(int)i, (int)j});
    }
    if (b.cell_geo[i])
      MC_CHECK(c->Geometry() == b.cell_geo[i], "model-cell-geometry-kept", tag << " cell " << i);
    else {
      // straight-sided default geometry
      for (size_t j = 0; j < n.size(); ++j) {
        Eigen::MatrixXd cc = lf::geometry::Corners(*c->Geometry());
        const size_t k = (j + 1) % n.size();
        Eigen::VectorXd mid = c->Geometry()->Global(0.5 * (c->RefEl().NodeCoords().col(j) + c->RefEl().NodeCoords().col(k)));
        MC_CHECK(near(mid, 0.5 * (cc.col(j) + cc.col(k))), "model-cell-default-straight", tag << " cell " << i);
      }
    }
  }
  std::set<std::pair<idx, idx>> got;
  for (idx i = 0; i < m.NumEntities(1); ++i) {
    const auto* e = m.EntityByIndex(1, i);
    auto n = e->SubEntities(1);
    const idx a = m.Index(*n[0]), bb = m.Index(*n[1]);
    const std::pair<idx, idx> key{std::min(a, bb), std::max(a, bb)};
    auto it = emap.find(key);
    MC_CHECK(it != emap.end() && got.insert(key).second, "model-edge-set", tag << " edge " << a << "," << bb);
    if (it == emap.end()) continue;
    if (i < s.edges.size()) {
      MC_CHECK(it->second == (int)i, "model-edge-index", tag << " edge index " << i << " connects " << a << "," << bb);
      if (b.edge_geo[i]) {
        MC_CHECK(e->Geometry() == b.edge_geo[i] && a == s.edges[i].a && bb == s.edges[i].b, "model-edge-geometry-kept", tag << " edge " << i);
      }
    } else {
      MC_CHECK(it->second == -1, "model-edge-index", tag << " edge index " << i << " connects " << a << "," << bb);
    }
    if (!(i < s.edges.size() && b.edge_geo[i])) {
      // geometry must be the trace of an adjacent cell that came with a geometry, else straight
      Eigen::VectorXd mid = e->Geometry()->Global((Eigen::MatrixXd(1, 1) << 0.25).finished());
      bool ok = false, any = false;
      for (auto [ci, j] : adj[key])
        if (b.cell_geo[ci]) {
          any = true;
          const auto* c = m.EntityByIndex(0, ci);
          const auto& nc = c->RefEl().NodeCoords();
          const int k = (j + 1) % nc.cols();
          const double t = s.cells[ci].n[j] == a ? 0.25 : 0.75;
          if (near(c->Geometry()->Global((1 - t) * nc.col(j) + t * nc.col(k)), mid)) ok = true;
        }
      if (!any) ok = near(mid, 0.75 * n[0]->Geometry()->Global(z) + 0.25 * n[1]->Geometry()->Global(z));
      MC_CHECK(ok, "model-edge-geometry", tag << " edge " << a << "," << bb);
    }
  }
  checkIncidence(m, tag);
}
}  // namespace ms
