// Independent reference numbering of degrees of freedom (the documented
// convention), shared by the assembly harnesses.
#pragma once
#include <lf/assemble/assemble.h>

#include "meshes.h"
namespace as {
using namespace ms;
using lf::assemble::DofHandler;
using lf::assemble::gdof_idx_t;
using lf::mesh::Entity;
using lf::mesh::Mesh;
// number of interior dofs of an entity
using Layout = std::function<unsigned(const Entity&)>;
struct Model {
  unsigned N = 0;
  std::vector<std::vector<std::vector<unsigned>>> interior{3}, all{3};  // [codim][entity]
  std::vector<std::pair<unsigned, unsigned>> owner;                     // dof -> (codim, index)
};
// nodes, then edges, then cells, each in order of their index; local numbering:
// corners, edges (reversed if the edge runs against the cell), interior
inline Model model(const Mesh& m, const Layout& l, bool orient) {
  Model r;
  for (int cd : {2, 1, 0}) {
    r.interior[cd].resize(m.NumEntities(cd));
    r.all[cd].resize(m.NumEntities(cd));
    for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
      const Entity& e = *m.EntityByIndex(cd, i);
      for (unsigned k = l(e); k > 0; --k) {
        r.interior[cd][i].push_back(r.N++);
        r.owner.push_back({(unsigned)cd, i});
      }
    }
  }
  auto app = [](std::vector<unsigned>& a, const std::vector<unsigned>& b) { a.insert(a.end(), b.begin(), b.end()); };
  for (unsigned i = 0; i < m.NumEntities(2); ++i) r.all[2][i] = r.interior[2][i];
  std::vector<std::array<unsigned, 2>> en(m.NumEntities(1));
  for (unsigned i = 0; i < m.NumEntities(1); ++i) {
    const Entity& e = *m.EntityByIndex(1, i);
    int k = 0;
    for (const Entity* n : e.SubEntities(1)) {
      en[i][k++] = m.Index(*n);
      app(r.all[1][i], r.interior[2][m.Index(*n)]);
    }
    app(r.all[1][i], r.interior[1][i]);
  }
  for (unsigned i = 0; i < m.NumEntities(0); ++i) {
    const Entity& e = *m.EntityByIndex(0, i);
    auto& a = r.all[0][i];
    std::vector<unsigned> n;
    for (const Entity* v : e.SubEntities(2)) {
      n.push_back(m.Index(*v));
      app(a, r.interior[2][n.back()]);
    }
    unsigned k = 0;
    for (const Entity* ed : e.SubEntities(1)) {
      auto d = r.interior[1][m.Index(*ed)];
      const auto& q = en[m.Index(*ed)];
      // the edge's own node numbers decide about the orientation
      const bool neg = q[0] != n[k];
      if (orient && neg) std::reverse(d.begin(), d.end());
      app(a, d);
      ++k;
    }
    app(a, r.interior[0][i]);
  }
  return r;
}
inline Layout uniformLayout(std::array<unsigned, 4> d) {
  return [d](const Entity& e) {
    switch (e.RefEl()) {
      case RefEl::kPoint(): return d[0];
      case RefEl::kSegment(): return d[1];
      case RefEl::kTria(): return d[2];
      default: return d[3];
    }
  };
}
inline lf::assemble::UniformFEDofHandler::dof_map_t dofMap(std::array<unsigned, 4> d, bool sparse = false) {
  lf::assemble::UniformFEDofHandler::dof_map_t r;
  const RefEl t[4] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
  for (int i = 0; i < 4; ++i)
    if (!sparse || d[i]) r[t[i]] = d[i];
  return r;
}
// meshes: topologies x renumberings of corners x pre-declared edges in every order
inline std::vector<Spec> meshes(bool big) {
  std::vector<Spec> r;
  auto T = topologies();
  for (size_t t = 0; t < T.size(); ++t) {
    std::vector<Spec> v{T[t]};
    const bool small = T[t].cells.size() <= (big ? 3u : 2u);
    // corner renumberings of each cell
    for (size_t c = 0; c < T[t].cells.size(); ++c) {
      int k = 0;
      for (auto& d : dihedral(T[t].cells[c].n)) {
        if (k++ == 0) continue;
        Spec s = T[t];
        s.cells[c].n = d;
        s.name += "#" + std::to_string(c) + "." + std::to_string(k - 1);
        v.push_back(s);
      }
    }
    // node renumberings
    for (auto& p : perms(T[t].pts.size(), small ? 4 : 0)) {
      Spec s = permuteNodes(T[t], p);
      s.name += "~";
      v.push_back(s);
    }
    // every pre-declared edge, against and along the cell, and all of them reversed
    auto ce = cellEdges(T[t]);
    Spec allrev = T[t];
    for (size_t e = 0; e < ce.size(); ++e) {
      for (int rv = 0; rv < 2; ++rv) {
        Spec s = T[t];
        s.edges.push_back(rv ? EdgeSpec{ce[e].second, ce[e].first} : EdgeSpec{ce[e].first, ce[e].second});
        v.push_back(s);
      }
      allrev.edges.insert(allrev.edges.begin(), {ce[e].second, ce[e].first});
    }
    v.push_back(allrev);
    if (ce.size() <= (big ? 6u : 4u))  // every orientation of all edges
      for (unsigned b = 0; b < (1u << ce.size()); ++b) {
        Spec s = T[t];
        for (size_t e = 0; e < ce.size(); ++e)
          s.edges.push_back(b >> e & 1 ? EdgeSpec{ce[e].second, ce[e].first} : EdgeSpec{ce[e].first, ce[e].second});
        v.push_back(s);
      }
    r.insert(r.end(), v.begin(), v.end());
  }
  return r;
}
}  // namespace as
