// Exhaustive exploration of refinement histories of small meshes on the real
// MeshHierarchy, with an independent model of the closure of a marking.
#pragma once
#include <lf/refinement/refinement.h>

#include "meshcheck.h"

namespace hr {
using namespace ms;
using lf::refinement::MeshHierarchy;
using lf::refinement::RefPat;

struct Step {
  char kind = 'm';             // 'm' marked, 'r' regular, 'b' barycentric
  std::vector<unsigned> mark;  // marked edges
  std::string str() const {
    std::string s(1, kind);
    if (kind == 'm') {
      s += "{";
      for (auto m : mark) s += std::to_string(m) + ",";
      s += "}";
    }
    return s;
  }
};
inline std::unique_ptr<MeshHierarchy> makeHier(const Spec& s) {
  return std::make_unique<MeshHierarchy>(buildMesh(s), std::make_unique<lf::mesh::hybrid2d::MeshFactory>(s.dim));
}
inline void apply(MeshHierarchy& h, const Step& st) {
  if (st.kind == 'r') h.RefineRegular();
  if (st.kind == 'b') h.RefineRegular(RefPat::rp_barycentric);
  if (st.kind == 'm') {
    std::set<unsigned> m(st.mark.begin(), st.mark.end());
    // half of the steps mark other edges first (the last marking counts), and
    // every other empty marking is not made at all
    unsigned par = m.size();
    for (auto e : m) par += e;
    const unsigned L = h.NumLevels() - 1;
    if ((par + L) % 2) h.MarkEdges([&](const lf::mesh::Mesh& mesh, const lf::mesh::Entity& e) { return m.count(mesh.Index(e)) == 0; });
    if (!m.empty() || (L / 2 + par) % 2 == 0)
      h.MarkEdges([&](const lf::mesh::Mesh& mesh, const lf::mesh::Entity& e) { return m.count(mesh.Index(e)) > 0; });
    else if ((par + L) % 2)
      h.MarkEdges([&](const lf::mesh::Mesh&, const lf::mesh::Entity&) { return false; });
    h.RefineMarked();
  }
  mc::transitions();
}
// canonical text of the finest mesh (cells, nodes' positions, refinement edges)
inline std::string key(const MeshHierarchy& h) {
  const unsigned L = h.NumLevels() - 1;
  const auto m = h.getMesh(L);
  std::ostringstream o;
  o.precision(12);
  for (const auto* n : m->Entities(2)) o << n->Geometry()->Global(Eigen::MatrixXd(0, 1)).transpose() << ";";
  for (const auto* c : m->Entities(0)) {
    for (const auto* n : c->SubEntities(2)) o << m->Index(*n) << ",";
    o << "/" << (int)h.RefinementEdges(L)[m->Index(*c)] << " ";
  }
  return o.str();
}
// --- topology snapshot of one level
struct Snap {
  struct Cell {
    std::vector<unsigned> n, e;
    unsigned ref;
  };
  std::vector<Cell> cells;
  std::vector<std::array<unsigned, 2>> edges;
  std::vector<std::vector<unsigned>> edgeCells;
  std::vector<Eigen::VectorXd> pos;
};
inline Snap snap(const MeshHierarchy& h, unsigned L) {
  Snap s;
  const auto m = h.getMesh(L);
  s.edges.resize(m->NumEntities(1));
  s.edgeCells.resize(m->NumEntities(1));
  s.cells.resize(m->NumEntities(0));
  s.pos.resize(m->NumEntities(2));
  for (const auto* e : m->Entities(1)) {
    auto n = e->SubEntities(1);
    s.edges[m->Index(*e)] = {m->Index(*n[0]), m->Index(*n[1])};
  }
  for (const auto* n : m->Entities(2)) s.pos[m->Index(*n)] = n->Geometry()->Global(Eigen::MatrixXd(0, 1));
  for (const auto* c : m->Entities(0)) {
    auto& k = s.cells[m->Index(*c)];
    for (const auto* n : c->SubEntities(2)) k.n.push_back(m->Index(*n));
    for (const auto* e : c->SubEntities(1)) {
      k.e.push_back(m->Index(*e));
      s.edgeCells[m->Index(*e)].push_back(m->Index(*c));
    }
    k.ref = h.RefinementEdges(L)[m->Index(*c)];
  }
  return s;
}
// least set of edges containing the marked ones such that a triangle with a
// split edge has its refinement edge split
inline std::vector<bool> closure(const Snap& s, const Step& st) {
  std::vector<bool> sp(s.edges.size(), st.kind != 'm');
  for (auto m : st.mark) sp[m] = true;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& c : s.cells) {
      if (c.n.size() != 3) continue;
      bool any = false;
      for (auto e : c.e) any = any || sp[e];
      if (any && c.ref < 3 && !sp[c.e[c.ref]]) sp[c.e[c.ref]] = true, ch = true;
    }
  }
  return sp;
}
// number of children cells of a cell with the given split flags
inline int numChildren(const Snap::Cell& c, const std::vector<bool>& sp, char kind) {
  int k = 0;
  for (auto e : c.e) k += sp[e];
  if (c.n.size() == 3) return kind == 'b' ? 6 : k + 1;
  if (k == 0) return 1;
  if (k == 1) return 3;
  if (k == 4) return 4;
  if (k == 3) return 4;
  return sp[c.e[0]] == sp[c.e[2]] ? 2 : 4;
}

// --- the alphabet of steps available on a mesh with ne edges
//  level: how rich. 3: all subsets; 2: <=2 marks + complements + all; 1: single marks, all
inline std::vector<Step> alphabet(unsigned ne, int rich, bool uniform = true) {
  std::vector<Step> r;
  auto mk = [&](std::vector<unsigned> m) { r.push_back({'m', std::move(m)}); };
  std::vector<unsigned> all(ne);
  std::iota(all.begin(), all.end(), 0u);
  if (rich >= 3) {
    for (uint64_t b = 0; b < (1ull << ne); ++b) {
      std::vector<unsigned> m;
      for (unsigned i = 0; i < ne; ++i)
        if (b >> i & 1) m.push_back(i);
      mk(m);
    }
  } else {
    mk({});
    for (unsigned i = 0; i < ne; ++i) mk({i});
    if (rich >= 2) {
      for (unsigned i = 0; i < ne; ++i)
        for (unsigned j = i + 1; j < ne; ++j) mk({i, j});
      for (unsigned i = 0; i < ne; ++i) {
        auto m = all;
        m.erase(m.begin() + i);
        mk(m);
      }
    }
    mk(all);
  }
  if (uniform) {
    r.push_back({'r', {}});
    r.push_back({'b', {}});
  }
  return r;
}
// fixed number of letters whatever the size of the mesh: nothing, everything, periodic patterns, single edges
inline std::vector<Step> patterns(unsigned ne) {
  std::vector<Step> r{{'r', {}}, {'b', {}}, {'m', {}}, {'m', {0}}, {'m', {ne - 1}}};
  for (auto [m, o] : std::vector<std::pair<unsigned, unsigned>>{{2, 0}, {3, 1}, {1, 0}, {7, 2}}) {
    Step s;
    for (unsigned i = o; i < ne; i += m) s.mark.push_back(i);
    r.push_back(s);
  }
  return r;
}
constexpr int kLetters = 9;
// one long history: letters of `patterns` by number (wrapping around) until the mesh gets too large
inline void longHistory(const Spec& s, const std::vector<int>& word, unsigned steps, unsigned maxEdges, const std::function<void(MeshHierarchy&, const std::vector<Step>&)>& visit) {
  auto h = makeHier(s);
  std::vector<Step> st;
  std::string t = s.str() + " ::";
  for (unsigned k = 0; k < steps; ++k) {
    const unsigned ne = h->getMesh(h->NumLevels() - 1)->NumEntities(1);
    if (ne > maxEdges) break;
    st.push_back(patterns(ne)[word[k % word.size()]]);
    t += " p" + std::to_string(word[k % word.size()]);
    mc::current(t);
    apply(*h, st.back());
    visit(*h, st);
    if (mc::outcome(key(*h))) mc::states();
  }
  mc::traces();
}
inline bool straight(const Spec& s) {
  for (auto& c : s.cells)
    if (c.geo == kO2) return false;
  return s.dim == 2;
}

// the base meshes: topologies x corner renumberings x geometry kinds
inline std::vector<Spec> bases(const std::vector<int>& which, bool renumber, const std::vector<int>& geos, int dim = 2) {
  std::vector<Spec> r;
  auto T = topologies();
  for (int t : which)
    for (int g : geos) {
      Spec s = T[t];
      s.dim = dim;
      for (auto& c : s.cells) c.geo = g;
      std::vector<std::vector<std::vector<idx>>> opt;
      for (auto& c : s.cells) opt.push_back(renumber ? dihedral(c.n) : std::vector<std::vector<idx>>{c.n});
      // all combinations for one cell, for several: each cell alone and all together
      std::set<std::vector<int>> combos;
      const int nc = opt.size();
      if (!renumber) combos.insert(std::vector<int>(nc, 0));
      else {
        for (int c = 0; c < nc; ++c)
          for (int k = 0; k < (int)opt[c].size(); ++k) {
            std::vector<int> v(nc, 0);
            v[c] = k;
            combos.insert(v);
            for (int d = 0; d < nc; ++d) v[d] = k % opt[d].size();
            combos.insert(v);
          }
      }
      for (auto& v : combos) {
        Spec q = s;
        q.name += "#";
        for (int c = 0; c < nc; ++c) {
          q.cells[c].n = opt[c][v[c]];
          q.name += std::to_string(v[c]);
        }
        r.push_back(q);
      }
    }
  return r;
}

// Depth-first enumeration of histories: `first` is fixed by the work item, the
// rest is enumerated here.  visit(h, steps, isNew) is called after every step;
// MeshHierarchy cannot be copied, so prefixes are re-executed.
struct Explorer {
  const Spec& spec;
  std::vector<int> rich;  // alphabet richness per depth (index 0 = first step)
  std::function<void(MeshHierarchy&, const std::vector<Step>&)> visit;
  unsigned maxEdges = 1000;
  void run(const Step& first) {
    std::vector<Step> st{first};
    rec(st);
  }
  void rec(std::vector<Step>& st) {
    unsigned ne;
    {
      auto h = makeHier(spec);
      std::string t = spec.str() + " ::";
      for (auto& s : st) t += " " + s.str();
      mc::current(t);
      for (auto& s : st) apply(*h, s);
      visit(*h, st);
      mc::traces();
      ne = h->getMesh(h->NumLevels() - 1)->NumEntities(1);
      if (mc::outcome(key(*h))) mc::states();
    }
    if (st.size() < rich.size() && ne <= maxEdges) {
      int rr = rich[st.size()];
      if (rr == 3 && ne > 7) rr = 2;
      for (auto& s : rr == 4 ? patterns(ne) : alphabet(ne, rr, st.size() < 2)) {
        st.push_back(s);
        rec(st);
        st.pop_back();
      }
    }
  }
};
}  // namespace hr
