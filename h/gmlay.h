// Layouts and parametrised construction of Gmsh file models (I01, I02, I03).
#pragma once
#include "gm.h"
namespace gm {
struct Lay {
  std::string name;
  std::vector<ms::V2> p;
  std::vector<std::vector<int>> cells;
};
inline const std::vector<Lay>& layouts() {
  using V = ms::V2;
  static const std::vector<Lay> l = {
      {"tri", {V(0, 0), V(1, 0.1), V(0.2, 0.9)}, {{0, 1, 2}}},
      {"quad", {V(0, 0), V(1, 0.1), V(1.2, 1.1), V(0.1, 0.9)}, {{0, 1, 2, 3}}},
      {"2tri", {V(0, 0), V(1, 0), V(1.1, 1), V(0, 1.2)}, {{0, 1, 2}, {0, 2, 3}}},
      {"tri+quad", {V(0, 0), V(1, 0), V(1.1, 1), V(0, 1.2), V(1.9, 0.6)}, {{0, 1, 2, 3}, {1, 4, 2}}},
      {"2quad", {V(0, 0), V(1, 0), V(1.1, 1), V(0, 1.2), V(2, 0.1), V(2.1, 1)}, {{0, 1, 2, 3}, {1, 4, 5, 2}}},
      {"fan4", {V(0, 0), V(1, 0), V(0, 1), V(-1, 0.1), V(0.1, -1)}, {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}}},
      {"two-parts", {V(0, 0), V(1, 0), V(0, 1), V(3, 0), V(4, 0), V(4, 1), V(3, 1)}, {{0, 1, 2}, {3, 4, 5, 6}}},
      {"strip", {V(0, 0), V(1, 0), V(2, 0), V(3, 0), V(0, 1), V(1, 1), V(2, 1), V(3, 1)}, {{0, 1, 5, 4}, {1, 2, 6}, {1, 6, 5}, {2, 3, 7, 6}}}};
  return l;
}
// grids far beyond the layouts above
inline const std::vector<Lay>& bigLayouts() {
  static const std::vector<Lay> l = [] {
    std::vector<Lay> r;
    for (auto& d : ms::largeDims(mc::thorough ? 1100 : 300)) {
      if (d.kind > 2 && d.nx > 20) continue;
      const auto s = ms::large(d.nx, d.ny, d.kind, (3 + d.kind) % 12);
      Lay q{s.name, s.pts, {}};
      for (auto& c : s.cells) q.cells.push_back({c.n.begin(), c.n.end()});
      r.push_back(q);
    }
    return r;
  }();
  return l;
}
// more than 65536 nodes and elements
inline const Lay& hugeLayout() {
  static const Lay l = [] {
    const auto s = ms::huge(1);
    Lay q{s.name, s.pts, {}};
    for (auto& c : s.cells) q.cells.push_back({c.n.begin(), c.n.end()});
    return q;
  }();
  return l;
}
constexpr int kHuge = 99;
inline const Lay& layout(int k) { return k < kHuge ? layouts()[k] : k == kHuge ? hugeLayout() : bigLayouts()[k - 100]; }
struct Par {
  int lay = 0, order = 1;  // 1, 8 (serendipity quads) or 9
  std::vector<std::vector<int>> cells;  // empty: as in the layout
  std::vector<int> edgesel;             // per layout edge: 0 absent, 1 forward, 2 backward (empty: none)
  unsigned ptsel = 0;                   // POINT elements on corners
  std::vector<int> elorder;             // permutation of elements (empty: points, edges, cells)
  std::vector<int> norder;              // file order of node ids
  std::vector<size_t> tag;              // tag of node id (empty: id+1)
  int dimw = 2, scale = 0, prec = 16;
  int iso = 0;                          // additional isolated nodes
};
inline std::vector<std::pair<int, int>> edgesOf(const Lay& l) {
  std::vector<std::pair<int, int>> e;
  std::set<std::pair<int, int>> seen;
  for (auto& c : l.cells)
    for (size_t k = 0; k < c.size(); ++k) {
      int a = c[k], b = c[(k + 1) % c.size()];
      if (seen.insert({std::min(a, b), std::max(a, b)}).second) e.push_back({a, b});
    }
  return e;
}
inline int numIds(const Par& p) {
  auto& l = layout(p.lay);
  int n = static_cast<int>(l.p.size());
  if (p.order > 1) n += static_cast<int>(edgesOf(l).size());
  if (p.order == 9)
    for (auto& c : l.cells) n += c.size() == 4;
  return n + p.iso;
}
inline const std::vector<double>& nasty() {
  static const std::vector<double> v = {0.0, -0.0, 1.0 / 3, -2.0 / 7, 1e-17, -1e-300, 1.2345678901234567e20, -9.87e100, 123456789.125, 0.1, 4.9e-324 * 1e20, 1e22};
  return v;
}
inline File make(const Par& p) {
  auto& l = layout(p.lay);
  auto le = edgesOf(l);
  auto& cells = p.cells.empty() ? l.cells : p.cells;
  File f;
  f.prec = p.prec;
  std::vector<Vector3d> x;
  auto tr = [&](ms::V2 q) {
    if (p.scale == 1) q = q / 3.0 + ms::V2(10, -7);
    if (p.scale == 2) q = q * 1e-7;
    if (p.scale == 3) q = q * 12345.678;
    Eigen::VectorXd v = ms::lift(q, p.dimw);
    Vector3d r = Vector3d::Zero();
    r.head(p.dimw) = v;
    return r;
  };
  for (auto& q : l.p) x.push_back(tr(q));
  std::map<std::pair<int, int>, int> mid;
  if (p.order > 1)
    for (auto& [a, b] : le) {
      mid[{a, b}] = mid[{b, a}] = static_cast<int>(x.size());
      x.push_back(tr(ms::curvedMid(l.p[a], l.p[b])));
    }
  std::vector<int> center(cells.size(), -1);
  if (p.order == 9)
    for (size_t i = 0; i < cells.size(); ++i)
      if (cells[i].size() == 4) {
        center[i] = static_cast<int>(x.size());
        ms::V2 c = ms::V2::Zero();
        for (int k : l.cells[i]) c += 0.25 * l.p[k];
        x.push_back(tr(c));
      }
  for (int i = 0; i < p.iso; ++i) {
    auto& v = nasty();
    x.push_back(Vector3d(v[(3 * i) % v.size()], v[(3 * i + 1) % v.size()], v[(3 * i + 2) % v.size()]));
  }
  const int n = static_cast<int>(x.size());
  auto tag = [&](int id) { return p.tag.empty() ? static_cast<size_t>(id) + 1 : p.tag[id]; };
  for (int i = 0; i < n; ++i) {
    const int id = p.norder.empty() ? i : p.norder[i];
    f.nodes.push_back({tag(id), x[id]});
  }
  std::vector<Elem> el;
  for (size_t i = 0; i < l.p.size(); ++i)
    if (p.ptsel >> (i % 32) & 1) el.push_back({POINT, {tag(static_cast<int>(i))}, static_cast<int>(i) + 1, {}});
  for (size_t i = 0; i < p.edgesel.size(); ++i)
    if (p.edgesel[i]) {
      auto [a, b] = le[i];
      if (p.edgesel[i] == 2) std::swap(a, b);
      if (p.order == 1) el.push_back({EDGE2, {tag(a), tag(b)}, static_cast<int>(i) + 1, {}});
      else el.push_back({EDGE3, {tag(a), tag(b), tag(mid[{a, b}])}, static_cast<int>(i) + 1, {}});
    }
  for (size_t i = 0; i < cells.size(); ++i) {
    auto& c = cells[i];
    Elem e{p.order == 1 ? (c.size() == 3 ? TRIA3 : QUAD4) : (c.size() == 3 ? TRIA6 : p.order == 9 ? QUAD9 : QUAD8), {}, static_cast<int>(i) + 1, {}};
    for (int k : c) e.n.push_back(tag(k));
    if (p.order > 1)
      for (size_t k = 0; k < c.size(); ++k) e.n.push_back(tag(mid[{c[k], c[(k + 1) % c.size()]}]));
    if (center[i] >= 0) e.n.push_back(tag(center[i]));
    el.push_back(e);
  }
  if (p.elorder.empty()) f.elems = el;
  else
    for (int k : p.elorder) f.elems.push_back(el[k]);
  for (size_t i = 0; i < l.p.size(); ++i) f.ents[0].push_back({static_cast<int>(i) + 1, {}, {}});
  for (size_t i = 0; i < le.size(); ++i) f.ents[1].push_back({static_cast<int>(i) + 1, {}, {le[i].first + 1, -(le[i].second + 1)}});
  for (size_t i = 0; i < cells.size(); ++i) f.ents[2].push_back({static_cast<int>(i) + 1, {1}, {1, 2, -3}});
  return f;
}
// execute the real reader on the file and check everything
inline void exec(const File& f, int fmt, int dimw, bool parsed, bool groups) {
  mc::current(str(f, fmt));
  mc::states();
  mc::transitions();
  mc::traces();
  const std::string content = write(f, fmt);
  put(content);
  mc::outcome(mc::fnv(content));
  if (parsed) {
    auto v = lf::io::ReadGmshFile(path());
    checkParsed(f, fmt, v);
  }
  lf::io::GmshReader r(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(dimw), path());
  checkMesh(f, fmt, r, dimw, groups);
}
inline std::vector<std::vector<int>> allPerms(int n) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::vector<std::vector<int>> r;
  do r.push_back(p);
  while (std::next_permutation(p.begin(), p.end()));
  return r;
}
// all permutations if n <= lim, otherwise all rotations, the reversal and all transpositions
inline std::vector<std::vector<int>> somePerms(int n, int lim) {
  if (n <= lim) return allPerms(n);
  std::vector<std::vector<int>> r;
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  for (int k = 0; k < n; ++k) {
    auto q = p;
    std::rotate(q.begin(), q.begin() + k, q.end());
    r.push_back(q);
    std::reverse(q.begin(), q.end());
    r.push_back(q);
  }
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) {
      auto q = p;
      std::swap(q[i], q[j]);
      r.push_back(q);
    }
  return r;
}
inline std::vector<std::vector<int>> dihedral(const std::vector<int>& c) {
  std::vector<std::vector<int>> r;
  for (int rev = 0; rev < 2; ++rev)
    for (size_t k = 0; k < c.size(); ++k) {
      auto q = c;
      std::rotate(q.begin(), q.begin() + static_cast<long>(k), q.end());
      if (rev) std::reverse(q.begin(), q.end());
      r.push_back(q);
    }
  return r;
}
}  // namespace gm
