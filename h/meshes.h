// Small-scope mesh universe shared by the harnesses, with a reference model of
// what the mesh module has to produce from a list of points/edges/cells.
#pragma once
#include <Eigen/Eigen>
#include <lf/geometry/geometry.h>
#include <lf/mesh/hybrid2d/hybrid2d.h>
#include <lf/mesh/mesh.h>
#include <lf/mesh/utils/utils.h>

#include <algorithm>
#include <array>
#include <memory>
#include <numeric>

#include "mc.h"

namespace ms {
using lf::base::RefEl;
using V2 = Eigen::Vector2d;
using idx = lf::mesh::MeshFactory::size_type;

enum Geo { kNone = 0, kO1 = 1, kO2 = 2, kPara = 3 };

struct CellSpec {
  std::vector<idx> n;
  int geo = kNone;
};
struct EdgeSpec {
  idx a, b;
  int geo = kNone;
};
struct Spec {
  std::string name;
  std::vector<V2> pts;
  std::vector<CellSpec> cells;
  std::vector<EdgeSpec> edges;
  int dim = 2;  // world dimension; 3: the planar layout lifted onto a surface
  std::string str() const {
    std::ostringstream o;
    if (pts.size() > 20000) return name;
    if (cells.size() > 60 && name.rfind("large", 0) == 0) return name + (dim == 3 ? "@3D" : "");
    o << name << (dim == 3 ? "@3D" : "") << " P=" << pts.size() << " C=";
    for (auto& c : cells) {
      o << "[";
      for (size_t i = 0; i < c.n.size(); ++i) o << (i ? " " : "") << c.n[i];
      o << "]" << (c.geo == kNone ? "n" : c.geo == kO1 ? "1" : c.geo == kO2 ? "2" : "P");
    }
    o << " E=";
    for (auto& e : edges)
      o << "(" << e.a << "," << e.b << ")"
        << (e.geo == kNone ? "n" : e.geo == kO1 ? "1" : "2");
    return o.str();
  }
};

// deterministic mid-point of the (possibly curved) edge between two points; a
// function of the unordered pair of coordinates => both neighbours agree
inline V2 curvedMid(V2 p, V2 q) {
  if (p[0] > q[0] || (p[0] == q[0] && p[1] > q[1])) std::swap(p, q);
  const V2 d = q - p;
  const double s =
      std::fmod(std::abs(17.31 * p[0] + 7.77 * p[1] + 3.13 * q[0] + 1.91 * q[1]), 1.0) - 0.5;
  return 0.5 * (p + q) + 0.12 * s * V2(-d[1], d[0]) + 0.03 * s * d;
}
inline V2 midOf(const V2& p, const V2& q, int geo) {
  return geo == kO2 ? curvedMid(p, q) : V2(0.5 * (p + q));
}

inline Eigen::VectorXd lift(const V2& p, int dim) {
  if (dim == 2) return p;
  return Eigen::Vector3d(p[0], p[1], 0.3 * p[0] - 0.2 * p[1] + 0.15 * p[0] * p[1]);
}

inline std::unique_ptr<lf::geometry::Geometry> makeCellGeo(
    const std::vector<V2>& c, int geo, int dim = 2) {
  using namespace lf::geometry;
  const int n = static_cast<int>(c.size());
  if (geo == kNone) return nullptr;
  if (geo == kO1 || geo == kPara) {
    Eigen::MatrixXd m(dim, n);
    for (int i = 0; i < n; ++i) m.col(i) = lift(c[i], dim);
    if (n == 3) return std::make_unique<TriaO1>(m);
    if (geo == kPara) return std::make_unique<Parallelogram>(m);
    return std::make_unique<QuadO1>(m);
  }
  Eigen::MatrixXd m(dim, 2 * n);
  for (int i = 0; i < n; ++i) {
    m.col(i) = lift(c[i], dim);
    m.col(n + i) = lift(curvedMid(c[i], c[(i + 1) % n]), dim);
  }
  if (n == 3) return std::make_unique<TriaO2>(m);
  return std::make_unique<QuadO2>(m);
}
inline std::unique_ptr<lf::geometry::Geometry> makeEdgeGeo(const V2& a,
                                                           const V2& b, int geo,
                                                           int dim = 2) {
  using namespace lf::geometry;
  if (geo == kNone) return nullptr;
  if (geo == kO1) {
    Eigen::MatrixXd m(dim, 2);
    m << lift(a, dim), lift(b, dim);
    return std::make_unique<SegmentO1>(m);
  }
  Eigen::MatrixXd m(dim, 3);
  m << lift(a, dim), lift(b, dim), lift(curvedMid(a, b), dim);
  return std::make_unique<SegmentO2>(m);
}

struct Built {
  std::shared_ptr<lf::mesh::Mesh> mesh;
  std::vector<const lf::geometry::Geometry*> cell_geo, edge_geo;
};

// Feed spec to the factory.  order: permutation of the "slots"
// [edges..., cells...]; points are added either all first or lazily.
// (log messages of large meshes are too long to be written out)
inline Built build(const Spec& s, lf::mesh::hybrid2d::MeshFactory& f,
                   bool edges_first = true, bool interleave = false) {
  if (s.pts.size() > 2000) spdlog::set_level(spdlog::level::info);
  Built b;
  b.cell_geo.resize(s.cells.size());
  b.edge_geo.resize(s.edges.size());
  idx added = 0;
  auto need = [&](idx upto) {
    while (added <= upto && added < s.pts.size()) {
      auto r = f.AddPoint(lift(s.pts[added], s.dim));
      MC_CHECK(r == added, "factory-point-index", s.str() << " got " << r);
      ++added;
    }
  };
  auto addEdge = [&](size_t i) {
    const auto& e = s.edges[i];
    need(std::max(e.a, e.b));
    auto g = makeEdgeGeo(s.pts[e.a], s.pts[e.b], e.geo, s.dim);
    b.edge_geo[i] = g.get();
    std::array<idx, 2> n{e.a, e.b};
    auto r = f.AddEntity(RefEl::kSegment(), n, std::move(g));
    MC_CHECK(r == i, "factory-edge-index", s.str() << " edge " << i << " got " << r);
  };
  auto addCell = [&](size_t i) {
    const auto& c = s.cells[i];
    need(*std::max_element(c.n.begin(), c.n.end()));
    std::vector<V2> co;
    for (auto k : c.n) co.push_back(s.pts[k]);
    auto g = makeCellGeo(co, c.geo, s.dim);
    b.cell_geo[i] = g.get();
    auto r = f.AddEntity(c.n.size() == 3 ? RefEl::kTria() : RefEl::kQuad(), c.n,
                         std::move(g));
    MC_CHECK(r == i, "factory-cell-index", s.str() << " cell " << i << " got " << r);
  };
  if (!interleave) need(s.pts.size());
  if (interleave) {
    // alternate cells and edges, points only when needed
    for (size_t i = 0; i < std::max(s.cells.size(), s.edges.size()); ++i) {
      if (i < s.cells.size()) addCell(i);
      if (i < s.edges.size()) addEdge(i);
    }
    need(s.pts.size());
  } else if (edges_first) {
    for (size_t i = 0; i < s.edges.size(); ++i) addEdge(i);
    for (size_t i = 0; i < s.cells.size(); ++i) addCell(i);
  } else {
    for (size_t i = 0; i < s.cells.size(); ++i) addCell(i);
    for (size_t i = 0; i < s.edges.size(); ++i) addEdge(i);
  }
  b.mesh = f.Build();
  return b;
}
inline std::shared_ptr<lf::mesh::Mesh> buildMesh(const Spec& s) {
  lf::mesh::hybrid2d::MeshFactory f(s.dim);
  return build(s, f).mesh;
}

// All edges (unordered pairs) of the cells, in order of first appearance
inline std::vector<std::pair<idx, idx>> cellEdges(const Spec& s) {
  std::vector<std::pair<idx, idx>> r;
  std::set<std::pair<idx, idx>> seen;
  for (auto& c : s.cells)
    for (size_t j = 0; j < c.n.size(); ++j) {
      idx a = c.n[j], b = c.n[(j + 1) % c.n.size()];
      if (seen.insert({std::min(a, b), std::max(a, b)}).second) r.push_back({a, b});
    }
  return r;
}

// ---------------------------------------------------------------- topologies
inline std::vector<Spec> topologies() {
  std::vector<Spec> t;
  auto add = [&](std::string n, std::vector<V2> p,
                 std::vector<std::vector<idx>> c) {
    Spec s;
    s.name = std::move(n);
    s.pts = std::move(p);
    for (auto& x : c) s.cells.push_back({x, kNone});
    t.push_back(s);
  };
  add("tria", {{0.1, 0.2}, {1.3, 0.1}, {0.4, 1.1}}, {{0, 1, 2}});
  add("quad", {{0, 0}, {1.2, 0.1}, {1.5, 1.3}, {-0.2, 0.9}}, {{0, 1, 2, 3}});
  add("2tria", {{0, 0}, {1.1, 0.2}, {0.9, 1.3}, {-0.1, 1}}, {{0, 1, 2}, {0, 2, 3}});
  add("tria+quad", {{0, 0}, {1, 0.1}, {1.2, 1}, {-0.1, 1.1}, {2, 0.4}},
      {{0, 1, 2, 3}, {1, 4, 2}});
  add("2quad", {{0, 0}, {1, 0}, {1.1, 1}, {0, 1.2}, {2.1, -0.2}, {2, 1.1}},
      {{0, 1, 2, 3}, {1, 4, 5, 2}});
  add("fan3", {{0, 0}, {2, 0.1}, {0.8, 1.9}, {0.9, 0.7}},
      {{0, 1, 3}, {1, 2, 3}, {2, 0, 3}});
  add("bowtie", {{0, 0}, {1, -0.6}, {1.1, 0.7}, {-1, 0.5}, {-0.9, -0.7}},
      {{0, 1, 2}, {0, 3, 4}});
  add("quad-tria-quad",
      {{0, 0}, {1, 0}, {1, 1}, {0, 1.1}, {2, 0.6}, {2.2, 1.7}, {1.1, 2}},
      {{0, 1, 2, 3}, {1, 4, 2}, {2, 4, 5, 6}});
  add("4tria", {{0, 0}, {1, 0}, {1, 1.2}, {-0.1, 1}, {0.45, 0.55}},
      {{0, 1, 4}, {1, 2, 4}, {2, 3, 4}, {3, 0, 4}});
  add("hybrid-star",
      {{0, 0}, {1, -0.2}, {1.1, 1}, {-0.1, 1.3}, {-1, 0.9}, {-1.1, -0.1}, {0.1, -1}},
      {{0, 1, 2, 3}, {0, 3, 4}, {0, 4, 5}, {0, 5, 6, 1}});
  add("3quad-star",
      {{0, 0}, {1, 0}, {1.2, 1}, {0.1, 1.1}, {-1, 0.3}, {-0.8, -1}, {0.4, -1.2}},
      {{0, 1, 2, 3}, {0, 3, 4, 5}, {0, 5, 6, 1}});
  add("ring4",
      {{0, 0}, {3, 0}, {3, 3.1}, {0, 3}, {1, 1}, {2, 0.9}, {2.1, 2}, {0.9, 2}},
      {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}});
  add("2comp", {{0, 0}, {1, 0}, {0, 1}, {3, 0}, {4, 0.1}, {4.2, 1}, {2.9, 1}},
      {{0, 1, 2}, {3, 4, 5, 6}});
  return t;
}

// all 2n "dihedral" renumberings of a cell's corner list
inline std::vector<std::vector<idx>> dihedral(const std::vector<idx>& n) {
  std::vector<std::vector<idx>> r;
  const int k = static_cast<int>(n.size());
  for (int rev = 0; rev < 2; ++rev)
    for (int s = 0; s < k; ++s) {
      std::vector<idx> v(k);
      for (int i = 0; i < k; ++i)
        v[i] = n[((rev ? s - i : s + i) % k + k) % k];
      r.push_back(v);
    }
  return r;
}
// renumber the nodes: node i becomes p[i]
inline Spec permuteNodes(const Spec& s, const std::vector<idx>& p) {
  Spec r = s;
  for (size_t i = 0; i < p.size(); ++i) r.pts[p[i]] = s.pts[i];
  for (auto& c : r.cells)
    for (auto& n : c.n) n = p[n];
  for (auto& e : r.edges) {
    e.a = p[e.a];
    e.b = p[e.b];
  }
  return r;
}
// i-th permutation of n elements in a fixed family: all for n<=maxall, else
// a deterministic covering family (rotations, reversal, transpositions)
inline std::vector<std::vector<idx>> perms(size_t n, size_t maxall) {
  std::vector<idx> p(n);
  std::iota(p.begin(), p.end(), 0);
  std::vector<std::vector<idx>> r;
  if (n <= maxall) {
    do r.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    return r;
  }
  std::set<std::vector<idx>> seen;
  auto add = [&](const std::vector<idx>& v) {
    if (seen.insert(v).second) r.push_back(v);
  };
  add(p);
  auto rev = p;
  std::reverse(rev.begin(), rev.end());
  for (size_t s = 0; s < n; ++s) {
    auto a = p, b = rev;
    std::rotate(a.begin(), a.begin() + s, a.end());
    std::rotate(b.begin(), b.begin() + s, b.end());
    add(a);
    add(b);
  }
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j) {
      auto a = p;
      std::swap(a[i], a[j]);
      add(a);
    }
  return r;
}

// Deterministic meshes far beyond the small topologies. kind: 0 triangles, 1 quadrilaterals,
// 2 checkerboard of both, 3 fan of nx triangles around one node, 4 alternating fan, 5 strip of
// separate components, 6/7 translates of one triangle pair / one square whose edges run in
// any direction.  v (variant) selects corner numberings, node order, declared edges, geometry.
inline Spec large(int nx, int ny, int kind, int v) {
  Spec s;
  s.name = "large" + std::to_string(nx) + "x" + std::to_string(ny) + "k" + std::to_string(kind) + "v" + std::to_string(v);
  // (curved radial edges would turn thin triangles inside out)
  const int geo = v % 3 == kO2 && (kind == 3 || kind == 4) ? kO1 : v % 3;
  auto cell = [&](std::vector<idx> n) {
    auto d = dihedral(n);
    s.cells.push_back({v && kind < 6 ? d[(s.cells.size() * (2 * v + 1) + v) % d.size()] : n, geo});
  };
  if (kind <= 2) {
    for (int j = 0; j <= ny; ++j)
      for (int i = 0; i <= nx; ++i)
        s.pts.push_back({i + 0.11 * ((i * 3 + j * 5) % 4) * (kind == 0 || v % 2), j - 0.13 * ((i * 2 + j) % 3) * (kind == 0 || v % 2)});
    auto id = [&](int i, int j) { return (idx)(j * (nx + 1) + i); };
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        const std::vector<idx> q{id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
        if (kind == 1 || (kind == 2 && (i + j) % 2)) cell(q);
        else if ((i * 7 + j) % 3) cell({q[0], q[1], q[2]}), cell({q[0], q[2], q[3]});
        else cell({q[0], q[1], q[3]}), cell({q[1], q[2], q[3]});
      }
  } else if (kind <= 4) {
    const double pi = 3.14159265358979323846;
    s.pts.push_back({0, 0});
    const int np = kind == 3 ? nx : 3 * nx;  // alternating: quad (two steps), triangle (one step)
    for (int i = 0; i < np; ++i) s.pts.push_back({std::cos(2 * pi * i / np), std::sin(2 * pi * i / np)});
    for (int i = 0; i < np;)
      if (kind == 3) cell({0, (idx)(1 + i), (idx)(1 + (i + 1) % np)}), ++i;
      else cell({0, (idx)(1 + i), (idx)(1 + (i + 1) % np), (idx)(1 + (i + 2) % np)}),
           cell({0, (idx)(1 + (i + 2) % np), (idx)(1 + (i + 3) % np)}), i += 3;
  } else if (kind >= 6) {
    for (int j = 0; j <= ny; ++j)
      for (int i = 0; i <= nx; ++i) s.pts.push_back({i, 0.5 * j});
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        const idx q = j * (nx + 1) + i, u = q + nx + 1;
        if (kind == 6) cell({q, q + 1, u}), cell({u + 1, u, q + 1});
        else cell({q, q + 1, u + 1, u});
      }
  } else {
    for (int i = 0; i < nx; ++i) {
      const idx b = s.pts.size();
      const double x = 2 * i;
      s.pts.insert(s.pts.end(), {{x, 0}, {x + 1, 0.1}, {x + 1.1, 1}, {x - 0.1, 1.2}});
      if (i % 2) cell({b, b + 1, b + 2}), cell({b, b + 2, b + 3});
      else cell({b, b + 1, b + 2, b + 3});
    }
  }
  auto ce = cellEdges(s);
  if (kind >= 6)
    for (size_t k = 0; k < ce.size(); ++k) {
      auto e = ce[k];
      if ((k * 2654435761u + v * 97) >> 13 & 1) std::swap(e.first, e.second);
      s.edges.push_back({e.first, e.second, geo ? geo : (int)(k % 2)});
    }
  else if (v % 4)
    for (size_t k = 0; k < ce.size(); ++k)
      if ((int)(k % 4) < v % 4) {
        auto e = ce[(k * 7 + 3) % ce.size()];
        if (ce.size() % 7 == 0) e = ce[k];
        if ((k + v) % 2) std::swap(e.first, e.second);
        s.edges.push_back({e.first, e.second, geo ? geo : (int)(k % 2)});
      }
  if (v) {
    std::vector<idx> p(s.pts.size());
    size_t st = 5 + 2 * v;
    while (std::gcd(st, p.size()) != 1) ++st;
    for (size_t k = 0; k < p.size(); ++k) p[k] = (k * st + v) % p.size();
    s = permuteNodes(s, p);
  }
  return s;
}
struct LargeDim {
  int nx, ny, kind;
};
// bounded family used by all harnesses that explore large meshes
inline std::vector<LargeDim> largeDims(int maxn) {
  std::vector<LargeDim> r;
  for (int k = 0; k <= 2; ++k)
    for (auto d : std::vector<std::pair<int, int>>{{3, 3}, {5, 4}, {1, 20}, {9, 8}, {17, 16}, {33, 32}, {1, 300}, {60, 51}})
      if (d.first * d.second <= maxn) r.push_back({d.first, d.second, k});
  for (int n : {6, 7, 9, 17, 33, 70, 130, 300})
    if (n <= maxn) r.push_back({n, 0, 3}), r.push_back({std::max(2, n / 2), 0, 4});
  for (int n : {3, 10, 40, 130})
    if (n <= maxn) r.push_back({n, 0, 5});
  for (int k : {6, 7}) r.push_back({4, 4, k});
  return r;
}

// all large meshes with at most maxn cells (about); nv variants each
inline std::vector<Spec> largeSpecs(int maxn, int nv, int v0 = 0) {
  std::vector<Spec> r;
  for (auto& d : largeDims(maxn))
    for (int k = 0; k < nv; ++k) r.push_back(large(d.nx, d.ny, d.kind, (v0 + k * 5 + d.nx) % 12));
  return r;
}
// more than 65536 nodes, edges and cells (indices and counters that do not fit into 16 bits)
inline Spec huge(int k) { return k == 0 ? large(257, 256, 0, 1) : k == 1 ? large(259, 255, 1, 6) : large(261, 254, 2, 4); }
// selection of entities by a bit mask; periodic on large meshes
inline bool on(uint64_t mask, unsigned i) { return mask >> (i % 61) & 1; }
inline V2 pos(const lf::mesh::Entity& e) {
  return e.Geometry()->Global(Eigen::Matrix<double, 0, 1>());
}
inline V2 at(const lf::mesh::Entity& e, double x) {
  return e.Geometry()->Global((Eigen::MatrixXd(1, 1) << x).finished());
}
inline V2 at(const lf::mesh::Entity& e, double x, double y) {
  return e.Geometry()->Global((Eigen::MatrixXd(2, 1) << x, y).finished());
}
}  // namespace ms
