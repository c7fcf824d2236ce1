// M02: structured mesh builders, adjacency counts, boundary flags, data sets.
#include <lf/mesh/utils/utils.h>
#include <lf/mesh/utils/all_codim_mesh_data_set.h>
#include <lf/mesh/utils/codim_mesh_data_set.h>
#include <lf/mesh/utils/special_entity_sets.h>
#include <lf/mesh/utils/torus_mesh_builder.h>
#include <lf/mesh/utils/tp_quad_mesh_builder.h>
#include <lf/mesh/utils/tp_triag_mesh_builder.h>

#include "meshcheck.h"
using namespace ms;
namespace mu = lf::mesh::utils;
namespace {
std::vector<Spec> T, L;
// sizes far beyond the complete range, to reach cells in every position and buffers of every size
const std::vector<std::pair<unsigned, unsigned>> big{{13, 2}, {3, 17}, {1, 40}, {70, 1}, {16, 16}, {33, 17}, {64, 3}, {9, 129}};
int NMAX() { return mc::thorough ? 10 : 6; }
long count() {
  T = topologies();
  L = largeSpecs(mc::thorough ? 1100 : 310, mc::thorough ? 4 : 2);
  for (int k = 0; k < 3; ++k) L.push_back(huge(k));
  // A: builders (type x nx), large ones ; B: adjacency on topologies, large meshes ; C: data-set histories
  return 3 * (NMAX() + 1) + 3 * (long)big.size() + (long)T.size() * 2 + (long)L.size() + (long)T.size();
}
struct Box { double x0, y0, x1, y1; };
const std::vector<Box> boxes{{0, 0, 1, 1}, {-1, 2, 3, 2.5}, {0.1, -0.7, 0.4, 1.9}, {1e3, 1e3, 1e3 + 1, 1e3 + 3}, {0, 0, 1e-3, 5e-3}, {0, 0, 0, 1}, {0, 0, 1, 0}, {1, 0, 0, 1}, {0, 1, 1, 0}};

// adjacency and boundary against a brute-force model
void checkAdjacency(const std::shared_ptr<const lf::mesh::Mesh>& m, const std::string& tag) {
  for (unsigned sub = 0; sub <= 2; ++sub)
    for (unsigned sup = 0; sup <= sub; ++sup) {
      auto c = mu::CountNumSuperEntities(m, sub, sup);
      mc::transitions();
      std::map<const Entity*, unsigned> n;
      for (const auto* s : m->Entities(sub - sup))
        for (const auto* x : s->SubEntities(sup)) ++n[x];
      for (const auto* e : m->Entities(sub))
        MC_CHECK(c(*e) == n[e], "count-super", tag << " sub " << sub << " sup " << sup << " idx " << m->Index(*e) << " got " << c(*e) << " want " << n[e]);
    }
  std::vector<std::set<const Entity*>> bd(3);
  std::map<const Entity*, unsigned> cells;
  for (const auto* c : m->Entities(0))
    for (const auto* x : c->SubEntities(1)) ++cells[x];
  for (const auto* e : m->Entities(1))
    if (cells[e] == 1) {
      bd[1].insert(e);
      for (const auto* x : e->SubEntities(1)) bd[2].insert(x);
    }
  auto all = mu::flagEntitiesOnBoundary(m);
  mc::transitions();
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const auto* e : m->Entities(cd))
      MC_CHECK(all(*e) == (bd[cd].count(e) > 0), "boundary-all", tag << " codim " << cd << " idx " << m->Index(*e));
  for (unsigned cd = 1; cd <= 2; ++cd) {
    auto f = mu::flagEntitiesOnBoundary(m, cd);
    mc::transitions();
    for (const auto* e : m->Entities(cd)) MC_CHECK(f(*e) == (bd[cd].count(e) > 0), "boundary", tag << " codim " << cd << " idx " << m->Index(*e));
  }
  mc::traces();
}

Spec tpModel(bool tri, unsigned nx, unsigned ny, const Box& b) {
  Spec s;
  const double hx = (b.x1 - b.x0) / nx, hy = (b.y1 - b.y0) / ny;
  for (unsigned j = 0; j <= ny; ++j)
    for (unsigned i = 0; i <= nx; ++i) s.pts.push_back({b.x0 + i * hx, b.y0 + j * hy});
  auto v = [&](unsigned i, unsigned j) -> idx { return i + j * (nx + 1); };
  if (tri) {
    for (unsigned i = 0; i < nx; ++i)
      for (unsigned j = 0; j <= ny; ++j) s.edges.push_back({v(i, j), v(i + 1, j)});
    for (unsigned i = 0; i <= nx; ++i)
      for (unsigned j = 0; j < ny; ++j) s.edges.push_back({v(i, j), v(i, j + 1)});
    for (unsigned i = 0; i < nx; ++i)
      for (unsigned j = 0; j < ny; ++j) s.edges.push_back({v(i, j), v(i + 1, j + 1)});
  }
  for (unsigned i = 0; i < nx; ++i)
    for (unsigned j = 0; j < ny; ++j) {
      if (tri) {
        s.cells.push_back({{v(i, j), v(i + 1, j + 1), v(i, j + 1)}});
        s.cells.push_back({{v(i, j), v(i + 1, j), v(i + 1, j + 1)}});
      } else
        s.cells.push_back({{v(i, j), v(i + 1, j), v(i + 1, j + 1), v(i, j + 1)}});
    }
  return s;
}

template <class B>
void builders(int type, unsigned nx, const std::vector<unsigned>& nys) {
  const int dim = type == 2 ? 3 : 2;
  for (unsigned ny : nys)
    for (size_t bi = 0; bi < boxes.size(); ++bi)
      for (int mode = 0; mode < 4; ++mode) {
        const Box b = boxes[bi];
        if (type == 2 && !(nx == 0 || ny == 0) && (nx < 3 || ny < 3)) continue;  // no conforming torus below 3x3
        if (type == 2 && b.y1 - b.y0 < 1.2 * (b.x1 - b.x0)) continue;             // ring torus only
        std::ostringstream o;
        o << (type == 0 ? "TPQuad" : type == 1 ? "TPTriag" : "Torus") << " nx=" << nx << " ny=" << ny << " box " << b.x0 << "," << b.y0 << "," << b.x1 << "," << b.y1 << " mode " << mode;
        const std::string tag = o.str();
        mc::current(tag);
        if (mc::outcome(tag)) mc::states();
        B bu(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(dim));
        auto setup = [&] {
          if (mode == 0) bu.setBottomLeftCorner(Eigen::Vector2d{b.x0, b.y0}).setTopRightCorner(Eigen::Vector2d{b.x1, b.y1}).setNumXCells(nx).setNumYCells(ny);
          if (mode == 1) bu.setNumYCells(ny).setTopRightCorner(b.x1, b.y1).setNumXCells(nx).setBottomLeftCorner(b.x0, b.y0);
          if (mode == 2) bu.setNumXCells(nx + 1).setNumYCells(ny + 2).setTopRightCorner(7, 9).setBottomLeftCorner(5, 5).setNumXCells(nx).setNumYCells(ny).setTopRightCorner(b.x1, b.y1).setBottomLeftCorner(b.x0, b.y0);
          if (mode == 3) {  // a builder that has already produced another mesh
            bu.setBottomLeftCorner(0., 0.).setTopRightCorner(1., 2.).setNumXCells(3).setNumYCells(4);
            auto first = bu.Build();
            MC_CHECK(first && first->NumEntities(2) == (type == 2 ? 12u : 20u), "rebuild-first", tag);
            mc::transitions();
            bu.setBottomLeftCorner(b.x0, b.y0).setTopRightCorner(b.x1, b.y1).setNumXCells(nx).setNumYCells(ny);
          }
        };
        setup();
        std::shared_ptr<lf::mesh::Mesh> m = bu.Build();
        mc::transitions();
        const bool empty = nx == 0 || ny == 0 || b.x1 <= b.x0 || b.y1 <= b.y0;
        MC_CHECK((m == nullptr) == empty, "build-null", tag);
        if (!m) continue;
        Built bt;
        bt.mesh = m;
        if (type < 2) {
          Spec s = tpModel(type == 1, nx, ny, b);
          s.name = tag;
          bt.cell_geo.assign(s.cells.size(), nullptr);
          bt.edge_geo.assign(s.edges.size(), nullptr);
          // orientation of pre-declared edges: bottom-left to top-right
          checkBuilt(s, bt);
          if (m->NumEntities(1) >= s.edges.size())
            for (size_t i = 0; i < s.edges.size(); ++i) {
              auto n = m->EntityByIndex(1, i)->SubEntities(1);
              MC_CHECK(m->Index(*n[0]) == s.edges[i].a && m->Index(*n[1]) == s.edges[i].b, "edge-direction", tag << " edge " << i);
            }
          double area = 0;
          for (const auto* c : m->Entities(0)) area += lf::geometry::Volume(*c->Geometry());
          MC_CHECK(std::abs(area - (b.x1 - b.x0) * (b.y1 - b.y0)) <= 1e-9 * (b.x1 - b.x0) * (b.y1 - b.y0), "area", tag << " " << area);
          mc::traces();
        } else {
          const double r = (b.x1 - b.x0) / (2 * M_PI), R = (b.y1 - b.y0) / (2 * M_PI);
          MC_CHECK(m->NumEntities(0) == nx * ny && m->NumEntities(1) == 2 * nx * ny && m->NumEntities(2) == nx * ny && m->DimWorld() == 3, "torus-counts", tag);
          if (m->NumEntities(0) != nx * ny || m->NumEntities(2) != nx * ny) continue;
          checkIncidence(*m, tag);
          const Eigen::Matrix<double, 0, 1> z;
          for (unsigned i = 0; i < nx; ++i)
            for (unsigned j = 0; j < ny; ++j) {
              const double th = 2 * M_PI * i / nx, ph = 2 * M_PI * j / ny;
              Eigen::Vector3d p((R + r * cos(th)) * cos(ph), (R + r * cos(th)) * sin(ph), r * sin(th));
              MC_CHECK((m->EntityByIndex(2, i + j * nx)->Geometry()->Global(z) - p).norm() <= 1e-9 * (R + r), "torus-node", tag << " node " << i << "," << j);
              auto n = m->EntityByIndex(0, j + i * ny)->SubEntities(2);
              const idx w[4] = {i + j * nx, (i + 1) % nx + j * nx, (i + 1) % nx + ((j + 1) % ny) * nx, i + ((j + 1) % ny) * nx};
              for (int q = 0; q < 4; ++q) MC_CHECK(m->Index(*n[q]) == w[q], "torus-cell", tag << " cell " << i << "," << j);
            }
          mc::traces();
        }
        if (bi < 2 && mode == 0) checkAdjacency(m, tag);
      }
}

void adjacency(const Spec& t, int part) {
  auto ce = cellEdges(t);
  // all single re-orderings of the cells plus declared isolated edge
  for (auto& p : perms(t.cells.size(), 4))
    for (int extra = 0; extra < 4; ++extra) {
      Spec s = t;
      for (size_t i = 0; i < p.size(); ++i) s.cells[i] = t.cells[p[i]];
      if (extra & 1) s.edges.push_back({ce[0].second, ce[0].first});
      if (extra & 2) {  // two more nodes joined by an edge that belongs to no cell
        s.pts.push_back({9, 9});
        s.pts.push_back({10, 9});
        s.edges.push_back({(idx)s.pts.size() - 1, (idx)s.pts.size() - 2, kO1});
      }
      if (part)
        for (auto& c : s.cells) c.n = dihedral(c.n)[(p[0] + 1 + c.n[0]) % (2 * c.n.size())];
      const std::string tag = s.str() + " adjacency";
      mc::current(tag);
      if (mc::outcome(tag)) mc::states();
      lf::mesh::hybrid2d::MeshFactory f(2, !(extra & 2));
      checkAdjacency(build(s, f).mesh, tag);
    }
}

// histories of writes/moves/reads on the two data-set kinds vs. a map
template <class V>
void histories(const std::shared_ptr<const lf::mesh::Mesh>& m, const std::shared_ptr<const lf::mesh::Mesh>& other, const std::string& tag0, const std::vector<V>& vals, V init) {
  std::vector<const Entity*> ents;
  for (unsigned cd = 0; cd <= 2; ++cd) {
    auto es = m->Entities(cd);
    ents.push_back(es[0]);
    ents.push_back(es[es.size() - 1]);
    if (es.size() > 2) ents.push_back(es[es.size() / 2]);
  }
  const int NE = ents.size(), NV = vals.size();
  const int nops = NE * NV + 1;  // write(e,v) or "move the data set"
  const int depth = 3;
  for (int kind = 0; kind < 4; ++kind) {  // 0..2: CodimMeshDataSet(kind), 3: all
    long tot = 1;
    for (int d = 0; d < depth; ++d) tot *= nops;
    for (long h = 0; h < tot; ++h) {
      mc::beat();
      std::map<const Entity*, V> model;
      auto in = [&](const Entity* e) { return kind == 3 || (int)e->Codim() == kind; };
      bool legal = true;
      {
        long r = h;
        for (int d = 0; d < depth; ++d, r /= nops)
          if (r % nops < nops - 1 && !in(ents[(r % nops) / NV])) legal = false;
      }
      if (!legal) continue;
      const std::string tag = tag0 + " kind " + std::to_string(kind) + " history " + std::to_string(h);
      mc::current(tag);
      mc::states();
      auto run = [&](auto& ds0, auto mk) {
        auto cur = std::make_unique<std::decay_t<decltype(ds0)>>(std::move(ds0));
        long r = h;
        for (int d = 0; d < depth; ++d, r /= nops) {
          const int op = r % nops;
          mc::transitions();
          if (op == nops - 1) {
            auto nx = std::make_unique<std::decay_t<decltype(ds0)>>(mk());
            *nx = std::move(*cur);
            cur = std::move(nx);
          } else {
            (*cur)(*ents[op / NV]) = vals[op % NV];
            model[ents[op / NV]] = vals[op % NV];
          }
        }
        const auto& c = *cur;
        for (unsigned cd = 0; cd <= 2; ++cd) {
          for (const auto* e : m->Entities(cd)) {
            MC_CHECK(c.DefinedOn(*e) == in(e), "defined-on", tag);
            if (!in(e)) continue;
            auto it = model.find(e);
            MC_CHECK(c(*e) == (it == model.end() ? init : it->second), "dataset-value", tag << " codim " << cd << " idx " << m->Index(*e));
          }
          for (const auto* e : other->Entities(cd)) MC_CHECK(!c.DefinedOn(*e), "defined-on-foreign", tag);
        }
      };
      if (kind == 3) {
        mu::AllCodimMeshDataSet<V> ds(m, init);
        run(ds, [&] { return mu::AllCodimMeshDataSet<V>(m, vals[0]); });
      } else {
        mu::CodimMeshDataSet<V> ds(m, kind, init);
        run(ds, [&] { return mu::CodimMeshDataSet<V>(m, kind, vals[0]); });
      }
    }
    mc::traces();
  }
}

struct D42 {
  int v = 42;
};
// data sets without initial value: default-initialized, every entity writable, no interference
void defaults(const std::shared_ptr<const lf::mesh::Mesh>& m, const std::string& tag) {
  mu::AllCodimMeshDataSet<D42> a(m);
  auto b = mu::make_AllCodimMeshDataSet<std::string>(m);
  mu::AllCodimMeshDataSet<std::unique_ptr<int>> u(m);
  for (int pass = 0; pass < 2; ++pass) {
    int n = 0;
    for (unsigned cd = 0; cd <= 2; ++cd)
      for (const auto* e : m->Entities(cd)) {
        ++n;
        if (pass == 0) {
          MC_CHECK(a.DefinedOn(*e) && a(*e).v == 42 && (*b)(*e).empty() && u(*e) == nullptr, "default-value", tag << " codim " << cd);
          a(*e).v = n;
          (*b)(*e) = std::to_string(n);
          u(*e) = std::make_unique<int>(n);
        } else MC_CHECK(a(*e).v == n && (*b)(*e) == std::to_string(n) && *u(*e) == n, "default-written", tag << " codim " << cd);
      }
  }
  for (unsigned cd = 0; cd <= 2; ++cd) {
    mu::CodimMeshDataSet<D42> c(m, cd);
    auto d = mu::make_CodimMeshDataSet<std::string>(m, cd);
    for (int pass = 0; pass < 2; ++pass) {
      int n = 0;
      for (const auto* e : m->Entities(cd)) {
        ++n;
        if (pass == 0) {
          MC_CHECK(c(*e).v == 42 && (*d)(*e).empty(), "default-value", tag << " only codim " << cd);
          c(*e).v = n;
          (*d)(*e) = std::to_string(n);
        } else MC_CHECK(c(*e).v == n && (*d)(*e) == std::to_string(n), "default-written", tag << " only codim " << cd);
      }
    }
  }
}

void item(long it) {
  const int nb = 3 * (NMAX() + 1 + big.size());
  if (it < nb) {
    const int type = it % 3;
    unsigned nx = it / 3;
    std::vector<unsigned> nys;
    if (nx > (unsigned)NMAX()) {
      const auto b = big[nx - NMAX() - 1];
      nx = b.first;
      nys = {b.second};
    } else
      for (unsigned ny = 0; ny <= (unsigned)NMAX(); ++ny) nys.push_back(ny);
    mc::sample("builder type " + std::to_string(type) + " nx " + std::to_string(nx));
    if (type == 0) builders<mu::TPQuadMeshBuilder>(0, nx, nys);
    if (type == 1) builders<mu::TPTriagMeshBuilder>(1, nx, nys);
    if (type == 2) builders<mu::TorusMeshBuilder>(2, nx, nys);
    return;
  }
  it -= nb;
  if (it < (long)T.size() * 2) return adjacency(T[it / 2], it % 2);
  it -= T.size() * 2;
  if (it < (long)L.size()) {
    mc::current(L[it].str() + " adjacency");
    if (mc::outcome(L[it].str() + " adjacency")) mc::states();
    return checkAdjacency(buildMesh(L[it]), L[it].str() + " adjacency");
  }
  it -= L.size();
  auto m = buildMesh(T[it]), o = buildMesh(T[(it + 1) % T.size()]);
  histories<int>(m, o, T[it].name + " int", {5, -3}, 7);
  if (it < 3 || mc::thorough) {
    histories<bool>(m, o, T[it].name + " bool", {true, false}, false);
    histories<std::string>(m, o, T[it].name + " string", {"a", "bb"}, "init");
  }
  defaults(m, T[it].name);
  // factory functions
  auto a = mu::make_CodimMeshDataSet<double>(m, 1, 2.5);
  for (const auto* e : m->Entities(1)) MC_CHECK((*a)(*e) == 2.5, "make-codim", T[it].name);
  auto b = mu::make_AllCodimMeshDataSet<double>(m, 1.5);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const auto* e : m->Entities(cd)) MC_CHECK((*b)(*e) == 1.5, "make-allcodim", T[it].name);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
