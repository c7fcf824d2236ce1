// M01: meshes built from arbitrary small lists of points/edges/cells.
#include "meshcheck.h"
using namespace ms;

static std::vector<Spec> T;
// slices
enum { A = 0, B, C, D, E_, F_, NS };
static int maxLarge() { return mc::thorough ? 4000 : 1100; }
static long count() {
  T = topologies();
  return NS * (long)T.size() * 8 + 12 * (long)largeDims(maxLarge()).size() + 3;
}

static void one(const Spec& s, bool ef, bool il) {
  if (mc::outcome(s.str() + (ef ? "e" : "c") + (il ? "i" : ""))) mc::states();
  mc::current(s.str());
  mc::transitions(s.pts.size() + s.cells.size() + s.edges.size() + 1);
  lf::mesh::hybrid2d::MeshFactory f(s.dim);
  auto b = build(s, f, ef, il);
  checkBuilt(s, b);
  mc::traces();
}

// product over per-cell dihedral choices, strided by `part` of 8
static void sliceA(const Spec& t, int part) {
  // every dihedral renumbering of every cell x every cell-geometry mask
  std::vector<std::vector<std::vector<idx>>> opts;
  for (auto& c : t.cells) opts.push_back(dihedral(c.n));
  uint64_t tot = 1;
  for (auto& o : opts) tot *= o.size();
  const uint64_t lim = mc::thorough ? 8192 : 1024;
  const uint64_t step = std::max<uint64_t>(1, tot / lim) | 1;
  const int nc = t.cells.size();
  uint64_t k = 0;
  for (uint64_t i = 0; i < tot; i += (tot <= lim ? 1 : step)) {
    Spec s = t;
    uint64_t r = i;
    for (int c = 0; c < nc; ++c) {
      s.cells[c].n = opts[c][r % opts[c].size()];
      r /= opts[c].size();
    }
    for (int g = 0; g < (nc <= 3 ? (int)std::pow(3, nc) : 3); ++g, ++k) {
      if ((int)(k % 8) != part) continue;
      int gg = g;
      for (int c = 0; c < nc; ++c) {
        s.cells[c].geo = nc <= 3 ? gg % 3 : (g == 0 ? 0 : (c + g) % 3);
        gg /= 3;
      }
      one(s, true, false);
    }
  }
}
static void sliceB(const Spec& t, int part) {
  // pre-declared edges: every subset, every orientation, several orders, kinds
  auto ce = cellEdges(t);
  const int ne = ce.size();
  const int maxk = mc::thorough ? 4 : 3;
  uint64_t k = 0;
  for (uint32_t mask = 1; mask < (1u << ne); ++mask) {
    const int pc = __builtin_popcount(mask);
    if (pc > maxk && pc < ne) continue;
    std::vector<int> sel;
    for (int i = 0; i < ne; ++i)
      if (mask >> i & 1) sel.push_back(i);
    auto orders = perms(sel.size(), pc <= 3 ? 3 : 0);
    if (pc > 3) orders.resize(std::min<size_t>(orders.size(), 4));
    const uint32_t omax = pc <= maxk ? (1u << pc) : 4;
    for (auto& ord : orders)
      for (uint32_t om = 0; om < omax; ++om)
        for (int kind = 0; kind < 4; ++kind)
          for (int cg = 0; cg < 3; ++cg, ++k) {
            if ((int)(k % 8) != part) continue;
            // thin out the combination of all dimensions for large topologies
            if (!mc::thorough && ne > 6 && pc >= 3 && (k / 8) % 7 != 0) continue;
            Spec s = t;
            for (auto& c : s.cells) c.geo = cg;
            for (size_t q = 0; q < sel.size(); ++q) {
              auto e = ce[sel[ord[q]]];
              const bool flip = pc <= maxk ? (om >> q & 1) : (om == 1 || (om == 2 && q % 2) || (om == 3 && q % 3 == 0));
              if (flip) std::swap(e.first, e.second);
              s.edges.push_back({e.first, e.second, kind == 3 ? (int)((q + om) % 3) : kind});
            }
            one(s, (k / 8) % 3 != 1, (k / 8) % 3 == 2);
          }
  }
}
static void sliceC(const Spec& t, int part) {
  // node numberings x edges none / all / every third, x cell orders
  auto ce = cellEdges(t);
  auto ps = perms(t.pts.size(), mc::thorough ? 6 : 5);
  auto co = perms(t.cells.size(), 4);
  uint64_t k = 0;
  for (auto& p : ps)
    for (auto& o : co)
      for (int em = 0; em < 3; ++em)
        for (int cg = 0; cg < 2; ++cg, ++k) {
          if ((int)(k % 8) != part) continue;
          Spec s = t;
          for (size_t i = 0; i < o.size(); ++i) s.cells[i] = t.cells[o[i]];
          for (size_t i = 0; i < s.cells.size(); ++i) s.cells[i].geo = cg ? (int)(i % 3) : 0;
          if (em)
            for (size_t i = 0; i < ce.size(); ++i)
              if (em == 1 || i % 3 == 0)
                s.edges.push_back(i % 2 ? EdgeSpec{ce[i].second, ce[i].first, kO1} : EdgeSpec{ce[i].first, ce[i].second, kNone});
          s = permuteNodes(s, p);
          one(s, true, (k / 8) % 2);
        }
}
static void sliceD(const Spec& t, int part) {
  // factory re-use: every ordered pair (thorough: triple) of topologies built by
  // one factory object; Contains must separate the meshes
  lf::mesh::hybrid2d::MeshFactory f(2);
  auto variant = [&](const Spec& x, int v) {
    Spec s = x;
    auto ce = cellEdges(s);
    for (auto& c : s.cells) c.geo = v % 3;
    for (size_t i = 0; i < ce.size(); ++i)
      if (v == 1 || (v == 2 && i % 2)) s.edges.push_back({ce[i].second, ce[i].first, kO1});
    return s;
  };
  for (size_t j = 0; j < T.size(); ++j)
    for (int v = 0; v < 3; ++v) {
      Spec s1 = variant(t, part % 3), s2 = variant(T[j], v);
      mc::current("reuse: " + s1.str() + " ; " + s2.str());
      if (mc::outcome("D" + s1.str() + s2.str())) mc::states();
      mc::transitions(2);
      auto b1 = build(s1, f);
      auto b2 = build(s2, f);
      checkBuilt(s1, b1);
      checkBuilt(s2, b2);
      mc::traces();
      for (unsigned cd = 0; cd <= 2; ++cd) {
        for (const auto* e : b1.mesh->Entities(cd))
          MC_CHECK(!b2.mesh->Contains(*e), "contains-foreign", s1.str() << " / " << s2.str() << " codim " << cd);
        for (const auto* e : b2.mesh->Entities(cd))
          MC_CHECK(!b1.mesh->Contains(*e), "contains-foreign", s1.str() << " / " << s2.str() << " codim " << cd);
      }
    }
}
static void sliceE(const Spec& t, int part) {
  // world dimension 3 (all cells carry a geometry)
  auto ce = cellEdges(t);
  auto ps = perms(t.pts.size(), 0);
  uint64_t k = 0;
  for (auto& p : ps)
    for (int g = 1; g <= 2; ++g)
      for (int em = 0; em < 3; ++em, ++k) {
        if ((int)(k % 8) != part) continue;
        Spec s = t;
        s.dim = 3;
        for (auto& c : s.cells) c.geo = g;
        for (size_t i = 0; i < ce.size(); ++i)
          if (em == 1 || (em == 2 && i % 2)) s.edges.push_back({ce[i].second, ce[i].first, (int)(i % 3)});
        s = permuteNodes(s, p);
        one(s, em != 1, false);
      }
}
static void sliceF(const Spec& t, int part) {
  // degenerate meshes without cells/edges
  {
    lf::mesh::hybrid2d::MeshFactory f(2, false), f2(2, false);
    Spec p1;
    p1.name = "points-only";
    p1.pts = t.pts;
    mc::current("points-only/empty vs " + t.str());
    auto b = build(p1, f);
    checkBuilt(p1, b, false);
    Spec none;
    none.name = "empty";
    auto b0 = build(none, f);
    checkBuilt(none, b0, false);
    auto bt = build(t, f2);
    for (unsigned cd = 0; cd <= 2; ++cd)
      for (const auto* e : bt.mesh->Entities(cd))
        MC_CHECK(!b.mesh->Contains(*e) && !b0.mesh->Contains(*e), "contains-foreign", "points-only vs " << t.str() << " codim " << cd);
    mc::transitions(3);
  }
  // incomplete meshes: isolated nodes / edges without a cell, completeness off
  if (part != 0) return;
  for (int extra = 1; extra <= 2; ++extra)
    for (int withedge = 0; withedge < 3; ++withedge) {
      Spec s = t;
      s.name += "+isolated";
      const idx n0 = s.pts.size();
      for (int i = 0; i < extra; ++i) s.pts.push_back({5. + i, 5. - 0.3 * i});
      if (withedge >= 1) s.edges.push_back({n0, 0, kO1});
      if (withedge == 2) s.edges.push_back({1, n0, kO2});
      mc::current(s.str());
      if (mc::outcome("F" + s.str())) mc::states();
      mc::transitions();
      lf::mesh::hybrid2d::MeshFactory f(2, false);
      auto b = build(s, f);
      checkBuilt(s, b, false);
      mc::traces();
    }
}

static void item(long i) {
  const int part = i % 8;
  const int sl = (i / 8) % NS;
  if (i >= NS * (long)T.size() * 8) {  // large meshes, in the plane and on a surface
    long k = i - NS * (long)T.size() * 8;
    if (k < 3) return one(huge(k), false, k == 2);  // (first, they take longest)
    k -= 3;
    const auto d = largeDims(maxLarge())[k / 12];
    Spec s = large(d.nx, d.ny, d.kind, k % 12);
    one(s, true, false);
    one(s, k % 2, true);
    if (k % 3) s.dim = 3, one(s, true, false);
    return;
  }
  const Spec& t = T[i / 8 / NS];
  if (i < 3) mc::sample("slice " + std::to_string(sl) + " of " + t.str());
  switch (sl) {
    case A: sliceA(t, part); break;
    case B: sliceB(t, part); break;
    case C: sliceC(t, part); break;
    case D: sliceD(t, part); break;
    case E_: sliceE(t, part); break;
    case F_: sliceF(t, part); break;
  }
}
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
