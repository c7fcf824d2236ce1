// R03: local refinement of triangles never degrades their shape: the set of
// similarity classes (with refinement edge) reachable through any sequence of
// markings is finite.  Reachability fixpoint on the real MeshHierarchy: every
// newly found class is reached again through its witness history and all
// markings of the edges of that cell are applied to it.
#include "hier.h"
using namespace hr;
namespace {
struct State {
  std::vector<Step> path;  // history
  unsigned cell;           // cell on the finest mesh
};
struct Tri {
  std::array<double, 3> l;  // squared edge lengths
  double minAngle() const {
    double mn = 10;
    for (int k = 0; k < 3; ++k) {
      const double a = l[k], b = l[(k + 1) % 3], c = l[(k + 2) % 3];
      const double cs = (b + c - a) / (2 * std::sqrt(b * c));
      mn = std::min(mn, std::acos(std::max(-1.0, std::min(1.0, cs))));
    }
    return mn;
  }
  std::string key(unsigned ref) const {
    const double m = std::max({l[0], l[1], l[2]});
    char b[100];
    snprintf(b, sizeof b, "%.7f %.7f %.7f r%u", l[0] / m, l[1] / m, l[2] / m, ref);
    return b;
  }
};
Tri tri(const Snap& s, unsigned c) {
  Tri t;
  for (int k = 0; k < 3; ++k) t.l[k] = (s.pos[s.cells[c].n[k]] - s.pos[s.cells[c].n[(k + 1) % 3]]).squaredNorm();
  return t;
}
std::vector<Spec> specs;
long count() {
  // shapes on a lattice, all corner numberings
  std::vector<std::vector<V2>> shapes = {{{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {4, 0}, {1, 3}}, {{0, 0}, {8, 0}, {4, 7}}, {{0, 0}, {5, 0}, {3, 1}}, {{0, 0}, {6, 1}, {-2, 3}}};
  if (mc::thorough)
    for (int a = 2; a <= 7; ++a)
      for (int x = -3; x <= a; ++x)
        for (int y = 1; y <= 5; ++y) shapes.push_back({{0, 0}, {(double)a, 0}, {(double)x, (double)y}});
  for (auto& p : shapes)
    for (auto& d : dihedral({0, 1, 2})) {
      Spec s;
      s.name = "tria";
      s.pts = p;
      s.cells.push_back({d, kNone});
      specs.push_back(s);
    }
  // several cells: closure runs through neighbours
  for (auto& s : bases({2, 5, 8}, true, {kNone})) specs.push_back(s);
  // dyadic positions, so that classes can be compared exactly
  for (auto& s : specs)
    for (auto& p : s.pts) p = (p * 64).array().round() / 64;
  return specs.size();
}
void item(long it) {
  const Spec& sp = specs[it];
  mc::sample(sp.str());
  std::map<std::string, State> seen;
  std::vector<std::string> queue;
  double bound;
  {
    auto h = makeHier(sp);
    const Snap s = snap(*h, 0);
    bound = 10;
    for (unsigned c = 0; c < s.cells.size(); ++c) {
      bound = std::min(bound, tri(s, c).minAngle());
      const auto k = tri(s, c).key(s.cells[c].ref);
      if (seen.insert({k, {{}, c}}).second) queue.push_back(k);
    }
  }
  const size_t cap = 60 * sp.cells.size();
  for (size_t q = 0; q < queue.size(); ++q) {
    const State st = seen[queue[q]];
    mc::states();
    mc::outcome(sp.str() + queue[q]);
    for (int mask = 1; mask <= 8; ++mask) {
      auto h = makeHier(sp);
      for (auto& s : st.path) apply(*h, s);
      const Snap c = snap(*h, h->NumLevels() - 1);
      MC_CHECK(tri(c, st.cell).key(c.cells[st.cell].ref) == queue[q], "replay-diverges", sp.str());
      Step s;
      if (mask == 8) s.kind = 'r';
      else
        for (int k = 0; k < 3; ++k)
          if (mask >> k & 1) s.mark.push_back(c.cells[st.cell].e[k]);
      auto path = st.path;
      path.push_back(s);
      std::string t = sp.str() + " ::";
      for (auto& x : path) t += " " + x.str();
      mc::current(t);
      apply(*h, s);
      mc::traces();
      const Snap f = snap(*h, h->NumLevels() - 1);
      for (unsigned k = 0; k < f.cells.size(); ++k) {
        if (!(f.cells[k].n.size() == 3 && f.cells[k].ref < 3)) {
          MC_CHECK(false, "triangle-with-refinement-edge", t << " cell " << k);
          continue;
        }
        const Tri x = tri(f, k);
        MC_CHECK(x.minAngle() >= 0.5 * bound - 1e-9, "angle-degrades", t << " cell " << k << ": smallest angle " << x.minAngle() << " < half of the initial " << bound);
        const auto key = x.key(f.cells[k].ref);
        if (seen.size() < cap && seen.insert({key, {path, k}}).second) queue.push_back(key);
      }
      if (seen.size() >= cap) break;
    }
    if (seen.size() >= cap) break;
  }
  MC_CHECK(seen.size() < cap, "infinitely-many-shapes", sp.str() << ": " << seen.size() << " classes and growing");
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
