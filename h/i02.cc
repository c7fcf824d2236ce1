// I02: physical groups.  All small sets of named groups and all queries on
// them; all assignments of group lists to geometric entities and of elements
// to geometric entities; groups on points that are not mesh nodes.
#include <lf/base/lf_exception.h>

#include "gmlay.h"
using namespace gm;
namespace {
// groups do not depend on the numbers of the elements
void numbered(File f, int fmt) {
  f.enumb = static_cast<int>(f.elems.size() + f.nodes.size() + fmt) % 4;
  exec(f, fmt, 2, false, true);
}
std::vector<std::function<void()>> items;
void namesCase(const std::vector<Name>& nm, int fmt) {
  Par p;
  p.lay = 0;
  File f = make(p);
  f.names = nm;
  mc::current(str(f, fmt));
  mc::states();
  mc::traces();
  put(write(f, fmt));
  lf::io::GmshReader r(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2), path());
  const std::vector<std::string> qs = {"a", "b", "c"};
  auto run = [&](auto fn) -> std::string {
    try {
      return fn();
    } catch (const lf::base::LfException&) {
      return "<exception>";
    }
  };
  for (int cd = -1; cd < 3; ++cd) {
    for (auto& q : qs) {
      mc::transitions();
      std::vector<int> hit;
      for (auto& n : nm)
        if (n.name == q && (cd < 0 || 2 - n.dim == cd)) hit.push_back(n.nr);
      const std::string want = hit.size() == 1 ? std::to_string(hit[0]) : "<exception>";
      mc::current(str(f, fmt) + " Name2Nr(" + q + "," + std::to_string(cd) + ")");
      const std::string got = run([&] { return std::to_string(cd < 0 ? r.PhysicalEntityName2Nr(q) : r.PhysicalEntityName2Nr(q, cd)); });
      MC_CHECK(got == want, "name2nr", mc::current() << " got " << got << " want " << want);
      mc::outcome(mc::fnv(mc::current() + got));
    }
    for (int nr : {1, 2, 3}) {
      mc::transitions();
      std::vector<std::string> hit;
      for (auto& n : nm)
        if (n.nr == nr && (cd < 0 || 2 - n.dim == cd)) hit.push_back(n.name);
      const std::string want = hit.size() == 1 ? hit[0] : "<exception>";
      mc::current(str(f, fmt) + " Nr2Name(" + std::to_string(nr) + "," + std::to_string(cd) + ")");
      const std::string got = run([&] { return cd < 0 ? r.PhysicalEntityNr2Name(nr) : r.PhysicalEntityNr2Name(nr, cd); });
      MC_CHECK(got == want, "nr2name", mc::current() << " got " << got << " want " << want);
    }
    if (cd >= 0) {
      mc::transitions();
      mc::current(str(f, fmt) + " PhysicalEntities(" + std::to_string(cd) + ")");
      std::set<std::pair<unsigned, std::string>> want;
      for (auto& n : nm)
        if (2 - n.dim == cd) want.insert({n.nr, n.name});
      auto got = r.PhysicalEntities(cd);
      MC_CHECK(got.size() == want.size() && (std::set<std::pair<unsigned, std::string>>(got.begin(), got.end()) == want), "physical-entities", mc::current());
    }
  }
}
std::vector<std::vector<int>> lists() {
  const int v[3] = {2, 5, 12};
  std::vector<std::vector<int>> r = {{}};
  for (int a = 0; a < 3; ++a) {
    r.push_back({v[a]});
    for (int b = 0; b < 3; ++b)
      if (b != a) {
        r.push_back({v[a], v[b]});
        r.push_back({v[a], v[b], v[3 - a - b]});
      }
  }
  return r;
}
void setup() {
  for (int s0 = 0; s0 < 7; ++s0)
    items.push_back([=] {
      const std::vector<std::vector<std::pair<int, const char*>>> per = {{}, {{1, "a"}}, {{1, "b"}}, {{2, "a"}}, {{2, "b"}}, {{1, "a"}, {2, "b"}}, {{1, "b"}, {2, "a"}}};
      for (auto& s1 : per)
        for (auto& s2 : per) {
          std::vector<Name> nm;
          int d = 0;
          for (auto* s : {&per[s0], &s1, &s2}) {
            for (auto& [nr, n] : *s) nm.push_back({d, nr, n});
            ++d;
          }
          for (auto& o : somePerms(static_cast<int>(nm.size()), mc::thorough ? 5 : 4)) {
            std::vector<Name> q;
            for (int k : o) q.push_back(nm[k]);
            for (int fmt = 0; fmt < 6; ++fmt)
              if (mc::thorough || nm.size() < 3 || fmt == V2T || fmt == V4L) namesCase(q, fmt);
          }
        }
    });
  const auto ls = lists();
  for (int lay : {0, 1, 2, 3})
    for (int d = 0; d < 3; ++d)
      for (size_t a = 0; a < ls.size(); ++a)
        items.push_back([=] {
          Par p;
          p.lay = lay;
          auto& l = layouts()[lay];
          p.edgesel.assign(edgesOf(l).size(), 1);
          p.ptsel = (1u << l.p.size()) - 1;
          const int n = d == 0 ? static_cast<int>(l.p.size()) : d == 1 ? static_cast<int>(edgesOf(l).size()) : static_cast<int>(l.cells.size());
          for (size_t b = 0; b < ls.size(); ++b)
            for (unsigned m = 0; m < (1u << n); ++m) {
              File f = make(p);
              for (int q = 0; q < 3; ++q) {
                f.ents[q].clear();
                f.ents[q].push_back({4, q == d ? ls[a] : std::vector<int>{1 + q}, {}});
                f.ents[q].push_back({1, q == d ? ls[b] : std::vector<int>{7}, {}});
              }
              int k = 0;
              for (auto& e : f.elems) e.ent = dimOf(e.type) == d ? ((m >> k++ & 1) ? 4 : 1) : (dimOf(e.type) == 0 ? 1 : 4);
              for (int fmt = 0; fmt < 6; ++fmt)
                if (mc::thorough || n <= 3 || fmt == static_cast<int>((m + b) % 3) || fmt == 3 + static_cast<int>((m + b) % 3)) numbered(f, fmt);
            }
        });
  // points that are not nodes of the mesh (auxiliary or isolated nodes) in groups
  for (int ord : {1, 8, 9})
    for (int lay : {0, 1, 2})
      items.push_back([=] {
        for (int iso = 0; iso <= 2; ++iso)
          for (int pos = 0; pos < 2; ++pos)
            for (int which = 0; which < 2 + iso; ++which)
              for (auto& pl : lists()) {
                Par p;
                p.lay = lay, p.order = ord, p.iso = iso;
                p.edgesel = {1};
                p.ptsel = 2;
                const int n = numIds(p), nc = static_cast<int>(layouts()[lay].p.size());
                if (which == 1 && (ord == 1 || nc == n)) continue;
                if (pos == 1) {
                  for (int k = 0; k < n; ++k) p.tag.push_back((k + iso) % n + 1), p.norder.push_back((k + n - iso) % n);
                }
                File base = make(p);
                // id of the additional point: 0 a corner, 1 first auxiliary node, 2.. isolated
                const int id = which == 0 ? 0 : which == 1 ? nc : n - iso + which - 2;
                const size_t tag = p.tag.empty() ? id + 1 : p.tag[id];
                base.ents[0].push_back({50, pl, {}});
                base.ents[0][1].phys = {3, 1};
                for (size_t at = 0; at <= base.elems.size(); ++at) {
                  File f = base;
                  f.elems.insert(f.elems.begin() + static_cast<long>(at), Elem{POINT, {tag}, 50, {}});
                  for (int fmt = 0; fmt < 6; ++fmt) numbered(f, fmt);
                  // same block as a point of the mesh
                  for (auto& e : f.elems)
                    if (e.type == POINT) e.ent = 50;
                  for (int fmt = 0; fmt < 6; ++fmt) numbered(f, fmt);
                }
              }
      });
}
long count() {
  if (items.empty()) setup();
  return static_cast<long>(items.size());
}
void item(long k) {
  items[k]();
  mc::sample(mc::current());
  cleanup();
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
