// I01: reading Gmsh files.  Every file of a bounded family (abstract file
// models x 6 encodings) is written by an independent writer and read back by
// the real reader; every field and the resulting mesh are compared.
#include "gmlay.h"
using namespace gm;
namespace {
std::vector<std::function<void()>> items;
std::vector<std::vector<size_t>> tagMaps(int n, int lim) {
  std::vector<std::vector<size_t>> r;
  if (n <= lim) {
    for (auto& p : allPerms(n)) {
      std::vector<size_t> t;
      for (int k : p) t.push_back(k + 1);
      r.push_back(t);
    }
  } else {
    std::vector<size_t> a, b;
    for (int k = 0; k < n; ++k) a.push_back(k + 1), b.push_back(n - k);
    r = {a, b};
  }
  std::vector<size_t> g, h, big;
  for (int k = 0; k < n; ++k) g.push_back(3 * k + 5), h.push_back((7 * k + 3) % 101 + 1), big.push_back(70000 - 11 * k);
  r.push_back(g), r.push_back(h), r.push_back(big);
  return r;
}
void setup() {
  const int L = static_cast<int>(layouts().size());
  // S1 node tags and file order of the nodes
  for (int lay = 0; lay < L; ++lay)
    for (int ord : {1, 8, 9})
      for (int fmt = 0; fmt < 6; ++fmt)
        items.push_back([=] {
          Par p;
          p.lay = lay, p.order = ord;
          const int n = numIds(p);
          auto no = somePerms(n, mc::thorough ? 7 : n <= 4 ? 4 : ord == 8 && fmt < 4 ? 6 : 5);
          auto tm = tagMaps(n, 4);
          if (fmt >= 3)  // 64 bit tags
            for (size_t b : {2147483646ull, 4294967294ull, 5000000000ull, 1ull << 62}) {
              tm.push_back({});
              for (int k = 0; k < n; ++k) tm.back().push_back(b + (5 * k + 2) % 211);
            }
          for (auto& o : no)
            for (size_t t = 0; t < tm.size(); ++t) {
              p.norder = o, p.tag = tm[t];
              File f = make(p);
              f.enumb = t % 4;
              exec(f, fmt, 2, false, false);
            }
        });
  // S2 declared edges and points
  for (int lay = 0; lay < L; ++lay)
    for (int ord : {1, 8, 9})
      items.push_back([=] {
        Par p;
        p.lay = lay, p.order = ord;
        const int E = static_cast<int>(edgesOf(layouts()[lay]).size()), N = static_cast<int>(layouts()[lay].p.size());
        std::vector<std::vector<int>> sel;
        long tot = 1;
        for (int k = 0; k < E; ++k) tot *= 3;
        for (long c = 0; c < tot; ++c) {
          std::vector<int> s(E);
          long y = c;
          int used = 0;
          for (auto& v : s) v = y % 3, y /= 3, used += v != 0;
          if (E > 5 && used > 2 && used < E - (mc::thorough ? 1 : 0)) continue;
          sel.push_back(s);
        }
        size_t q = 0;
        for (auto& s : sel) {
          p.edgesel = s;
          // two encodings per selection, rotating; all of them in the thorough tier
          for (int fmt = 0; fmt < 6; ++fmt) {
            if (!mc::thorough && sel.size() > 60 && fmt % 3 != static_cast<int>(q % 3)) continue;
            p.ptsel = static_cast<unsigned>(q) % (1u << N);
            exec(make(p), fmt, 2, q % 7 == 0, false);
          }
          ++q;
        }
        p.edgesel.clear();
        for (unsigned m = 0; m < (1u << N); ++m)
          for (int fmt = 0; fmt < 6; ++fmt) {
            p.ptsel = m;
            exec(make(p), fmt, 2, false, true);
          }
      });
  // S3 corner numberings of the cells
  for (int lay = 0; lay < L; ++lay)
    for (int ord : {1, 8, 9})
      items.push_back([=] {
        auto& l = layouts()[lay];
        Par p;
        p.lay = lay, p.order = ord;
        const int E = static_cast<int>(edgesOf(l).size());
        std::vector<std::vector<std::vector<int>>> alt;
        for (auto& c : l.cells) alt.push_back(dihedral(c));
        std::vector<size_t> ix(l.cells.size(), 0);
        long cnt = 0;
        while (true) {
          int moved = 0;
          for (auto k : ix) moved += k != 0;
          if (l.cells.size() <= 2 || moved <= 2) {
            p.cells.clear();
            for (size_t i = 0; i < ix.size(); ++i) p.cells.push_back(alt[i][ix[i]]);
            for (int es = 0; es < 3; ++es) {
              p.edgesel.assign(E, es);
              if (es == 0) p.edgesel.clear();
              for (int fmt = 0; fmt < 6; ++fmt)
                if (mc::thorough || l.cells.size() < 3 || fmt == static_cast<int>(cnt % 6)) exec(make(p), fmt, 2, false, false);
            }
            ++cnt;
          }
          size_t d = 0;
          while (d < ix.size() && ++ix[d] == alt[d].size()) ix[d++] = 0;
          if (d == ix.size()) break;
        }
      });
  // S4 order of the elements, blocks and groups
  for (int lay = 0; lay < L; ++lay)
    for (int ord : {1, 9})
      items.push_back([=] {
        auto& l = layouts()[lay];
        Par p;
        p.lay = lay, p.order = ord;
        const int E = static_cast<int>(edgesOf(l).size());
        p.edgesel.assign(E, 0);
        p.edgesel[0] = 1;
        if (E > 2) p.edgesel[2] = 2;
        p.ptsel = 2 | (l.cells.size() < 3 ? 1 : 0);
        const int ne = static_cast<int>(l.cells.size()) + (E > 2 ? 2 : 1) + (l.cells.size() < 3 ? 2 : 1);
        for (auto& o : somePerms(ne, 6)) {
          p.elorder = o;
          for (int k = 0; k < 2; ++k) {
            File f = make(p);
            if (k) {
              f.split = true, f.group = 1;
              for (auto& e : f.elems) e.ent = 1;
            }
            for (int fmt = 0; fmt < 6; ++fmt) exec(f, fmt, 2, mc::thorough || ne < 6, true);
          }
        }
      });
  // S5 world dimension, coordinates, isolated nodes, node blocks
  for (int lay = 0; lay < L; ++lay)
    for (int ord : {1, 8, 9})
      items.push_back([=] {
        for (int dimw : {2, 3})
          for (int sc = 0; sc < 4; ++sc)
            for (int prec : {16, 17})
              for (int iso = 0; iso <= 4; ++iso) {
                Par p;
                p.lay = lay, p.order = ord, p.dimw = dimw, p.scale = sc, p.prec = prec, p.iso = iso;
                const int n = numIds(p);
                for (int pos = 0; pos < 3; ++pos) {  // isolated nodes last, first, in between; their tags likewise
                  if (pos > 0 && iso == 0) break;
                  p.norder.clear(), p.tag.clear();
                  for (int k = 0; k < n; ++k) {
                    p.norder.push_back(pos == 0 ? k : pos == 1 ? (k + n - iso) % n : (k * 2 < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1));
                    p.tag.push_back(pos == 0 ? k + 1 : pos == 1 ? (k + iso) % n + 1 : n - k);
                  }
                  File f = make(p);
                  if (prec == 16)
                    for (auto& nd : f.nodes)
                      for (int c = 0; c < 3; ++c) nd.x[c] = std::strtod([&] { char b[64]; std::snprintf(b, 64, "%.16g", nd.x[c]); return std::string(b); }().c_str(), nullptr);
                  for (int nb = 0; nb < 4; ++nb) {
                    f.nblock.clear();
                    if (nb == 1) f.nblock.assign(n, 1);
                    if (nb == 2) f.nblock = {1, 0, n - 1};
                    if (nb == 3) f.nblock = {n - 2, 2};
                    for (int fmt = nb ? 3 : 0; fmt < 6; ++fmt) exec(f, fmt, dimw, true, false);
                  }
                }
              }
      });
  // S6 optional sections
  for (int fmt = 0; fmt < 6; ++fmt)
    for (int lay : {0, 1, 3})
      items.push_back([=] {
        Par p;
        p.lay = lay;
        p.edgesel = {1, 2};
        p.ptsel = 1;
        const std::vector<std::string> nm = {"a", "long name with blanks", "x_1.$%&/()=?;:#", "0"};
        for (int names = 0; names <= 4; ++names)
          for (int cm = 0; cm < 2; ++cm)
            for (int per = -1; per <= 2; ++per)
              for (int part = 0; part < 4; ++part)
                for (int gh = -1; gh <= 2; ++gh) {
                  if (fmt < 3 && gh >= 0) continue;
                  File f = make(p);
                  for (int k = 0; k < names; ++k) f.names.push_back({k % 3, 10 + k, nm[k]});
                  f.comments = cm;
                  f.hasPer = per >= 0;
                  for (int k = 0; k < per; ++k) f.per.push_back({k, 2 + k, 1 + 5 * k, k == 0, {{2, 1}, {3, 5 + size_t(k)}}});
                  if (per == 2) f.per[1].map.clear();
                  if (fmt < 3) {
                    int q = 0;
                    for (auto& e : f.elems) {
                      if (part == 1) e.parts = {2};
                      if (part == 2) e.parts = {1, 7, 3};
                      if (part == 3 && q++ % 2) e.parts = {4, 2};
                    }
                  } else if (part) {
                    f.nparts = 1 + part;
                    for (int k = 1; k < part; ++k) f.ghostEnts.push_back({20 + k, k});
                    for (int d = 0; d < 4; ++d)
                      for (auto& e : f.ents[d]) f.pents[d].push_back({e.tag, d, e.tag + 3, part == 2 ? std::vector<int>{1, 2} : std::vector<int>{part}, {e.tag, 9}, e.bound});
                  }
                  f.hasGhost = gh >= 0;
                  for (int k = 0; k < gh; ++k) f.ghosts.push_back({size_t(k) + 1, k + 1, k ? std::vector<int>{2, 3} : std::vector<int>{}});
                  if (part == 3 && fmt >= 3) f.ents[3].push_back({4, {1, 2}, {1}}), f.ents[3].push_back({2, {}, {1, 2, 3}});
                  for (int g = 0; g < 2; ++g) {
                    f.group = g, f.split = g;
                    exec(f, fmt, 2, true, fmt >= 3 || part == 0);
                  }
                }
      });
  // S7 counts of entities and lengths of their lists
  items.push_back([=] {
    for (int c = 0; c < 3 * 3 * 3 * 3 * 9; ++c) {
      Par p;
      p.lay = 0;
      p.ptsel = 0;
      File f = make(p);
      int y = c;
      const int k0 = y % 3, k1 = (y /= 3) % 3, k2 = (y /= 3) % 3, k3 = (y /= 3) % 3, len = (y /= 3) % 9;
      const int cnt[4] = {k0, k1, k2 + 1, k3};
      for (int d = 0; d < 4; ++d) {
        f.ents[d].clear();
        for (int i = 0; i < cnt[d]; ++i) {
          Ent e{cnt[d] - i, {}, {}};
          for (int k = 0; k < (len + i) % 3; ++k) e.phys.push_back(7 - 2 * k);
          if (d > 0)
            for (int k = 0; k < (len / 3 + d + i) % 3; ++k) e.bound.push_back(k % 2 ? -k - 1 : k + 1);
          f.ents[d].push_back(e);
        }
      }
      for (int fmt = 3; fmt < 6; ++fmt) exec(f, fmt, 2, true, false);
    }
  });
  // S9 huge files in every encoding
  for (int fmt = 0; fmt < 6; ++fmt)
    items.push_back([=] {
      Par p;
      p.lay = kHuge;
      p.ptsel = fmt % 2 ? 0x10u : 0;
      const int n = numIds(p);
      for (int k = 0; k < n; ++k) p.tag.push_back(fmt % 2 ? k + 1 : n + 70000 - k);
      if (fmt < 3) {
        p.edgesel.assign(edgesOf(layout(kHuge)).size(), 0);
        for (size_t e = 0; e < p.edgesel.size(); e += 2) p.edgesel[e] = 1 + e % 3 % 2;
      }
      File f = make(p);
      for (auto& e : f.elems) e.ent = 1;
      for (auto& e : f.ents) e.resize(std::min<size_t>(e.size(), 2));
      f.split = fmt % 3 == 1;
      f.group = fmt % 2;
      exec(f, fmt, 2, true, false);
    });
  // S8 large files
  for (int lay = 100; lay < 100 + (int)bigLayouts().size(); ++lay)
    for (int ord : {1, 8, 9})
      items.push_back([=] {
        auto& l = layout(lay);
        const int E = static_cast<int>(edgesOf(l).size());
        for (int v = 0; v < 4; ++v) {
          Par p;
          p.lay = lay, p.order = ord;
          p.ptsel = v == 0 ? 0 : v == 1 ? ~0u : 0x80010203u;
          if (v) p.edgesel.assign(E, 0);
          for (int e = 0; v && e < E; ++e) p.edgesel[e] = (e * v + e / 3) % 3;
          const int n = numIds(p);
          if (v)
            for (int k = 0; k < n; ++k) {
              p.norder.push_back(v == 1 ? n - 1 - k : k);
              p.tag.push_back(v == 2 ? 3 * (n - k) + 7 : v == 3 ? 1000003u + 17u * k : k + 1);
            }
          p.scale = v % 2 ? 1 : 0;
          File f = make(p);
          if (v > 1) {
            f.split = v == 2;
            f.nblock = {n / 3, n - n / 3};
          }
          f.group = v % 2;
          f.enumb = v;
          if (v % 2)  // few entities with many elements
            for (auto& e : f.elems) e.ent = 1;
          for (int fmt = 0; fmt < 6; ++fmt)
            if (mc::thorough || (fmt + v) % 2 == 0) exec(f, fmt, 2, true, n < 1500);
        }
      });
}
long count() {
  if (items.empty()) setup();
  return static_cast<long>(items.size());
}
void item(long k) {
  items[k]();
  mc::sample(mc::current());
  cleanup();
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
