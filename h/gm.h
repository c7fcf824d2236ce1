// Abstract model of a Gmsh file, independent writers for MSH 2.2 and 4.1
// (text, binary little endian, binary big endian) and the reference semantics
// of what a reader must recover.
#pragma once
#include <lf/io/gmsh_reader.h>

#include <fstream>

#include "meshes.h"

namespace gm {
using Eigen::Vector3d;
enum Fmt { V2T, V2L, V2B, V4T, V4L, V4B };
inline const char* fmtName(int f) {
  static const char* n[] = {"2.2 text", "2.2 binary LE", "2.2 binary BE", "4.1 text", "4.1 binary LE", "4.1 binary BE"};
  return n[f];
}
enum Type { EDGE2 = 1, TRIA3 = 2, QUAD4 = 3, EDGE3 = 8, TRIA6 = 9, QUAD9 = 10, POINT = 15, QUAD8 = 16 };
inline int dimOf(int t) { return t == POINT ? 0 : (t == EDGE2 || t == EDGE3) ? 1 : 2; }
inline int nNodes(int t) {
  switch (t) {
    case POINT: return 1;
    case EDGE2: return 2;
    case EDGE3: case TRIA3: return 3;
    case QUAD4: return 4;
    case TRIA6: return 6;
    case QUAD8: return 8;
    case QUAD9: return 9;
  }
  return 0;
}
inline int nCorners(int t) {
  const int d = dimOf(t);
  return d == 0 ? 1 : d == 1 ? 2 : (t == TRIA3 || t == TRIA6) ? 3 : 4;
}
struct Node {
  size_t tag;
  Vector3d x;
};
struct Elem {
  int type;
  std::vector<size_t> n;  // node tags
  int ent;                // tag of the elementary entity
  std::vector<int> parts; // 2.2: partitions
};
struct Ent {
  int tag;
  std::vector<int> phys, bound;
};
struct Name {
  int dim, nr;
  std::string name;
};
struct Per {
  int dim, slave, master;
  bool affine;
  std::vector<std::pair<size_t, size_t>> map;
};
struct PEnt {
  int tag, pdim, ptag;
  std::vector<int> parts, phys, bound;
};
struct Ghost {
  size_t tag;
  int part;
  std::vector<int> ghosts;
};
struct File {
  std::vector<Node> nodes;
  std::vector<int> nblock;  // lengths of the node blocks (4.1); empty: one block
  std::vector<Elem> elems;
  int enumb = 0;            // numbering of the elements: 0 consecutive, 1 with gaps, 2 descending, 3 large numbers
  bool split = false;       // 4.1: every element in its own block
  int group = 0;            // 2.2 binary: 0 one group per element, 1 maximal groups
  std::array<std::vector<Ent>, 4> ents;
  std::vector<Name> names;
  std::vector<Per> per;
  bool hasPer = false;
  size_t nparts = 0;
  std::vector<std::pair<int, int>> ghostEnts;
  std::array<std::vector<PEnt>, 4> pents;
  std::vector<Ghost> ghosts;
  bool hasGhost = false;
  bool comments = false;
  int prec = 16;
  const std::vector<int>& phys(const Elem& e) const {
    static const std::vector<int> none;
    const int d = dimOf(e.type);
    if (nparts > 0) {
      for (auto& x : pents[d])
        if (x.tag == e.ent) return x.phys;
      return none;
    }
    for (auto& x : ents[d])
      if (x.tag == e.ent) return x.phys;
    return none;
  }
};
inline double affine(int k) { return k % 5 == 0 ? 1.0 : 0.25 * (k - 7); }

struct Out {
  std::string s;
  bool bin, big;
  int prec;
  template <class T>
  void raw(T v) {
    char b[sizeof(T)];
    std::memcpy(b, &v, sizeof(T));
    if (big) std::reverse(b, b + sizeof(T));
    s.append(b, sizeof(T));
  }
  void txt(const std::string& t) { s += t; }
  std::string num(double d) const {
    char b[64];
    std::snprintf(b, sizeof b, "%.*g", prec, d);
    return b;
  }
  // tokens separated by blanks in text mode; nl() ends the line in text mode
  bool first = true;
  void sep() {
    if (!first) s += ' ';
    first = false;
  }
  void i(int v) {
    if (bin) return raw<int32_t>(v);
    sep();
    s += std::to_string(v);
  }
  void u(size_t v) {
    if (bin) return raw<uint64_t>(v);
    sep();
    s += std::to_string(v);
  }
  void d(double v) {
    if (bin) return raw<double>(v);
    sep();
    s += num(v);
  }
  void v3(const Vector3d& v) { d(v[0]), d(v[1]), d(v[2]); }
  void ints(const std::vector<int>& v) {
    u(v.size());
    for (int x : v) i(x);
  }
  void nl() {
    if (!bin) s += '\n';
    first = true;
  }
  void end(const char* t) {  // closing tag of a section with binary contents
    if (bin) s += '\n';
    s += t;
    s += '\n';
    first = true;
  }
};

inline std::vector<Vector3d> boxOf(int tag) { return {Vector3d(-tag, 0.5, 0), Vector3d(tag, 2.25 * tag, 1)}; }

inline void writeHeader(Out& o, const char* ver) {
  o.txt(std::string("$MeshFormat\n") + ver + (o.bin ? " 1 8\n" : " 0 8\n"));
  if (o.bin) {
    o.raw<int32_t>(1);
    o.txt("\n");
  }
  o.txt("$EndMeshFormat\n");
}
inline void writeNames(Out& o, const File& f) {
  if (f.comments) o.txt("$Comments\nany text 1 2 3\n\"x\"\n$EndComments\n");
  if (f.names.empty()) return;
  o.txt("$PhysicalNames\n" + std::to_string(f.names.size()) + "\n");
  for (auto& n : f.names) o.txt(std::to_string(n.dim) + " " + std::to_string(n.nr) + " \"" + n.name + "\"\n");
  o.txt("$EndPhysicalNames\n");
}
// number of the i-th of n elements
inline size_t elemNo(const File& f, size_t i, size_t n, bool v4) {
  switch (f.enumb) {
    case 1: return 7 * i + 3;
    case 2: return 2 * (n - i) + 1;
    case 3: return (v4 ? 5000000000ull : 2147000000ull) + (5 * i + 2) % 100003;
    default: return i + 1;
  }
}
struct El2 {
  int number, type, phys, ent;
  std::vector<int> parts;
  std::vector<size_t> n;
};
// element lines of a 2.2 file: one per physical group
inline std::vector<El2> lines2(const File& f) {
  std::vector<El2> r;
  for (auto& e : f.elems) {
    auto ph = f.phys(e);
    if (ph.empty()) ph = {0};
    for (int p : ph) r.push_back({0, e.type, p, e.ent, e.parts, e.n});
  }
  for (size_t i = 0; i < r.size(); ++i) r[i].number = static_cast<int>(elemNo(f, i, r.size(), false));
  return r;
}
inline std::string write2(const File& f, bool bin, bool big) {
  Out o{"", bin, big, f.prec};
  writeHeader(o, "2.2");
  writeNames(o, f);
  o.txt("$Nodes\n" + std::to_string(f.nodes.size()) + "\n");
  o.first = true;
  for (auto& n : f.nodes) o.i(static_cast<int>(n.tag)), o.v3(n.x), o.nl();
  o.end("$EndNodes");
  if (f.comments) o.txt("$Other\nfoo\n$EndOther\n");
  auto l = lines2(f);
  o.txt("$Elements\n" + std::to_string(l.size()) + "\n");
  o.first = true;
  auto tags = [](const El2& e) { return 2 + (e.parts.empty() ? 0 : 1 + static_cast<int>(e.parts.size())); };
  auto body = [&](const El2& e) {
    o.i(e.phys), o.i(e.ent);
    if (!e.parts.empty()) {
      o.i(static_cast<int>(e.parts.size()));
      for (int p : e.parts) o.i(p);
    }
    for (auto k : e.n) o.i(static_cast<int>(k));
  };
  if (!bin) {
    for (auto& e : l) o.i(e.number), o.i(e.type), o.i(tags(e)), body(e), o.nl();
    o.txt("$EndElements\n");
  } else {
    for (size_t i = 0; i < l.size();) {
      size_t j = i + 1;
      if (f.group)
        while (j < l.size() && l[j].type == l[i].type && tags(l[j]) == tags(l[i])) ++j;
      o.i(l[i].type), o.i(static_cast<int>(j - i)), o.i(tags(l[i]));
      for (; i < j; ++i) o.i(l[i].number), body(l[i]);
    }
    o.txt("\n$EndElements\n");
  }
  if (f.hasPer) {
    o.txt("$Periodic\n" + std::to_string(f.per.size()) + "\n");
    for (auto& p : f.per) {
      o.txt(std::to_string(p.dim) + " " + std::to_string(p.slave) + " " + std::to_string(p.master) + "\n" + std::to_string(p.map.size()) + "\n");
      for (auto& m : p.map) o.txt(std::to_string(m.first) + " " + std::to_string(m.second) + "\n");
    }
    o.txt("$EndPeriodic\n");
  }
  return o.s;
}
struct Blk {
  int dim, ent, type;
  std::vector<size_t> el;  // indices into elems
};
inline std::vector<Blk> blocks(const File& f) {
  std::vector<Blk> r;
  for (size_t i = 0; i < f.elems.size(); ++i) {
    auto& e = f.elems[i];
    if (f.split || r.empty() || r.back().ent != e.ent || r.back().type != e.type) r.push_back({dimOf(e.type), e.ent, e.type, {}});
    r.back().el.push_back(i);
  }
  return r;
}
inline std::vector<int> nodeBlocks(const File& f) {
  return f.nblock.empty() ? std::vector<int>{static_cast<int>(f.nodes.size())} : f.nblock;
}
inline std::pair<size_t, size_t> minmaxElem(const File& f) {
  if (f.enumb == 0) return {1, f.elems.size()};
  size_t a = ~size_t(0), b = 0;
  for (size_t i = 0; i < f.elems.size(); ++i) {
    const size_t k = elemNo(f, i, f.elems.size(), true);
    a = std::min(a, k), b = std::max(b, k);
  }
  return {a, b};
}
inline std::pair<size_t, size_t> minmaxTag(const File& f) {
  size_t a = ~size_t(0), b = 0;
  for (auto& n : f.nodes) a = std::min(a, n.tag), b = std::max(b, n.tag);
  return {a, b};
}
inline std::string write4(const File& f, bool bin, bool big) {
  Out o{"", bin, big, f.prec};
  writeHeader(o, "4.1");
  writeNames(o, f);
  o.txt("$Entities\n");
  o.first = true;
  for (auto& v : f.ents) o.u(v.size());
  o.nl();
  for (int d = 0; d < 4; ++d)
    for (auto& e : f.ents[d]) {
      o.i(e.tag);
      auto b = boxOf(e.tag);
      o.v3(b[0]);
      if (d > 0) o.v3(b[1]);
      o.ints(e.phys);
      if (d > 0) o.ints(e.bound);
      o.nl();
    }
  o.end("$EndEntities");
  if (f.nparts > 0) {
    o.txt("$PartitionedEntities\n");
    o.u(f.nparts), o.nl();
    o.u(f.ghostEnts.size()), o.nl();
    for (auto& g : f.ghostEnts) o.i(g.first), o.i(g.second), o.nl();
    for (auto& v : f.pents) o.u(v.size());
    o.nl();
    for (int d = 0; d < 4; ++d)
      for (auto& e : f.pents[d]) {
        o.i(e.tag), o.i(e.pdim), o.i(e.ptag), o.ints(e.parts);
        auto b = boxOf(e.tag);
        o.v3(b[0]);
        if (d > 0) o.v3(b[1]);
        o.ints(e.phys);
        if (d > 0) o.ints(e.bound);
        o.nl();
      }
    o.end("$EndPartitionedEntities");
  }
  o.txt("$Nodes\n");
  auto nb = nodeBlocks(f);
  auto [mn, mx] = minmaxTag(f);
  o.u(nb.size()), o.u(f.nodes.size()), o.u(mn), o.u(mx), o.nl();
  size_t at = 0, bi = 0;
  for (int len : nb) {
    o.i(static_cast<int>(bi % 3)), o.i(static_cast<int>(bi) + 1), o.i(0), o.u(len), o.nl();
    for (int k = 0; k < len; ++k) o.u(f.nodes[at + k].tag), o.nl();
    for (int k = 0; k < len; ++k) o.v3(f.nodes[at + k].x), o.nl();
    at += len;
    ++bi;
  }
  o.end("$EndNodes");
  if (f.comments) o.txt("$Other\nfoo\n$EndOther\n");
  auto bl = blocks(f);
  o.txt("$Elements\n");
  const auto mmE = minmaxElem(f);
  o.u(bl.size()), o.u(f.elems.size()), o.u(mmE.first), o.u(mmE.second), o.nl();
  for (auto& b : bl) {
    o.i(b.dim), o.i(b.ent), o.i(b.type), o.u(b.el.size()), o.nl();
    for (auto i : b.el) {
      o.u(elemNo(f, i, f.elems.size(), true));
      for (auto k : f.elems[i].n) o.u(k);
      if (!bin) o.txt(" ");
      o.nl();
    }
  }
  o.end("$EndElements");
  if (f.hasPer) {
    o.txt("$Periodic\n");
    o.u(f.per.size()), o.nl();
    for (auto& p : f.per) {
      o.i(p.dim), o.i(p.slave), o.i(p.master), o.nl();
      o.u(p.affine ? 16 : 0);
      if (p.affine)
        for (int k = 0; k < 16; ++k) o.d(affine(k));
      o.nl();
      o.u(p.map.size()), o.nl();
      for (auto& m : p.map) o.u(m.first), o.u(m.second), o.nl();
    }
    o.end("$EndPeriodic");
  }
  if (f.hasGhost) {
    o.txt("$GhostElements\n");
    o.u(f.ghosts.size()), o.nl();
    for (auto& g : f.ghosts) o.u(g.tag), o.i(g.part), o.ints(g.ghosts), o.nl();
    o.end("$EndGhostElements");
  }
  return o.s;
}
inline std::string write(const File& f, int fmt) {
  return fmt < 3 ? write2(f, fmt > 0, fmt == V2B) : write4(f, fmt > 3, fmt == V4B);
}
// the file handed to the reader; lives in the working directory of the check
inline std::string path() { return "gm_" + std::to_string(getpid()) + ".msh"; }
inline std::string put(const std::string& content) {
  std::ofstream o(path(), std::ios::binary | std::ios::trunc);
  o.write(content.data(), static_cast<std::streamsize>(content.size()));
  return path();
}
inline void cleanup() { unlink(path().c_str()); }

inline std::string str(const File& f, int fmt) {
  std::ostringstream o;
  o << fmtName(fmt) << " nodes";
  if (f.nodes.size() > 20000) {
    o << " " << f.nodes.size() << " starting with tag " << f.nodes[0].tag << " and " << f.elems.size() << " elements";
    return o.str();
  }
  for (auto& n : f.nodes) o << " " << n.tag << "(" << n.x[0] << "," << n.x[1] << "," << n.x[2] << ")";
  o << " elements";
  for (auto& e : f.elems) {
    o << " " << e.type << "/" << e.ent << "[";
    for (auto k : e.n) o << k << " ";
    o << "]";
    for (int p : f.phys(e)) o << "#" << p;
  }
  if (!f.names.empty()) o << " names";
  for (auto& n : f.names) o << " " << n.dim << ":" << n.nr << ":" << n.name;
  if (!f.nblock.empty()) {
    o << " blocks";
    for (int b : f.nblock) o << " " << b;
  }
  if (f.enumb) o << " element numbers " << f.enumb;
  if (f.split) o << " split";
  if (f.group) o << " grouped";
  return o.str();
}

inline bool near(double a, double b, bool exact) {
  return exact ? a == b : std::abs(a - b) <= 4e-15 * std::max(std::abs(a), std::abs(b));
}
inline bool near(const Vector3d& a, const Vector3d& b, bool exact) { return near(a[0], b[0], exact) && near(a[1], b[1], exact) && near(a[2], b[2], exact); }

// every field of the file is recovered
inline void checkParsed(const File& f, int fmt, const std::variant<lf::io::GMshFileV2, lf::io::GMshFileV4>& v) {
  const bool bin = fmt != V2T && fmt != V4T;
  // 17 significant digits or binary data are recovered up to rounding of the
  // decimal conversion
  auto bad = [&](bool ok, const char* key) { MC_CHECK(ok, key, mc::current()); };
  if (fmt < 3) {
    if (!std::holds_alternative<lf::io::GMshFileV2>(v)) return bad(false, "version");
    auto& m = std::get<lf::io::GMshFileV2>(v);
    bad(m.VersionNumber == "2.2" && m.IsBinary == bin, "header");
    bool ok = m.PhysicalEntities.size() == f.names.size();
    for (size_t i = 0; ok && i < f.names.size(); ++i)
      ok = m.PhysicalEntities[i].Dimension == f.names[i].dim && m.PhysicalEntities[i].Number == f.names[i].nr && m.PhysicalEntities[i].Name == f.names[i].name;
    bad(ok, "v2-names");
    ok = m.Nodes.size() == f.nodes.size();
    for (size_t i = 0; ok && i < f.nodes.size(); ++i) ok = m.Nodes[i].first == f.nodes[i].tag && near(m.Nodes[i].second, f.nodes[i].x, bin);
    bad(ok, "v2-nodes");
    auto l = lines2(f);
    ok = m.Elements.size() == l.size();
    for (size_t i = 0; ok && i < l.size(); ++i) {
      auto& a = m.Elements[i];
      auto& b = l[i];
      ok = static_cast<int>(a.Number) == b.number && static_cast<int>(a.Type) == b.type && a.PhysicalEntityNr == b.phys && a.ElementaryEntityNr == b.ent &&
           std::equal(a.MeshPartitions.begin(), a.MeshPartitions.end(), b.parts.begin(), b.parts.end()) &&
           std::equal(a.NodeNumbers.begin(), a.NodeNumbers.end(), b.n.begin(), b.n.end());
    }
    bad(ok, "v2-elements");
    ok = m.Periodic.size() == f.per.size();
    for (size_t i = 0; ok && i < f.per.size(); ++i) {
      auto& a = m.Periodic[i];
      auto& b = f.per[i];
      ok = a.Dimension == b.dim && a.ElementarySlaveNr == b.slave && a.ElementaryMasterNr == b.master && a.NodeMapping.size() == b.map.size();
      for (size_t k = 0; ok && k < b.map.size(); ++k) ok = a.NodeMapping[k].first == b.map[k].first && a.NodeMapping[k].second == b.map[k].second;
    }
    bad(ok, "v2-periodic");
    return;
  }
  if (!std::holds_alternative<lf::io::GMshFileV4>(v)) return bad(false, "version");
  auto& m = std::get<lf::io::GMshFileV4>(v);
  bad(m.version_number == "4.1" && m.is_binary == bin && m.size_t_size == 8, "header");
  bool ok = m.physical_names.size() == f.names.size();
  for (size_t i = 0; ok && i < f.names.size(); ++i)
    ok = m.physical_names[i].dimension == f.names[i].dim && m.physical_names[i].physical_tag == f.names[i].nr && m.physical_names[i].name == f.names[i].name;
  bad(ok, "v4-names");
  {
    auto& p = std::get<0>(m.entities);
    ok = p.size() == f.ents[0].size();
    for (size_t i = 0; ok && i < p.size(); ++i) ok = p[i].tag == f.ents[0][i].tag && p[i].physical_tags == f.ents[0][i].phys && near(p[i].coord, boxOf(p[i].tag)[0], bin);
    auto cmp = [&](auto& q, auto& w) {
      ok = ok && q.size() == w.size();
      for (size_t i = 0; ok && i < q.size(); ++i)
        ok = q[i].tag == w[i].tag && q[i].physical_tags == w[i].phys && q[i].bounding_entities == w[i].bound && near(q[i].min_coord, boxOf(q[i].tag)[0], bin) && near(q[i].max_coord, boxOf(q[i].tag)[1], bin);
    };
    cmp(std::get<1>(m.entities), f.ents[1]);
    cmp(std::get<2>(m.entities), f.ents[2]);
    cmp(std::get<3>(m.entities), f.ents[3]);
    bad(ok, "v4-entities");
  }
  {
    auto& pe = m.partitioned_entities;
    ok = pe.num_partitions == f.nparts && pe.ghost_entities.size() == f.ghostEnts.size();
    for (size_t i = 0; ok && i < f.ghostEnts.size(); ++i) ok = pe.ghost_entities[i].tag == f.ghostEnts[i].first && pe.ghost_entities[i].partition == f.ghostEnts[i].second;
    auto base = [&](auto& q, const PEnt& w) { return q.tag == w.tag && q.parent_dim == w.pdim && q.parent_tag == w.ptag && q.partitions == w.parts && q.physical_tags == w.phys; };
    auto& p = std::get<0>(pe.partitioned_entities);
    ok = ok && p.size() == f.pents[0].size();
    for (size_t i = 0; ok && i < p.size(); ++i) ok = base(p[i], f.pents[0][i]) && near(p[i].coord, boxOf(p[i].tag)[0], bin);
    auto cmp = [&](auto& q, auto& w) {
      ok = ok && q.size() == w.size();
      for (size_t i = 0; ok && i < q.size(); ++i)
        ok = base(q[i], w[i]) && q[i].bounding_entities == w[i].bound && near(q[i].min_coord, boxOf(q[i].tag)[0], bin) && near(q[i].max_coord, boxOf(q[i].tag)[1], bin);
    };
    cmp(std::get<1>(pe.partitioned_entities), f.pents[1]);
    cmp(std::get<2>(pe.partitioned_entities), f.pents[2]);
    cmp(std::get<3>(pe.partitioned_entities), f.pents[3]);
    bad(ok, "v4-partitioned-entities");
  }
  {
    auto nb = nodeBlocks(f);
    auto [mn, mx] = minmaxTag(f);
    ok = m.nodes.num_nodes == f.nodes.size() && m.nodes.min_node_tag == mn && m.nodes.max_node_tag == mx && m.nodes.node_blocks.size() == nb.size();
    size_t at = 0;
    for (size_t b = 0; ok && b < nb.size(); ++b) {
      auto& q = m.nodes.node_blocks[b];
      ok = q.entity_dim == static_cast<int>(b % 3) && q.entity_tag == static_cast<int>(b) + 1 && !q.parametric && static_cast<int>(q.nodes.size()) == nb[b];
      for (int k = 0; ok && k < nb[b]; ++k) ok = q.nodes[k].first == f.nodes[at + k].tag && near(q.nodes[k].second, f.nodes[at + k].x, bin);
      at += nb[b];
    }
    bad(ok, "v4-nodes");
  }
  {
    auto bl = blocks(f);
    auto& q = m.elements;
    ok = q.num_elements == f.elems.size() && q.min_element_tag == minmaxElem(f).first && q.max_element_tag == minmaxElem(f).second && q.element_blocks.size() == bl.size();
    for (size_t b = 0; ok && b < bl.size(); ++b) {
      auto& x = q.element_blocks[b];
      ok = x.dimension == bl[b].dim && x.entity_tag == bl[b].ent && static_cast<int>(x.element_type) == bl[b].type && x.elements.size() == bl[b].el.size();
      for (size_t k = 0; ok && k < bl[b].el.size(); ++k) {
        auto& w = f.elems[bl[b].el[k]];
        ok = std::get<0>(x.elements[k]) == elemNo(f, bl[b].el[k], f.elems.size(), true) && std::equal(w.n.begin(), w.n.end(), std::get<1>(x.elements[k]).begin(), std::get<1>(x.elements[k]).end());
      }
    }
    bad(ok, "v4-elements");
  }
  ok = m.periodic_links.size() == f.per.size();
  for (size_t i = 0; ok && i < f.per.size(); ++i) {
    auto& a = m.periodic_links[i];
    auto& b = f.per[i];
    ok = a.dimension == b.dim && a.entity_tag_slave == b.slave && a.entity_tag_master == b.master && a.affine_transform.has_value() == b.affine && a.node_mapping.size() == b.map.size();
    for (int r = 0; ok && b.affine && r < 4; ++r)
      for (int c = 0; ok && c < 4; ++c) ok = (*a.affine_transform)(r, c) == affine(4 * r + c);
    for (size_t k = 0; ok && k < b.map.size(); ++k) ok = a.node_mapping[k].first == b.map[k].first && a.node_mapping[k].second == b.map[k].second;
  }
  bad(ok, "v4-periodic");
  ok = m.ghost_elements.size() == f.ghosts.size();
  for (size_t i = 0; ok && i < f.ghosts.size(); ++i)
    ok = m.ghost_elements[i].element_tag == f.ghosts[i].tag && m.ghost_elements[i].partition_tag == f.ghosts[i].part && m.ghost_elements[i].ghost_partition_tags == f.ghosts[i].ghosts;
  bad(ok, "v4-ghosts");
}

// the mesh is the one described by the file; physical groups are those of the
// file if `groups`
inline void checkMesh(const File& f, int fmt, const lf::io::GmshReader& r, int dimw, bool groups) {
  const bool bin = fmt != V2T && fmt != V4T;
  auto mesh = r.mesh();
  std::map<size_t, Vector3d> X;
  for (auto& n : f.nodes) X[n.tag] = n.x;
  std::set<size_t> main;
  for (auto& e : f.elems)
    if (dimOf(e.type) == 2)
      for (int k = 0; k < nCorners(e.type); ++k) main.insert(e.n[k]);
  std::map<size_t, unsigned> idx;  // tag -> index
  for (auto& n : f.nodes)
    if (main.count(n.tag)) {
      const unsigned k = static_cast<unsigned>(idx.size());
      idx[n.tag] = k;
    }
  auto bad = [&](bool ok, const char* key) {
    MC_CHECK(ok, key, mc::current());
    return ok;
  };
  auto coord = [&](size_t t) -> Eigen::VectorXd { return X[t].head(dimw); };
  auto close = [&](const Eigen::VectorXd& a, const Eigen::VectorXd& b) { return a.size() == b.size() && (a - b).norm() <= (1e-13) * (1 + b.norm()); };
  if (!bad(mesh->DimMesh() == 2 && static_cast<int>(mesh->DimWorld()) == dimw && mesh->NumEntities(2) == idx.size(), "mesh-nodes")) return;
  for (auto& [t, k] : idx) {
    auto c = lf::geometry::Corners(*mesh->EntityByIndex(2, k)->Geometry());
    bad(bin ? Eigen::VectorXd(c.col(0)) == coord(t) : close(c.col(0), coord(t)), "mesh-node-position");
  }
  std::array<std::vector<const Elem*>, 3> by;
  for (auto& e : f.elems) by[dimOf(e.type)].push_back(&e);
  std::set<std::pair<unsigned, unsigned>> edges, have;
  if (!bad(mesh->NumEntities(0) == by[2].size(), "mesh-cells")) return;
  auto geometry = [&](const lf::mesh::Entity& e, const Elem& w) {
    const int c = nCorners(w.type);
    auto ref = e.RefEl();
    const Eigen::MatrixXd rn = ref.NodeCoords();
    bool ok = true;
    for (int k = 0; k < c; ++k) ok = ok && close(e.Geometry()->Global(rn.col(k)), coord(w.n[k]));
    // mid-points of the edges
    const int ne = c == 2 ? 1 : c;
    for (int k = 0; k < ne; ++k) {
      const Eigen::VectorXd m = 0.5 * (rn.col(k) + rn.col((k + 1) % c));
      const Eigen::VectorXd want = nNodes(w.type) > c ? Eigen::VectorXd(coord(w.n[c + k])) : Eigen::VectorXd(0.5 * (coord(w.n[k]) + coord(w.n[(k + 1) % c])));
      ok = ok && close(e.Geometry()->Global(m), want);
    }
    return ok;
  };
  for (size_t i = 0; i < by[2].size(); ++i) {
    auto& w = *by[2][i];
    auto* e = mesh->EntityByIndex(0, static_cast<unsigned>(i));
    const int c = nCorners(w.type);
    bool ok = e->RefEl() == (c == 3 ? lf::base::RefEl::kTria() : lf::base::RefEl::kQuad());
    auto sub = e->SubEntities(2);
    for (int k = 0; ok && k < c; ++k) ok = mesh->Index(*sub[k]) == idx[w.n[k]];
    bad(ok, "cell-corners");
    if (ok) bad(geometry(*e, w), "cell-geometry");
    for (int k = 0; k < c; ++k) {
      unsigned a = idx[w.n[k]], b = idx[w.n[(k + 1) % c]];
      edges.insert({std::min(a, b), std::max(a, b)});
    }
  }
  bad(mesh->NumEntities(1) == edges.size(), "mesh-edges");
  for (auto* e : mesh->Entities(1)) {
    auto s = e->SubEntities(1);
    unsigned a = mesh->Index(*s[0]), b = mesh->Index(*s[1]);
    have.insert({std::min(a, b), std::max(a, b)});
  }
  bad(have == edges, "mesh-edge-set");
  for (size_t i = 0; i < by[1].size(); ++i) {
    auto& w = *by[1][i];
    auto* e = mesh->EntityByIndex(1, static_cast<unsigned>(i));
    auto s = e->SubEntities(1);
    const bool ok = mesh->Index(*s[0]) == idx[w.n[0]] && mesh->Index(*s[1]) == idx[w.n[1]];
    bad(ok, "edge-nodes");
    if (ok) bad(geometry(*e, w), "edge-geometry");
  }
  if (!groups) return;
  // physical groups: the set of groups of every mesh entity
  std::array<std::map<unsigned, std::set<unsigned>>, 3> want;
  std::array<std::set<unsigned>, 3> declared;
  for (int d = 0; d < 3; ++d)
    for (size_t i = 0; i < by[d].size(); ++i) {
      auto& w = *by[d][i];
      if (d == 0 && !idx.count(w.n[0])) continue;
      const unsigned k = d == 0 ? idx[w.n[0]] : static_cast<unsigned>(i);
      declared[d].insert(k);
      for (int p : f.phys(w)) want[d][k].insert(p);
    }
  for (unsigned c = 0; c < 3; ++c)
    for (auto* e : mesh->Entities(c)) {
      const unsigned k = mesh->Index(*e);
      auto got = r.PhysicalEntityNr(*e);
      std::vector<unsigned> w(want[2 - c][k].begin(), want[2 - c][k].end());
      // an element without a group is written with group 0 in version 2.2
      const bool zero = fmt < 3 && w.empty() && declared[2 - c].count(k) && got.size() == 1 && got[0] == 0;
      MC_CHECK(zero || std::equal(got.begin(), got.end(), w.begin(), w.end()), "groups-of-entity", mc::current() << " codim " << c << " entity " << k << " got " << [&] { std::string s; for (auto g : got) s += std::to_string(g) + " "; return s; }());
      for (unsigned q : {1u, 2u, 3u, 4u, 5u, 7u, 12u}) bad(r.IsPhysicalEntity(*e, q) == (want[2 - c][k].count(q) > 0), "is-physical-entity");
      mc::transitions();
    }
}
}  // namespace gm
