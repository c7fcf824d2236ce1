// B02: reference element queries, element type tables, diagnostic output, log formatter.
#include <lf/base/base.h>
#include <lf/geometry/print_info.h>
#include <lf/io/io.h>
#include <lf/refinement/refinement.h>
#include <lf/refinement/refutils.h>
#include <spdlog/pattern_formatter.h>

#include <cctype>

#include "fe.h"
using namespace fh;
namespace {
namespace as = lf::assemble;
namespace io = lf::io;
const RefEl kinds[] = {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
// --- reference elements: vertices of the unit cell, edges join consecutive vertices
std::vector<std::vector<double>> refPoints(RefEl r) {
  if (r == RefEl::kPoint()) return {{}};
  if (r == RefEl::kSegment()) return {{0}, {1}};
  if (r == RefEl::kTria()) return {{0, 0}, {1, 0}, {0, 1}};
  return {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
}
unsigned dimOf(RefEl r) { return r == RefEl::kPoint() ? 0 : r == RefEl::kSegment() ? 1 : 2; }
// nodes of sub-entity (codim, i)
std::vector<unsigned> nodesOf(RefEl r, unsigned codim, unsigned i) {
  const unsigned n = refPoints(r).size();
  if (codim == 0) {
    std::vector<unsigned> v(n);
    std::iota(v.begin(), v.end(), 0);
    return v;
  }
  if (codim == dimOf(r)) return {i};
  return {i, (i + 1) % n};
}
template <lf::base::RefElType T>
void staticCoords(RefEl r) {
  const auto& v = RefEl::NodeCoords<T>();
  const auto w = refPoints(r);
  MC_CHECK(v.size() == w.size(), "static-coords", r.ToString());
  for (size_t i = 0; i < std::min(v.size(), w.size()); ++i)
    for (size_t k = 0; k < w[i].size(); ++k) MC_CHECK(v[i][k] == w[i][k], "static-coords", r.ToString());
}
void refels() {
  std::set<unsigned> ids;
  std::set<std::string> names;
  for (RefEl r : kinds) {
    const std::string t = r.ToString();
    mc::current("reference element " + t);
    const auto w = refPoints(r);
    const unsigned d = dimOf(r), n = w.size();
    if (mc::outcome(t)) mc::states();
    ids.insert(r.Id());
    names.insert(t);
    std::ostringstream o;
    o << r;
    MC_CHECK(o.str() == t, "name", t);
    MC_CHECK(RefEl(static_cast<lf::base::RefElType>(r)) == r && static_cast<unsigned>(static_cast<lf::base::RefElType>(r)) == r.Id(), "type", t);
    MC_CHECK(r.Dimension() == d && r.NumNodes() == n, "dimension", t);
    MC_CHECK(r.NodeCoords().rows() == d && r.NodeCoords().cols() == n, "coords-size", t);
    for (unsigned i = 0; i < n; ++i)
      for (unsigned k = 0; k < d; ++k) MC_CHECK(r.NodeCoords()(k, i) == w[i][k], "coords", t);
    for (RefEl q : kinds) {
      MC_CHECK((q == r) == (q.ToString() == t) && (q != r) == (q.ToString() != t), "eq", t);
      RefEl x = r;
      x = q;
      MC_CHECK(x == q && x.Id() == q.Id(), "assign", t);
    }
    for (unsigned c = 0; c <= d; ++c) {
      const unsigned ns = c == 0 ? 1 : n;
      MC_CHECK(r.NumSubEntities(c) == ns, "num-sub", t << " codim " << c);
      for (unsigned i = 0; i < ns; ++i) {
        const RefEl st = r.SubType(c, i);
        MC_CHECK(st == (c == 0 ? r : d - c == 0 ? RefEl::kPoint() : RefEl::kSegment()), "sub-type", t << " codim " << c);
        const auto sn = nodesOf(r, c, i);
        MC_CHECK(st.NumNodes() == sn.size(), "sub-nodes", t);
        for (unsigned rc = 0; c + rc <= d; ++rc)
          for (unsigned j = 0; j < st.NumSubEntities(rc); ++j) {
            mc::transitions();
            const unsigned k = r.SubSubEntity2SubEntity(c, i, rc, j);
            MC_CHECK(k < r.NumSubEntities(c + rc), "sub-sub-range", t << " " << c << " " << i << " " << rc << " " << j);
            std::vector<unsigned> a;
            for (unsigned q : nodesOf(st, rc, j)) a.push_back(sn[q]);
            auto b = nodesOf(r, c + rc, k);
            MC_CHECK(a == b, "sub-sub", t << " sub-entity " << c << "," << i << " relative " << rc << "," << j << " got " << k);
          }
      }
    }
  }
  MC_CHECK(ids.size() == 4 && names.size() == 4, "distinct", "");
  staticCoords<lf::base::RefElType::kPoint>(RefEl::kPoint());
  staticCoords<lf::base::RefElType::kSegment>(RefEl::kSegment());
  staticCoords<lf::base::RefElType::kTria>(RefEl::kTria());
  staticCoords<lf::base::RefElType::kQuad>(RefEl::kQuad());
  MC_CHECK(lf::mesh::to_char(lf::mesh::Orientation::positive) == '+' && lf::mesh::to_char(lf::mesh::Orientation::negative) == '-', "orientation", "");
  MC_CHECK(lf::mesh::to_sign(lf::mesh::Orientation::positive) == 1 && lf::mesh::to_sign(lf::mesh::Orientation::negative) == -1, "orientation", "");
}
// --- conversions that keep the value
template <class T, class F>
void narrowAll(const char* n, long lo, long hi) {
  mc::current(std::string("narrow ") + n);
  if (mc::outcome(n)) mc::states();
  for (long v = lo; v <= hi; ++v) {
    if (v < (long)std::numeric_limits<T>::min() || v > (long)std::numeric_limits<T>::max() || v < (long)std::numeric_limits<F>::min() || v > (long)std::numeric_limits<F>::max()) continue;
    mc::transitions();
    MC_CHECK((long)lf::base::narrow<T>((F)v) == v, "narrow", n << " " << v);
  }
}
// --- element types of Gmsh
struct ET {
  int id;
  const char* name;
  int nodes, dim;
};
const std::vector<ET> ets{{1, "EDGE2", 2, 1}, {2, "TRIA3", 3, 2}, {3, "QUAD4", 4, 2}, {4, "TET4", 4, 3}, {5, "HEX8", 8, 3}, {6, "PRISM6", 6, 3}, {7, "PYRAMID5", 5, 3}, {8, "EDGE3", 3, 1},
                          {9, "TRIA6", 6, 2}, {10, "QUAD9", 9, 2}, {11, "TET10", 10, 3}, {12, "HEX27", 27, 3}, {13, "PRISM18", 18, 3}, {14, "PYRAMID14", 14, 3}, {15, "POINT", 1, 0}, {16, "QUAD8", 8, 2},
                          {17, "HEX20", 20, 3}, {18, "PRISM15", 15, 3}, {19, "PYRAMID13", 13, 3}, {20, "TRIA9", 9, 2}, {21, "TRIA10", 10, 2}, {22, "TRIA12", 12, 2}, {23, "TRIA15", 15, 2}, {24, "TRIA15_5", 15, 2},
                          {25, "TRIA21", 21, 2}, {26, "EDGE4", 4, 1}, {27, "EDGE5", 5, 1}, {28, "EDGE6", 6, 1}, {29, "TET20", 20, 3}, {30, "TET35", 35, 3}, {31, "TET56", 56, 3}, {92, "HEX64", 64, 3},
                          {93, "HEX125", 125, 3}};
template <class E>
void elementTypes(const char* v) {
  for (auto& t : ets) {
    const std::string tag = std::string(v) + " element type " + t.name;
    mc::current(tag);
    mc::transitions();
    if (mc::outcome(tag)) mc::states();
    const E e = static_cast<E>(t.id);
    std::ostringstream o;
    o << e;
    MC_CHECK(o.str() == t.name, "element-name", tag << " got " << o.str());
    MC_CHECK((int)NumNodes(e) == t.nodes, "element-nodes", tag << " got " << NumNodes(e));
    MC_CHECK(DimOf(e) == t.dim, "element-dim", tag << " got " << DimOf(e));
    if (t.dim < 3) MC_CHECK(RefElOf(e) == (t.dim == 0 ? RefEl::kPoint() : t.dim == 1 ? RefEl::kSegment() : t.name[0] == 'T' ? RefEl::kTria() : RefEl::kQuad()), "element-refel", tag);
  }
}
// --- output
std::vector<double> numbers(const std::string& s) {  // all numbers that are not part of a word
  std::vector<double> r;
  for (size_t i = 0; i < s.size();) {
    const bool sign = (s[i] == '-' || s[i] == '+') && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]);
    if (isdigit((unsigned char)s[i]) || sign) {
      size_t e = i;
      const double v = std::stod(s.substr(i, 30), &e);
      r.push_back(v);
      i += e;
      while (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == '_')) ++i;
    } else if (isalpha((unsigned char)s[i]) || s[i] == '_') {
      while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i;
    } else ++i;
  }
  return r;
}
std::string show(const std::vector<double>& v) {
  std::ostringstream o;
  for (double d : v) o << d << " ";
  return o.str();
}
// runs the output function on a private stream; std::cout must stay silent and the format flags unchanged
template <class F>
std::string out(const std::string& tag, F f) {
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  mc::transitions();
  std::ostringstream o, c;
  const auto fl = o.flags();
  const auto pr = o.precision();
  auto* old = std::cout.rdbuf(c.rdbuf());
  f(o);
  std::cout.rdbuf(old);
  MC_CHECK(c.str().empty(), "stdout", tag << " wrote to standard output: " << c.str());
  MC_CHECK(o.flags() == fl && o.precision() == pr && o.good(), "stream-state", tag);
  return o.str();
}
bool has(const std::string& s, const std::string& w) { return s.find(w) != std::string::npos; }
bool within(const std::vector<double>& v, const std::vector<double>& sub) {  // contiguous
  return sub.empty() || std::search(v.begin(), v.end(), sub.begin(), sub.end(), [](double a, double b) { return std::abs(a - b) <= 1e-4 * (1 + std::abs(b)); }) != v.end();
}
size_t count(const std::string& s, const std::string& w) {
  size_t n = 0;
  for (size_t i = s.find(w); i != std::string::npos; i = s.find(w, i + w.size())) ++n;
  return n;
}
void append(std::vector<double>& v, const Mat& m) {
  for (long i = 0; i < m.rows(); ++i)
    for (long j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
}
void refelOutput() {
  for (RefEl r : kinds) {
    std::string prev;
    for (int l = 0; l <= 100; ++l) {
      const std::string tag = "PrintInfo of reference element " + r.ToString() + " level " + std::to_string(l);
      const std::string s = out(tag, [&](std::ostream& o) { lf::base::PrintInfo(o, r, l); });
      const auto v = numbers(s);
      MC_CHECK(has(s, r.ToString()), "refel-name", tag);
      MC_CHECK(v.size() >= 2 && v[0] == dimOf(r) && v[1] == r.NumNodes(), "refel-numbers", tag << " got " << s);
      for (unsigned c = 1; c <= dimOf(r); ++c)
        if (l > 0) MC_CHECK(within(v, {(double)c, (double)r.NumSubEntities(c)}), "refel-sub", tag << " got " << s);
      if (l > 20)
        for (auto& p : refPoints(r)) MC_CHECK(within(v, p), "refel-coords", tag << " got " << s);
      MC_CHECK(s.size() >= prev.size(), "level-grows", tag);
      prev = s;
    }
  }
}
void objectOutput(const Spec& sp) {
  std::shared_ptr<lf::mesh::Mesh> m0 = buildMesh(sp);
  std::shared_ptr<const Mesh> m = m0;
  const std::string t0 = sp.str() + " ";
  // geometries and entities
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const auto& g = *e->Geometry();
      const Mat X = g.Global(e->RefEl().NodeCoords());
      std::vector<double> co;
      append(co, X);
      MC_CHECK(out(t0 + "geometry", [&](std::ostream& o) { o << g; }) == e->RefEl().ToString(), "geometry-name", t0);
      MC_CHECK(out(t0 + "entity", [&](std::ostream& o) { o << *e; }) == e->RefEl().ToString(), "entity-name", t0);
      std::string pg, pe;
      for (int l = 0; l <= 100; l += 1) {
        const std::string tag = t0 + "codim " + std::to_string(cd) + " entity " + std::to_string(m->Index(*e)) + " level " + std::to_string(l);
        const std::string s = out(tag + " geometry", [&](std::ostream& o) { lf::geometry::PrintInfo(o, g, l); });
        MC_CHECK(has(s, e->RefEl().ToString()), "geometry-info", tag);
        auto v = numbers(s);
        if (l > 10) MC_CHECK(within(v, {(double)m->DimWorld(), 2. - cd}), "geometry-dims", tag << " got " << s);
        if (l > 90) MC_CHECK(within(v, co), "geometry-coords", tag << " got " << s << " want " << show(co));
        MC_CHECK(s.size() >= pg.size(), "level-grows", tag);
        pg = s;
        const std::string q = out(tag + " entity", [&](std::ostream& o) { lf::mesh::utils::PrintInfo(o, *e, l); });
        MC_CHECK(has(q, e->RefEl().ToString()), "entity-info", tag);
        v = numbers(q);
        if (l > 10)
          for (unsigned c = 1; c <= 2 - cd; ++c) MC_CHECK(within(v, {(double)c, (double)e->RefEl().NumSubEntities(c)}), "entity-sub", tag << " got " << q);
        if (l > 90)
          for (unsigned k = 0; k < X.cols(); ++k) {
            std::vector<double> c;
            append(c, X.col(k));
            MC_CHECK(within(v, c), "entity-coords", tag << " got " << q);
          }
        MC_CHECK(q.size() >= pe.size(), "level-grows", tag);
        pe = q;
      }
    }
  // mesh: the sequence of all numbers printed
  for (int l : {0, 1, 10, 11, 50, 51, 90, 91, 100}) {
    const std::string tag = t0 + "mesh level " + std::to_string(l);
    const std::string s = out(tag, [&](std::ostream& o) { lf::mesh::utils::PrintInfo(o, *m, l); });
    std::vector<double> w{(double)m->DimMesh(), (double)m->DimWorld()};
    if (l > 10)
      for (int cd = 2; cd >= 0; --cd) {
        w.push_back(cd);
        w.push_back(m->NumEntities(cd));
        for (const Entity* e : m->Entities(cd)) {
          w.push_back(m->Index(*e));
          if (l > 90)
            for (int c = 1; c <= 2 - cd; ++c) {
              w.push_back(c);
              for (const Entity* q : e->SubEntities(c)) w.push_back(m->Index(*q));
            }
          if (l > 50) append(w, e->Geometry()->Global(e->RefEl().NodeCoords()));
        }
      }
    // "codim-1" contains the number after a hyphen: compare without signs of words
    auto v = numbers(s);
    bool ok = v.size() == w.size();
    for (size_t i = 0; ok && i < v.size(); ++i) ok = std::abs(v[i] - w[i]) < 1e-4 * (1 + std::abs(w[i])) || std::abs(std::abs(v[i]) - w[i]) < 1e-12;
    MC_CHECK(ok, "mesh-numbers", tag << " got " << show(v) << " want " << show(w) << " from\n" << s);
    if (l == 11) MC_CHECK(out(tag, [&](std::ostream& o) { lf::mesh::utils::PrintInfo(o, *m); }) == s, "mesh-default", tag);
  }
  // dof handlers
  using DM = as::UniformFEDofHandler::dof_map_t;
  for (unsigned lay = 0; lay < 16; ++lay) {
    DM dm{{RefEl::kPoint(), lay & 1}, {RefEl::kSegment(), (lay >> 1 & 1) * 2}, {RefEl::kTria(), lay >> 2 & 1}, {RefEl::kQuad(), (lay >> 3 & 1) * 3}};
    as::UniformFEDofHandler u(m, dm);
    as::DynamicFEDofHandler d(m, [&](const Entity& e) -> lf::base::size_type { return dm[e.RefEl()]; });
    for (int dyn = 0; dyn < 2; ++dyn) {
      const as::DofHandler& dh = dyn ? (const as::DofHandler&)d : u;
      for (unsigned c = 0; c <= 30; ++c) {
        const std::string tag = t0 + "dofs " + std::to_string(lay) + (dyn ? " dynamic" : " uniform") + " ctrl " + std::to_string(c);
        const std::string s = out(tag, [&](std::ostream& o) { as::PrintInfo(o, dh, c); });
        std::vector<double> w{(double)dh.NumDofs()};
        if (c > 0 && c % 2 == 0)
          for (unsigned cd = 0; cd <= 2; ++cd)
            for (const Entity* e : m->Entities(cd)) {
              w.push_back(m->Index(*e));
              w.push_back(dh.NumLocalDofs(*e));
              for (auto k : dh.GlobalDofIndices(*e)) w.push_back(k);
              if (c % 10 == 0)
                for (auto k : dh.InteriorGlobalDofIndices(*e)) w.push_back(k);
            }
        if (c > 0 && c % 3 == 0)
          for (unsigned k = 0; k < dh.NumDofs(); ++k) w.push_back(k), w.push_back(m->Index(dh.Entity(k)));
        MC_CHECK(numbers(s) == w, "dof-numbers", tag << " got " << s << " want " << show(w));
        if (c == 0) MC_CHECK(out(tag, [&](std::ostream& o) { o << dh; }) == s, "dof-operator", tag);
      }
    }
  }
  // finite element spaces
  auto o1 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  auto o2 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<double>>(m);
  auto o3 = std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<double>>(m);
  const std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<double>> us[] = {o1, o2, o3};
  for (int p = 0; p < 3; ++p) {
    const auto& f = *us[p];
    const double N = f.LocGlobMap().NumDofs();
    const std::string tag = t0 + "space " + std::to_string(p + 1);
    MC_CHECK(numbers(out(tag, [&](std::ostream& o) { o << f; })) == std::vector<double>{N}, "space", tag);
    const lf::fe::ScalarFESpace<double>& g = f;
    MC_CHECK(numbers(out(tag + " base", [&](std::ostream& o) { o << g; })) == std::vector<double>{N}, "space", tag);
    for (unsigned c = 0; c < 8; ++c) {
      const std::string s = out(tag + " ctrl " + std::to_string(c), [&](std::ostream& o) { PrintInfo(o, f, c); });
      const auto v = numbers(s);
      MC_CHECK(!v.empty() && v[0] == N, "space-info", tag << " got " << s);
      if (c & 2) MC_CHECK(has(s, "DofHandler"), "space-dofs", tag << " got " << s);
      if (c & 4) {
        std::vector<double> w;
        for (RefEl r : kinds) w.push_back(f.NumRefShapeFunctions(r));
        MC_CHECK(within(v, w), "space-rsf", tag << " got " << s);
      }
    }
    for (const Entity* e : m->Entities(0)) {
      const auto& l = *f.ShapeFunctionLayout(*e);
      std::vector<double> w{(double)l.Degree(), (double)l.NumRefShapeFunctions(), (double)l.NumEvaluationNodes()};
      MC_CHECK(numbers(out(tag + " layout", [&](std::ostream& o) { o << l; })).size() >= 3, "layout", tag);
      MC_CHECK(within(numbers(out(tag + " layout", [&](std::ostream& o) { o << l; })), w), "layout", tag);
      append(w, l.EvaluationNodes());
      MC_CHECK(within(numbers(out(tag + " layout nodes", [&](std::ostream& o) { PrintInfo(o, l, 1); })), w), "layout-nodes", tag);
    }
  }
  // hierarchies
  lf::refinement::MeshHierarchy h(m0, std::make_unique<lf::mesh::hybrid2d::MeshFactory>(sp.dim));
  h.RefineRegular();
  h.RefineRegular(lf::refinement::RefPat::rp_barycentric);
  const std::string s = out(t0 + "hierarchy", [&](std::ostream& o) { h.PrintInfo(o); });
  std::vector<double> w{(double)h.NumLevels()};
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    const auto& q = *h.getMesh(l);
    for (double x : {(double)l, 2., (double)q.DimWorld(), (double)q.NumEntities(0), (double)q.NumEntities(RefEl::kTria()), (double)q.NumEntities(RefEl::kQuad()), (double)q.NumEntities(1), (double)q.NumEntities(2)}) w.push_back(x);
  }
  MC_CHECK(numbers(s) == w, "hierarchy", t0 << " got " << s);
  const std::string d = out(t0 + "hierarchy meshes", [&](std::ostream& o) { h.PrintInfo(o, 1); });
  for (unsigned l = 0; l < h.NumLevels(); ++l) {
    std::ostringstream o;
    lf::mesh::utils::PrintInfo(o, *h.getMesh(l));
    MC_CHECK(has(d, o.str()), "hierarchy-meshes", t0);
  }
}
void otherOutput() {
  // quadrature rules
  for (RefEl r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()})
    for (unsigned deg = 0; deg <= 12; ++deg) {
      const auto q = lf::quad::make_QuadRule(r, deg);
      const std::string tag = "rule " + r.ToString() + " " + std::to_string(deg);
      std::vector<double> w{(double)q.NumPoints()};
      for (int l : {-1, 0}) MC_CHECK(numbers(out(tag, [&](std::ostream& o) { q.PrintInfo(o, l); })) == w, "rule", tag);
      MC_CHECK(numbers(out(tag, [&](std::ostream& o) { o << q; })) == w, "rule", tag);
      append(w, q.Weights().transpose());
      append(w, q.Points());
      for (int l : {1, 2, 100}) {
        const auto v = numbers(out(tag, [&](std::ostream& o) { q.PrintInfo(o, l); }));
        MC_CHECK(v.size() == w.size() && within(v, w), "rule-detail", tag << " got " << show(v));
      }
    }
  // triplet matrices: all sequences of up to 4 entries of a 2x3 matrix
  for (unsigned len = 0; len <= 4; ++len) {
    unsigned n = 1;
    for (unsigned i = 0; i < len; ++i) n *= 6;
    for (unsigned q = 0; q < n; ++q) {
      as::COOMatrix<double> A(2, 3);
      std::vector<double> w{2, 3};
      unsigned x = q;
      for (unsigned i = 0; i < len; ++i, x /= 6) {
        A.AddToEntry(x % 6 / 3, x % 3, 0.5 + i);
        for (double y : {(double)(x % 6 / 3), (double)(x % 3), 0.5 + i}) w.push_back(y);
      }
      const std::string tag = "triplets " + std::to_string(len) + " " + std::to_string(q);
      std::string s = out(tag, [&](std::ostream& o) { o << A; });
      MC_CHECK(s == out(tag, [&](std::ostream& o) { A.PrintInfo(o); }), "triplets", tag);
      for (auto& ch : s)
        if (ch == 'x') ch = ' ';
      MC_CHECK(numbers(s) == w, "triplets", tag << " got " << s);
    }
  }
  // refinement patterns
  using RP = lf::refinement::RefPat;
  const std::vector<std::pair<RP, std::string>> pats{{RP::rp_nil, "rp_nil"}, {RP::rp_copy, "rp_copy"}, {RP::rp_bisect, "rp_bisect"}, {RP::rp_trisect, "rp_trisect"}, {RP::rp_trisect_left, "rp_trisect_left"},
                                                     {RP::rp_quadsect, "rp_quadsect"}, {RP::rp_threeedge, "rp_threeedge"}, {RP::rp_regular, "rp_regular"}, {RP::rp_barycentric, "rp_barycentric"}, {RP::rp_split, "rp_split"}};
  for (auto& p : pats) MC_CHECK(out("pattern " + p.second, [&](std::ostream& o) { o << p.first; }) == p.second, "pattern", p.second);
  // Gmsh files of version 2: everything goes to the given stream
  for (unsigned np = 0; np <= 2; ++np)
    for (unsigned nm = 0; nm <= 2; ++nm)
      for (int bin = 0; bin < 2; ++bin) {
        io::GMshFileV2 f;
        f.VersionNumber = "2.2";
        f.IsBinary = bin;
        f.DoubleSize = 8;
        f.PhysicalEntities.push_back({1, 71, "left"});
        f.Nodes.push_back({81, Eigen::Vector3d(0.25, 1.5, 0)});
        f.Nodes.push_back({82, Eigen::Vector3d(4, 2, 7.5)});
        io::GMshFileV2::Element e;
        e.Number = 91;
        e.Type = io::GMshFileV2::ElementType::EDGE2;
        e.PhysicalEntityNr = 71;
        e.ElementaryEntityNr = 92;
        e.MeshPartitions = {93, 94};
        e.NodeNumbers = {81, 82};
        f.Elements.push_back(e);
        std::vector<double> w;
        for (unsigned i = 0; i < np; ++i) {
          io::GMshFileV2::PeriodicEntity p;
          p.Dimension = 1;
          p.ElementarySlaveNr = 50 + i;
          p.ElementaryMasterNr = 60 + i;
          for (double x : {1., 50. + i, 60. + i}) w.push_back(x);
          for (unsigned k = 0; k < nm; ++k) p.NodeMapping.push_back({30 + k, 40 + k}), w.push_back(30 + k), w.push_back(40 + k);
          f.Periodic.push_back(p);
        }
        const std::string tag = "gmsh file " + std::to_string(np) + " " + std::to_string(nm) + (bin ? " binary" : " text");
        const std::string s = out(tag, [&](std::ostream& o) { o << f; });
        const auto v = numbers(s);
        MC_CHECK(within(v, {1, 71}) && has(s, "left"), "gmsh-physical", tag);
        MC_CHECK(within(v, {81, 0.25, 1.5, 0}) && within(v, {82, 4, 2, 7.5}), "gmsh-nodes", tag);
        MC_CHECK(within(v, {71, 92, 93, 94, 81, 82}) && has(s, "EDGE2"), "gmsh-elements", tag);
        MC_CHECK(within(v, w), "gmsh-periodic", tag << " got " << s);
      }
}
// --- log formatter: all messages over {a, newline} up to a length, several patterns
void logLines() {
  const std::vector<std::string> pats{"%v", "[%n] %v", "<%l> [%n] %v", "%v", "%n%n%n: %v"};
  struct Msg {
    std::string text, name;
  };
  std::vector<Msg> msgs;
  for (unsigned len = 0; len <= (mc::thorough ? 12u : 9u); ++len)
    for (unsigned b = 0; b < (1u << len); ++b) {
      std::string msg;
      for (unsigned i = 0; i < len; ++i) msg += b >> i & 1 ? '\n' : (char)('a' + i);
      msgs.push_back({msg, std::to_string(len) + "/" + std::to_string(b)});
    }
  // long lines and many lines
  std::vector<unsigned> L{0, 1, 63, 64, 120, 127, 128, 129, 230, 248, 249, 250, 251, 252, 255, 256, 257, 498, 500, 511, 512, 513, 1000, 1024, 4097};
  auto lineOf = [](unsigned n, unsigned off) {
    std::string r;
    for (unsigned i = 0; i < n; ++i) r += (char)('a' + (i + off) % 26);
    return r;
  };
  for (unsigned x : L)
    for (unsigned y : L)
      for (int v = 0; v < 4; ++v)
        msgs.push_back({(v & 1 ? "\n" : "") + lineOf(x, 0) + "\n" + lineOf(y, 7) + (v & 2 ? "\n" : ""), "lines of " + std::to_string(x) + " and " + std::to_string(y) + " variant " + std::to_string(v)});
  for (unsigned n = 2; n <= (mc::thorough ? 300u : 130u); ++n)
    for (unsigned w : {0u, 1u, 5u}) {
      std::string t;
      for (unsigned i = 0; i < n; ++i) t += lineOf(w, i) + (i + 1 < n ? "\n" : "");
      msgs.push_back({t, std::to_string(n) + " lines of " + std::to_string(w)});
    }
  // characters that mean something to a formatter
  for (const char* t : {"{}", "%v", "{0}\n{1}", "%n\n%v%%", "a\tb\n\tc", "\r\n\r", "a\r\nb", " \n  \n", "\xc3\xa4\n\xe2\x82\xac"}) msgs.push_back({t, t});
  for (auto& p : pats)
    for (auto& [msg, mname] : msgs) {
        const std::string tag = "log pattern '" + p + "' message " + mname;
        mc::current(tag);
        if (mc::outcome(tag)) mc::states();
        mc::transitions();
        auto plain = std::make_unique<spdlog::pattern_formatter>(p, spdlog::pattern_time_type::local, "\n");
        lf::base::LineFeedFormatter f(plain->clone());
        auto one = [&](const std::string& s) {
          spdlog::memory_buf_t d;
          plain->format(spdlog::details::log_msg("log", spdlog::level::info, s), d);
          return std::string(d.data(), d.size());
        };
        const std::string prefix = one("").substr(0, one("").size() - 1);
        std::string want, line;
        bool first = true;
        for (size_t i = 0; i <= msg.size(); ++i) {
          if (i < msg.size() && msg[i] != '\n') {
            line += msg[i];
            continue;
          }
          want += (first ? prefix : std::string(prefix.size(), ' ')) + line + "\n";
          first = false;
          line.clear();
        }
        for (int cl = 0; cl < 2; ++cl) {
          auto g = f.clone();
          spdlog::formatter& q = cl ? *g : f;
          for (int rep = 0; rep < 2; ++rep) {
            spdlog::memory_buf_t d;
            if (rep) d.append(std::string("before"));
            q.format(spdlog::details::log_msg("log", spdlog::level::info, msg), d);
            const std::string got(d.data(), d.size());
            MC_CHECK(got == (rep ? "before" : "") + want, "log", tag << " got '" << got << "' want '" << want << "'");
          }
        }
      }
}
std::vector<Spec> M;
long count() {
  for (auto& s : topologies())
    for (int g : {kO1, kO2}) {
      Spec q = s;
      for (auto& c : q.cells) c.geo = g;
      M.push_back(q);
      auto ce = cellEdges(s);
      for (auto& e : ce) q.edges.push_back(EdgeSpec{e.second, e.first});
      for (auto& e : q.edges) e.geo = g;
      M.push_back(q);
      if (s.cells.size() == 1) {
        q.dim = 3;
        M.push_back(q);
      }
    }
  return 7 + M.size();
}
void item(long it) {
  mc::sample("item " + std::to_string(it));
  switch (it) {
    case 0: return refels();
    case 1:
      narrowAll<int8_t, int>("int8<-int", -300, 300);
      narrowAll<uint8_t, int>("uint8<-int", -300, 300);
      narrowAll<int16_t, long>("int16<-long", -70000, 70000);
      narrowAll<uint16_t, long>("uint16<-long", -70000, 70000);
      narrowAll<int, unsigned>("int<-unsigned", 0, 70000);
      narrowAll<unsigned, int>("unsigned<-int", 0, 70000);
      narrowAll<unsigned, size_t>("unsigned<-size_t", 4294967295l - 70000, 4294967295l);
      narrowAll<int, long>("int<-long", -2147483648l, -2147483648l + 1000);
      return narrowAll<int, long>("int<-long high", 2147483647l - 1000, 2147483647l);
    case 2: return elementTypes<io::GMshFileV2::ElementType>("2");
    case 3: return elementTypes<io::GMshFileV4::ElementType>("4");
    case 4: return refelOutput();
    case 5: return otherOutput();
    case 6: return logLines();
  }
  objectOutput(M[it - 7]);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
