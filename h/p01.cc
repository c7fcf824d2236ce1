// P01: product spaces, sub-forms and DPG combinations of projects/dpg.
#include <dpg/dpg_element_matrix_provider.h>
#include <dpg/dpg_element_vector_provider.h>
#include <dpg/dpg_tools.h>
#include <dpg/product_element_matrix_provider_builder.h>
#include <dpg/product_element_vector_provider_builder.h>
#include <dpg/product_fe_space_factory.h>

#include "fe.h"
using namespace fh;
namespace dpg = projects::dpg;
namespace mu = lf::mesh::utils;
namespace {
std::vector<Spec> M;
using Vec2 = Eigen::Vector2d;
// ---- component kinds
enum Kind { H1, L2, FLUX, TRACE };
struct Comp {
  Kind k;
  unsigned p;
};
const char* kn[] = {"H1", "L2", "Flux", "Trace"};
std::string str(const std::vector<Comp>& c) {
  std::string s;
  for (auto& x : c) s += std::string(s.empty() ? "" : "+") + kn[x.k] + std::to_string(x.p);
  return s;
}
std::vector<Comp> letters() {
  std::vector<Comp> r;
  for (unsigned p = 1; p <= 3; ++p) r.push_back({H1, p});
  for (unsigned p = 0; p <= 3; ++p) r.push_back({L2, p});
  for (unsigned p = 0; p <= 3; ++p) r.push_back({FLUX, p});
  for (unsigned p = 1; p <= 3; ++p) r.push_back({TRACE, p});
  return r;
}
// dofs owned by an entity
unsigned own(const Comp& c, RefEl r) {
  const unsigned p = c.p;
  const int i = r == RefEl::kPoint() ? 0 : r == RefEl::kSegment() ? 1 : r == RefEl::kTria() ? 2 : 3;
  switch (c.k) {
    case H1: return std::array<unsigned, 4>{1, p - 1, (p - 1) * (p - 2) / 2, (p - 1) * (p - 1)}[i];
    case L2: return std::array<unsigned, 4>{0, 0, (p + 1) * (p + 2) / 2, (p + 1) * (p + 1)}[i];
    case FLUX: return std::array<unsigned, 4>{0, p + 1, 0, 0}[i];
    default: return std::array<unsigned, 4>{1, p - 1, 0, 0}[i];
  }
}
bool hasRfs(const Comp& c, RefEl r) {
  if (r == RefEl::kPoint()) return false;
  if (r == RefEl::kSegment()) return c.k != L2;
  return c.k != FLUX;
}
using Factory = dpg::ProductUniformFESpaceFactory<double>;
using PSpace = std::shared_ptr<dpg::ProductUniformFESpace<double>>;
idx add(Factory& f, const Comp& c) {
  switch (c.k) {
    case H1: return f.AddH1Component(c.p);
    case L2: return f.AddL2Component(c.p);
    case FLUX: return f.AddFluxComponent(c.p);
    default: return f.AddTraceComponent(c.p);
  }
}
PSpace space(const std::shared_ptr<const Mesh>& m, const std::vector<Comp>& cs) {
  Factory f(m);
  for (auto& c : cs) add(f, c);
  return f.Build();
}
std::vector<idx> vec(std::span<const lf::assemble::gdof_idx_t> s) { return {s.begin(), s.end()}; }

// ---- 1. layout of product spaces
using Counts = std::array<idx, 4>;  // dofs per node, edge, triangle, quadrilateral
idx own(const Counts& c, RefEl r) { return c[r == RefEl::kPoint() ? 0 : r == RefEl::kSegment() ? 1 : r == RefEl::kTria() ? 2 : 3]; }
template <class C>
void handler(const std::shared_ptr<const Mesh>& m, const std::vector<C>& cs, const dpg::ProductUniformFEDofHandler& d, const std::string& tag) {
  const idx n = cs.size();
  MC_CHECK(d.NumComponents() == n && d.Mesh() == m, "components", tag);
  std::vector<std::unique_ptr<lf::assemble::UniformFEDofHandler>> ref;
  std::vector<idx> off{0};
  for (idx c = 0; c < n; ++c) {
    lf::assemble::UniformFEDofHandler::dof_map_t dm;
    for (auto r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) dm[r] = own(cs[c], r);
    ref.push_back(std::make_unique<lf::assemble::UniformFEDofHandler>(m, dm));
    idx cnt = 0;
    for (int cd = 0; cd <= 2; ++cd)
      for (const Entity* e : m->Entities(cd)) cnt += own(cs[c], e->RefEl());
    off.push_back(off.back() + cnt);
    MC_CHECK(d.Offset(c) == off[c] && d.NumDofs(c) == cnt && d.ComponentDofHandler(c).NumDofs() == cnt, "offset", tag << " component " << c);
  }
  MC_CHECK(d.NumDofs() == off[n] && d.Offset(n) == off[n], "numdofs", tag << " " << d.NumDofs() << " want " << off[n]);
  std::vector<int> owner(off[n], 0);
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      std::vector<idx> g, in;
      for (idx c = 0; c < n; ++c) {
        MC_CHECK(d.LocalStartIndex(*e, c) == g.size(), "local-start", tag << " component " << c << " codim " << cd << " index " << m->Index(*e));
        MC_CHECK(d.NumInteriorDofs(*e, c) == own(cs[c], e->RefEl()), "interior-count", tag);
        const idx g0 = g.size();
        for (auto x : ref[c]->GlobalDofIndices(*e)) g.push_back(x + off[c]);
        MC_CHECK(d.NumLocalDofs(*e, c) == g.size() - g0, "local-count", tag);
        for (auto x : ref[c]->InteriorGlobalDofIndices(*e)) {
          in.push_back(x + off[c]);
          ++owner[x + off[c]];
          MC_CHECK(d.Component(x + off[c]) == c && &d.Entity(x + off[c]) == e, "owner", tag << " dof " << x + off[c]);
        }
        MC_CHECK(vec(d.ComponentDofHandler(c).GlobalDofIndices(*e)) == vec(ref[c]->GlobalDofIndices(*e)), "component-handler", tag);
      }
      MC_CHECK(vec(d.GlobalDofIndices(*e)) == g && d.NumLocalDofs(*e) == g.size(), "global-indices", tag << " codim " << cd << " index " << m->Index(*e));
      MC_CHECK(vec(d.InteriorGlobalDofIndices(*e)) == in && d.NumInteriorDofs(*e) == in.size(), "interior-indices", tag << " codim " << cd << " index " << m->Index(*e));
    }
  for (int o : owner) MC_CHECK(o == 1, "bijection", tag);
}
void layout(const std::shared_ptr<const Mesh>& m, const std::vector<Comp>& cs, const dpg::ProductUniformFESpace<double>& fes, const std::string& tag) {
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  mc::transitions();
  MC_CHECK(fes.NumComponents() == cs.size() && fes.Mesh() == m, "components", tag);
  handler(m, cs, fes.LocGlobMap(), tag);
}
// product handlers for arbitrary layouts, components without any dof included
void handlers(const std::shared_ptr<const Mesh>& m, const std::string& tag0, bool all) {
  const std::vector<Counts> L{{1, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 1, 0}, {0, 0, 0, 0}, {0, 1, 0, 0}, {2, 1, 0, 3}, {0, 3, 2, 1}, {1, 2, 1, 4}};
  const size_t K = L.size();
  for (size_t q = 0; q < K * K * K; ++q) {
    if (!all && q % 7) continue;
    std::vector<Counts> cs{L[q % K], L[q / K % K], L[q / K / K]};
    if (q % 5 == 0) cs.resize(1 + q / 5 % 2);
    if (q % 11 == 0) cs.push_back(L[(q + 3) % K]), cs.push_back(L[q % 3]);
    std::string tag = tag0 + " handler";
    std::vector<std::map<RefEl, idx>> maps;
    for (auto& c : cs) {
      maps.emplace_back();
      tag += " ";
      for (int k = 0; k < 4; ++k) {
        tag += std::to_string(c[k]);
        if (c[k] || q % 2) maps.back()[k == 0 ? RefEl::kPoint() : k == 1 ? RefEl::kSegment() : k == 2 ? RefEl::kTria() : RefEl::kQuad()] = c[k];
      }
    }
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    mc::transitions();
    handler(m, cs, dpg::ProductUniformFEDofHandler(m, maps), tag);
  }
}
// own building blocks, active on some cells only, several per block
using SubMat = dpg::SubElementMatrixProvider<double>;
using SubVec = dpg::SubElementVectorProvider<double>;
double entry(idx cell, idx tr, idx te, idx k, idx i, idx j) { return 1 + i + 32 * j + 1024 * ((tr * 3 + te) * 5 + k) + 1e6 * cell; }
struct OwnMat : SubMat {
  const dpg::ProductUniformFEDofHandler *u, *v;
  const Mesh* m;
  idx tr, te, k;
  bool on(idx c) const { return (c + tr + 2 * te + k) % 3 != 0; }
  bool isActive(const Entity& c) override { return on(m->Index(c)); }
  ElemMat Eval(const Entity& c) override {
    MC_CHECK(on(m->Index(c)), "inactive-block", mc::current());
    ElemMat r(v->ComponentDofHandler(te).NumLocalDofs(c), u->ComponentDofHandler(tr).NumLocalDofs(c));
    for (int i = 0; i < r.rows(); ++i)
      for (int j = 0; j < r.cols(); ++j) r(i, j) = entry(m->Index(c), tr, te, k, i, j);
    return r;
  }
  [[nodiscard]] size_type TrialComponent() const override { return tr; }
  [[nodiscard]] size_type TestComponent() const override { return te; }
};
struct OwnVec : SubVec {
  const dpg::ProductUniformFEDofHandler* v;
  const Mesh* m;
  idx te, k;
  bool on(idx c) const { return (c + te + k) % 3 != 0; }
  bool isActive(const Entity& c) override { return on(m->Index(c)); }
  ElemVec Eval(const Entity& c) override {
    MC_CHECK(on(m->Index(c)), "inactive-block", mc::current());
    ElemVec r(v->ComponentDofHandler(te).NumLocalDofs(c));
    for (int i = 0; i < r.size(); ++i) r[i] = entry(m->Index(c), 0, te, k, i, 0);
    return r;
  }
  [[nodiscard]] size_type TestComponent() const override { return te; }
};
void blocks(const std::shared_ptr<const Mesh>& m, const PSpace& u, const PSpace& v, const std::string& tag0) {
  const auto &du = u->LocGlobMap(), &dv = v->LocGlobMap();
  const std::string tag = tag0 + " own blocks";
  mc::current(tag);
  mc::transitions();
  std::vector<std::shared_ptr<SubMat>> A;
  std::vector<std::shared_ptr<SubVec>> b;
  std::vector<std::shared_ptr<OwnMat>> oa;
  std::vector<std::shared_ptr<OwnVec>> ob;
  for (idx te = 0; te < v->NumComponents(); ++te) {
    for (idx k = 0; k <= te % 2; ++k) {
      auto p = std::make_shared<OwnVec>();
      p->v = &dv, p->m = m.get(), p->te = te, p->k = k;
      b.insert(b.begin(), p), ob.push_back(p);
    }
    for (idx tr = 0; tr < u->NumComponents(); ++tr)
      for (idx k = 0; k < 1 + (te + tr) % 3; ++k) {
        if ((te + 2 * tr) % 5 == 4) continue;  // an empty block
        auto p = std::make_shared<OwnMat>();
        p->u = &du, p->v = &dv, p->m = m.get(), p->tr = tr, p->te = te, p->k = k;
        A.insert(A.begin() + A.size() / 2, p), oa.push_back(p);
      }
  }
  dpg::ProductElementMatrixProvider<double> P(u, v, A);
  dpg::ProductElementVectorProvider<double> Q(v, b);
  for (const Entity* c : m->Entities(0)) {
    auto start = [&](const dpg::ProductUniformFEDofHandler& d, idx comp) {
      idx r = 0;
      for (idx i = 0; i < comp; ++i) r += d.ComponentDofHandler(i).NumLocalDofs(*c);
      return r;
    };
    Mat W = Mat::Zero(dv.NumLocalDofs(*c), du.NumLocalDofs(*c));
    Vec w = Vec::Zero(dv.NumLocalDofs(*c));
    const idx ci = m->Index(*c);
    for (auto& p : oa)
      if (p->on(ci))
        for (idx i = 0; i < dv.ComponentDofHandler(p->te).NumLocalDofs(*c); ++i)
          for (idx j = 0; j < du.ComponentDofHandler(p->tr).NumLocalDofs(*c); ++j) W(start(dv, p->te) + i, start(du, p->tr) + j) += entry(ci, p->tr, p->te, p->k, i, j);
    for (auto& p : ob)
      if (p->on(ci))
        for (idx i = 0; i < dv.ComponentDofHandler(p->te).NumLocalDofs(*c); ++i) w[start(dv, p->te) + i] += entry(ci, 0, p->te, p->k, i, 0);
    const Mat G = P.Eval(*c);
    const Vec g = Q.Eval(*c);
    MC_CHECK(P.isActive(*c) && Q.isActive(*c) && G.rows() == W.rows() && G.cols() == W.cols() && G == W, "block-matrix", tag << " cell " << ci);
    MC_CHECK(g.size() == w.size() && g == w, "block-vector", tag << " cell " << ci);
  }
}
// ---- shape functions of every component kind
template <template <class> class T0>
Mat vals(const Mat& x) {
  return T0<double>().EvalReferenceShapeFunctions(x);
}
const SFE<double>& lagr(RefEl r, unsigned p) {
  using namespace lf::uscalfe;
  static FeLagrangeO1Tria<double> t1;
  static FeLagrangeO2Tria<double> t2;
  static FeLagrangeO3Tria<double> t3;
  static FeLagrangeO1Quad<double> q1;
  static FeLagrangeO2Quad<double> q2;
  static FeLagrangeO3Quad<double> q3;
  static FeLagrangeO1Segment<double> s1;
  static FeLagrangeO2Segment<double> s2;
  static FeLagrangeO3Segment<double> s3;
  const SFE<double>* t[3][3] = {{&t1, &t2, &t3}, {&q1, &q2, &q3}, {&s1, &s2, &s3}};
  return *t[r == RefEl::kTria() ? 0 : r == RefEl::kQuad() ? 1 : 2][p - 1];
}
// the constant elements used on their own (the one of a segment is in no space of the factory)
void constants() {
  projects::dpg::FeDiscontinuousO0Tria<double> t;
  projects::dpg::FeDiscontinuousO0Quad<double> q;
  projects::dpg::FeDiscontinuousO0Segment<double> s;
  for (const SFE<double>* e : std::initializer_list<const SFE<double>*>{&t, &q, &s}) {
    const RefEl r = e->RefEl();
    const std::string tag = "constants " + r.ToString();
    mc::current(tag);
    mc::transitions();
    MC_CHECK(e->Degree() == 0 && e->NumRefShapeFunctions() == 1 && e->NumEvaluationNodes() == 1, "constant", tag);
    for (unsigned cd = 0; cd <= (unsigned)r.Dimension(); ++cd) {
      MC_CHECK(e->NumRefShapeFunctions(cd) == (cd == 0), "sub-rsf", tag << " codim " << cd);
      for (unsigned i = 0; i < r.NumSubEntities(cd); ++i) MC_CHECK(e->NumRefShapeFunctions(cd, i) == (cd == 0), "sub-rsf", tag << " codim " << cd << " " << i);
    }
    const Mat x = pts(r, 4), v = e->EvalReferenceShapeFunctions(x), g = e->GradientsReferenceShapeFunctions(x), n = e->EvaluationNodes();
    MC_CHECK(v.rows() == 1 && v.cols() == x.cols() && g.rows() == 1 && g.cols() == x.cols() * r.Dimension(), "shape-size", tag);
    MC_CHECK((v.array() == 1).all() && (g.array() == 0).all(), "constant", tag);
    MC_CHECK(n.rows() == r.Dimension() && n.cols() == 1 && n.minCoeff() >= 0 && n.maxCoeff() <= 1 && (r != RefEl::kTria() || n.sum() <= 1), "nodes", tag);
    Eigen::Matrix<double, 1, Eigen::Dynamic> w(1);
    w << 2.5;
    MC_CHECK(e->NodalValuesToDofs(w)(0) == 2.5, "nodal-values", tag);
  }
}
void shapes(const std::shared_ptr<const Mesh>& m) {
  for (auto& c : letters()) {
    auto f = space(m, {c});
    for (auto r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
      const std::string tag = "shapes " + str({c}) + " " + r.ToString();
      mc::current(tag);
      mc::transitions();
      const auto* e = f->ShapeFunctionLayout(r, 0);
      MC_CHECK((e != nullptr) == hasRfs(c, r), "layout-null", tag);
      MC_CHECK(f->NumRefShapeFunctions(r, 0) == own(c, r), "num-rsf", tag << " " << f->NumRefShapeFunctions(r, 0));
      if (!e) continue;
      const bool tr = c.k == TRACE, disc = c.k == L2 || c.k == FLUX, cell = r != RefEl::kSegment();
      MC_CHECK(e->RefEl() == r && e->Degree() == c.p, "degree", tag);
      unsigned sum = 0, n = 0;
      for (unsigned cd = 0; cd <= (unsigned)r.Dimension(); ++cd) {
        for (unsigned i = 0; i < r.NumSubEntities(cd); ++i) {
          const RefEl sr = r.SubType(cd, i);
          const unsigned w = disc ? (cd == 0 ? own(c, r) : 0) : own(c, sr);
          MC_CHECK(e->NumRefShapeFunctions(cd, i) == w, "sub-rsf", tag << " codim " << cd);
          if (cd != 0 || true) MC_CHECK(e->NumRefShapeFunctions(cd) == w, "sub-rsf", tag << " codim " << cd);
          sum += w;
        }
      }
      n = e->NumRefShapeFunctions();
      MC_CHECK(n == sum, "rsf-total", tag << " " << n << " want " << sum);
      const Mat x = pts(r, 4);
      const Mat v = e->EvalReferenceShapeFunctions(x), g = e->GradientsReferenceShapeFunctions(x);
      MC_CHECK(v.rows() == n && v.cols() == x.cols() && g.rows() == n && g.cols() == x.cols() * r.Dimension(), "shape-size", tag);
      if (c.p == 0) {
        MC_CHECK((v.array() == 1).all() && (g.array() == 0).all(), "constant", tag);
      } else {
        const auto& L = lagr(r, c.p);
        MC_CHECK((v - L.EvalReferenceShapeFunctions(x).topRows(n)).cwiseAbs().maxCoeff() < 1e-12, "shape-values", tag);
        MC_CHECK((g - L.GradientsReferenceShapeFunctions(x).topRows(n)).cwiseAbs().maxCoeff() < 1e-12, "shape-gradients", tag);
      }
      const Mat en = e->EvaluationNodes();
      MC_CHECK(en.cols() == n && e->NumEvaluationNodes() == n, "nodes", tag);
      MC_CHECK((e->EvalReferenceShapeFunctions(en) - Mat::Identity(n, n)).cwiseAbs().maxCoeff() < 1e-12, "cardinal", tag);
      Eigen::RowVectorXd nv(n);
      for (unsigned i = 0; i < n; ++i) nv[i] = 1 + i * i * 0.25;
      MC_CHECK((e->NodalValuesToDofs(nv) - nv).norm() < 1e-12, "nodal-values", tag);
      (void)tr, (void)cell;
    }
  }
}
// ---- 2. forms
bool same(const Mat& a, const Mat& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * std::max(1., b.cwiseAbs().maxCoeff());
}
// sum over points of w*vol*form(phi, grad phi, psi, grad psi, x)
template <class F>
Mat volume(const Entity& e, const SFE<double>& u, const SFE<double>& v, const Mat& qx, const Vec& qw, F form) {
  const auto& g = *e.Geometry();
  const Mat X = g.Global(qx), J = g.Jacobian(qx), U = u.EvalReferenceShapeFunctions(qx), V = v.EvalReferenceShapeFunctions(qx), GU = u.GradientsReferenceShapeFunctions(qx),
            GV = v.GradientsReferenceShapeFunctions(qx);
  Mat r = Mat::Zero(v.NumRefShapeFunctions(), u.NumRefShapeFunctions());
  for (int i = 0; i < qw.size(); ++i) {
    const Mat Ji = J.middleCols(2 * i, 2);
    const Mat T = Ji.transpose().inverse();
    const Mat gu = T * GU.middleCols(2 * i, 2).transpose(), gv = T * GV.middleCols(2 * i, 2).transpose();
    r += form(Vec(U.col(i)), gu, Vec(V.col(i)), gv, Vec2(X.col(i))) * (qw[i] * std::abs(Ji.determinant()));
  }
  return r;
}
double shoelace(const Mat& c) {
  double a = 0;
  for (int i = 0; i < c.cols(); ++i) {
    const int j = (i + 1) % c.cols();
    a += c(0, i) * c(1, j) - c(0, j) * c(1, i);
  }
  return a / 2;
}
Mat corners(const Entity& e) { return e.Geometry()->Global(e.RefEl().NodeCoords()); }
Vec2 normal(const Mat& c, int i) {
  const Vec2 d = c.col((i + 1) % c.cols()) - c.col(i);
  Vec2 n(d[1], -d[0]);
  if (shoelace(c) < 0) n = -n;
  return n / n.norm();
}
int sgn(const Mesh& m, const Entity& cell, const Entity& edge) {
  int mx = -1;
  for (const Entity* c : m.Entities(0))
    for (const Entity* s : c->SubEntities(1))
      if (s == &edge) mx = std::max<int>(mx, m.Index(*c));
  return mx == static_cast<int>(m.Index(cell)) ? 1 : -1;
}
// reference coordinates (in the cell) of the point at parameter t of local edge i
Vec2 edgeRef(RefEl r, int i, double t) {
  const Mat c = r.NodeCoords();
  return (1 - t) * c.col(i) + t * c.col((i + 1) % c.cols());
}
// flux columns, by global dof of the edge: its basis function is defined on the edge itself
template <class A>
Mat fluxOracle(const Mesh& m, const Entity& cell, const SFE<double>& q, const SFE<double>& v, const lf::assemble::DofHandler& fd, const Vec& qx, const Vec& qw, A alpha) {
  const int ne = cell.RefEl().NumSubEntities(1);
  auto gl = vec(fd.GlobalDofIndices(cell));
  Mat r = Mat::Zero(v.NumRefShapeFunctions(), gl.size());
  const Mat c = corners(cell);
  for (int i = 0; i < ne; ++i) {
    const Entity& ed = *cell.SubEntities(1)[i];
    const bool rev = cell.RelativeOrientations()[i] == lf::mesh::Orientation::negative;
    auto el = vec(fd.GlobalDofIndices(ed));
    const double len = (c.col((i + 1) % ne) - c.col(i)).norm();
    for (int k = 0; k < qw.size(); ++k) {
      const double t = qx[k];
      const Vec2 xr = edgeRef(cell.RefEl(), i, t);
      const Mat pv = v.EvalReferenceShapeFunctions(Mat(xr));
      const Mat qv = q.EvalReferenceShapeFunctions(Mat::Constant(1, 1, rev ? 1 - t : t));
      const Vec2 X = cell.Geometry()->Global(Mat(xr)).col(0);
      for (size_t a = 0; a < el.size(); ++a) {
        const int col = std::find(gl.begin(), gl.end(), el[a]) - gl.begin();
        MC_CHECK(col < (int)gl.size(), "flux-dof", "edge dof not seen by the cell");
        r.col(col) += pv.col(0) * (qv(a, 0) * qw[k] * len * sgn(m, cell, ed) * alpha(X));
      }
    }
  }
  return r;
}
template <class B>
Mat traceOracle(const Entity& cell, const SFE<double>& u, const SFE<double>& v, const Vec& qx, const Vec& qw, B beta) {
  const int ne = cell.RefEl().NumSubEntities(1);
  const Mat c = corners(cell);
  Mat r = Mat::Zero(v.NumRefShapeFunctions(), u.NumRefShapeFunctions());
  for (int i = 0; i < ne; ++i) {
    const double len = (c.col((i + 1) % ne) - c.col(i)).norm();
    for (int k = 0; k < qw.size(); ++k) {
      const Vec2 xr = edgeRef(cell.RefEl(), i, qx[k]);
      const Vec2 X = cell.Geometry()->Global(Mat(xr)).col(0);
      r += v.EvalReferenceShapeFunctions(Mat(xr)) * u.EvalReferenceShapeFunctions(Mat(xr)).transpose() * (qw[k] * len * normal(c, i).dot(beta(X)));
    }
  }
  return r;
}
struct Coef {
  const char* name;
  bool constant;
  std::function<double(Vec2)> a;
  std::function<Vec2(Vec2)> b1, b2;
  std::function<Eigen::Matrix2d(Vec2)> T;
};
std::vector<Coef> coefs() {
  const Eigen::Matrix2d S = (Eigen::Matrix2d() << 2, 0.5, 0.5, 1.25).finished();
  return {{"const", true, [](Vec2) { return 1.75; }, [](Vec2) { return Vec2(1, -2); }, [](Vec2) { return Vec2(0.5, 3); }, [S](Vec2) { return S; }},
          {"function", false, [](Vec2 x) { return 2 + std::sin(x[0] + 2 * x[1]); }, [](Vec2 x) { return Vec2(x[1], 1 + x[0] * x[0]); }, [](Vec2 x) { return Vec2(std::cos(x[0]), -x[1]); },
           [S](Vec2 x) { return Eigen::Matrix2d(S * (1 + x[0] * x[0])); }}};
}
// the target block is placed at (test position b, trial position a) of two-component products
void forms(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const auto L = letters();
  Vec gx, gw;
  gauss(9, gx, gw);
  const Comp filler[2] = {{H1, 2}, {L2, 1}};
  for (auto& u : L)
    for (auto& v : L) {
      if (v.k != H1 && v.k != L2) continue;
      for (int place = 0; place < 4; ++place) {
        const int a = place & 1, b = place >> 1;
        if ((u.p + v.p + place) % 2 && !mc::thorough) continue;
        std::vector<Comp> cu(2), cv(2);
        cu[a] = u, cu[1 - a] = filler[b], cv[b] = v, cv[1 - b] = filler[a];
        auto fu = space(m, cu), fv = space(m, cv);
        for (auto& co : coefs()) {
          const std::string tag = tag0 + " trial " + str(cu) + " test " + str(cv) + " " + co.name;
          mc::current(tag);
          if (mc::outcome(tag)) mc::states();
          auto A = mu::MeshFunctionGlobal(co.a);
          auto B1 = mu::MeshFunctionGlobal(co.b1), B2 = mu::MeshFunctionGlobal(co.b2);
          auto T = mu::MeshFunctionGlobal(co.T);
          struct Run {
            std::string what;
            std::shared_ptr<dpg::ProductElementMatrixProvider<double>> p;
            int form;
          };
          std::vector<Run> runs;
          dpg::ProductElementMatrixProviderBuilder<double> bld(fu, fv);
          if (u.k == FLUX) {
            runs.push_back({"flux", bld.AddFluxElementMatrixProvider(a, b, A).Build(), 0});
          } else if (u.k == TRACE) {
            runs.push_back({"trace", bld.AddTraceElementMatrixProvider(a, b, B1).Build(), 1});
          } else {
            runs.push_back({"diffusion", bld.AddDiffusionElementMatrixProvider(a, b, A).Build(), 2});
            runs.push_back({"diffusion-tensor", bld.AddDiffusionElementMatrixProvider(a, b, T).Build(), 3});
            runs.push_back({"reaction", bld.AddReactionElementMatrixProvider(a, b, A).Build(), 4});
            runs.push_back({"convection", bld.AddConvectionElementMatrixProvider(a, b, B1, B2).Build(), 5});
            runs.push_back({"sum", bld.AddReactionElementMatrixProvider(a, b, A).AddConvectionElementMatrixProvider(a, b, B1, B2).AddDiffusionElementMatrixProvider(a, b, A).Build(), 6});
          }
          for (const Entity* c : m->Entities(0)) {
            const RefEl r = c->RefEl();
            const auto& fev = *fv->ShapeFunctionLayout(r, b);
            const auto& du = fu->LocGlobMap();
            const auto& dv = fv->LocGlobMap();
            const bool exact = co.constant && c->Geometry()->isAffine();
            for (auto& run : runs) {
              mc::transitions();
              const Mat got = run.p->Eval(*c);
              MC_CHECK(run.p->isActive(*c), "active", tag);
              // which = 0: rule of the documented degree, 1: high order
              for (int which = 0; which < (exact ? 2 : 1); ++which) {
                Mat w;
                if (run.form <= 1) {
                  Vec sx = gx, sw = gw;
                  if (which == 0) {
                    auto qr = lf::quad::make_QuadRule(RefEl::kSegment(), u.p + v.p);
                    sx = qr.Points().transpose();
                    sw = qr.Weights();
                  }
                  w = run.form == 0 ? fluxOracle(*m, *c, *fu->ShapeFunctionLayout(RefEl::kSegment(), a), fev, du.ComponentDofHandler(a), sx, sw, co.a)
                                    : traceOracle(*c, *fu->ShapeFunctionLayout(r, a), fev, sx, sw, co.b1);
                } else {
                  Mat qx;
                  Vec qw;
                  if (which == 0) {
                    auto qr = lf::quad::make_QuadRule(r, u.p + v.p);
                    qx = qr.Points(), qw = qr.Weights();
                  } else {
                    auto q = refQuad(r, 7);
                    qx = q.x, qw = q.w;
                  }
                  w = volume(*c, *fu->ShapeFunctionLayout(r, a), fev, qx, qw, [&](const Vec& U, const Mat& gu, const Vec& V, const Mat& gv, const Vec2& x) -> Mat {
                    switch (run.form) {
                      case 2: return co.a(x) * gv.transpose() * gu;
                      case 3: return gv.transpose() * co.T(x) * gu;
                      case 4: return co.a(x) * V * U.transpose();
                      case 5: return gv.transpose() * co.b1(x) * U.transpose() + V * (co.b2(x).transpose() * gu);
                      default: return co.a(x) * V * U.transpose() + gv.transpose() * co.b1(x) * U.transpose() + V * (co.b2(x).transpose() * gu) + co.a(x) * gv.transpose() * gu;
                    }
                  });
                }
                Mat full = Mat::Zero(dv.NumLocalDofs(*c), du.NumLocalDofs(*c));
                const idx r0 = b ? dv.NumLocalDofs(*c, 0) : 0, c0 = a ? du.NumLocalDofs(*c, 0) : 0;
                full.block(r0, c0, w.rows(), w.cols()) = w;
                MC_CHECK(same(got, full), run.what + (which ? "-exact" : ""), tag << " cell " << m->Index(*c) << " " << r.ToString() << " got\n" << got << "\nwant\n" << full);
              }
            }
          }
          // load vector
          if (&u == &L[0]) {
            dpg::ProductElementVectorProviderBuilder<double> vb(fv);
            auto p1 = vb.AddLoadElementVectorProvider(b, A).Build();
            auto p2 = vb.AddLoadElementVectorProvider(b, A).AddLoadElementVectorProvider(b, A).Build();
            for (const Entity* c : m->Entities(0)) {
              const auto& fev = *fv->ShapeFunctionLayout(c->RefEl(), b);
              auto qr = lf::quad::make_QuadRule(c->RefEl(), 2 * v.p);
              Mat w = volume(*c, fev, fev, qr.Points(), qr.Weights(), [&](const Vec&, const Mat&, const Vec& V, const Mat&, const Vec2& x) -> Mat {
                Mat r = Mat::Zero(V.size(), V.size());
                r.col(0) = V * co.a(x);
                return r;
              }).col(0);
              const auto& dv = fv->LocGlobMap();
              Vec full = Vec::Zero(dv.NumLocalDofs(*c));
              full.segment(b ? dv.NumLocalDofs(*c, 0) : 0, w.rows()) = w;
              mc::transitions(2);
              MC_CHECK(same(p1->Eval(*c), full) && same(p2->Eval(*c), 2 * full), "load", tag << " cell " << m->Index(*c));
            }
          }
        }
      }
    }
}
// ---- 3. normals, boundary rules, signs, in- and outflow
void normals(const std::shared_ptr<const Mesh>& m, const std::string& tag) {
  mc::current(tag + " normals");
  dpg::PrescribedSignProvider sp(m);
  auto bd = mu::CountNumSuperEntities(m, 1, 1);
  for (const Entity* c : m->Entities(0)) {
    mc::transitions();
    const Mat n = dpg::OuterNormals(*c->Geometry()), cc = corners(*c);
    MC_CHECK(n.rows() == 2 && n.cols() == cc.cols(), "normals", tag);
    for (int i = 0; i < n.cols(); ++i) {
      MC_CHECK((n.col(i) - normal(cc, i)).norm() < 1e-12, "normals", tag << " cell " << m->Index(*c) << " edge " << i);
      const Entity* e = c->SubEntities(1)[i];
      const int s = sp.PrescribedSign(*c, *e);
      MC_CHECK(s == 1 || s == -1, "sign", tag);
      if (bd(*e) == 1) MC_CHECK(s == 1, "sign-boundary", tag << " edge " << m->Index(*e));
      for (const Entity* o : m->Entities(0))
        if (o != c)
          for (const Entity* oe : o->SubEntities(1))
            if (oe == e) MC_CHECK(sp.PrescribedSign(*o, *e) == -s, "sign-opposite", tag << " edge " << m->Index(*e));
    }
  }
  // in- and outflow boundaries for constant and varying fields
  for (int dir = 0; dir < 9; ++dir) {
    std::function<Vec2(Vec2)> beta = [dir](Vec2 x) {
      return dir < 8 ? Vec2(std::cos(dir * M_PI / 4 + 0.1), std::sin(dir * M_PI / 4 + 0.1)) : Vec2(x[1] - 0.4, 0.55 - x[0]);
    };
    auto B = mu::MeshFunctionGlobal(beta);
    auto in = dpg::flagEntitiesOnInflowBoundary(m, B), out = dpg::flagEntitiesOnOutflowBoundary(m, B);
    mc::transitions();
    for (const Entity* c : m->Entities(0))
      for (int i = 0; i < (int)c->RefEl().NumNodes(); ++i) {
        const Entity* e = c->SubEntities(1)[i];
        const Mat cc = corners(*c);
        const double f = normal(cc, i).dot(beta((cc.col(i) + cc.col((i + 1) % cc.cols())) / 2));
        const bool b = bd(*e) == 1;
        MC_CHECK(in.DefinedOn(*e) && out.DefinedOn(*e) && (int)in(*e) + (int)out(*e) == (int)b, "inflow-partition", tag << " direction " << dir << " edge " << m->Index(*e));
        if (b && std::abs(f) > 1e-10) MC_CHECK(in(*e) == (f < 0), "inflow", tag << " direction " << dir << " edge " << m->Index(*e));
      }
  }
}
// all simple (also non convex) quadrilaterals and triangles on a lattice
void latticeNormals(int part) {
  std::vector<Vec2> P;
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) P.push_back(Vec2(i, j));
  auto cross = [](Vec2 a, Vec2 b) { return a[0] * b[1] - a[1] * b[0]; };
  auto segX = [&](Vec2 a, Vec2 b, Vec2 c, Vec2 d) {
    auto o = [&](Vec2 p, Vec2 q, Vec2 r) { return cross(q - p, r - p); };
    return o(a, b, c) * o(a, b, d) <= 0 && o(c, d, a) * o(c, d, b) <= 0;
  };
  auto check = [&](const Mat& c, const lf::geometry::Geometry& g) {
    const Mat n = dpg::OuterNormals(g);
    mc::transitions();
    for (int i = 0; i < n.cols(); ++i) MC_CHECK((n.col(i) - normal(c, i)).norm() < 1e-12, "normals", "corners\n" << c << "\nedge " << i << " got " << n.col(i).transpose());
  };
  for (int a = part; a < 16; a += 4)
    for (int b = 0; b < 16; ++b)
      for (int c = 0; c < 16; ++c) {
        if (std::abs(cross(P[b] - P[a], P[c] - P[a])) < 0.5) continue;
        Mat t(2, 3);
        t << P[a], P[b], P[c];
        mc::states();
        mc::outcome("t" + std::to_string(a * 256 + b * 16 + c));
        check(t, lf::geometry::TriaO1(t));
        for (int d = 0; d < 16; ++d) {
          // strictly simple, no straight angle
          const Vec2 q[4] = {P[a], P[b], P[c], P[d]};
          bool ok = !segX(q[0], q[1], q[2], q[3]) && !segX(q[1], q[2], q[3], q[0]);
          for (int k = 0; k < 4; ++k) ok = ok && std::abs(cross(q[(k + 1) % 4] - q[k], q[(k + 2) % 4] - q[k])) > 0.5;
          if (!ok) continue;
          Mat Q(2, 4);
          Q << q[0], q[1], q[2], q[3];
          mc::states();
          mc::outcome("q" + std::to_string(((a * 16 + b) * 16 + c) * 16 + d));
          bool convex = true;
          const double s = shoelace(Q);
          for (int k = 0; k < 4; ++k) convex = convex && cross(q[(k + 1) % 4] - q[k], q[(k + 2) % 4] - q[(k + 1) % 4]) * s > 0;
          mc::current("lattice quadrilateral");
          check(Q, lf::geometry::QuadO1(Q));
          if (convex && (P[a] + P[c] - P[b] - P[d]).norm() < 1e-9) check(Q, lf::geometry::Parallelogram(Q));
        }
      }
}
void rules() {
  for (auto r : {RefEl::kTria(), RefEl::kQuad()})
    for (unsigned p = 0; p <= 12; ++p) {
      mc::current("BoundaryQuadRule " + r.ToString() + " " + std::to_string(p));
      mc::transitions();
      mc::states();
      auto qr = lf::quad::make_QuadRule(RefEl::kSegment(), p);
      auto v = dpg::BoundaryQuadRule(r, qr);
      MC_CHECK(v.size() == r.NumSubEntities(1), "boundary-rule", r.ToString());
      const Mat c = r.NodeCoords();
      for (size_t i = 0; i < v.size(); ++i) {
        const double len = (c.col((i + 1) % c.cols()) - c.col(i)).norm();
        MC_CHECK(v[i].NumPoints() == qr.NumPoints() && v[i].RefEl() == r, "boundary-rule", r.ToString());
        for (int k = 0; k < (int)qr.NumPoints(); ++k)
          MC_CHECK((v[i].Points().col(k) - edgeRef(r, i, qr.Points()(0, k))).norm() < 1e-12 && std::abs(v[i].Weights()[k] - len * qr.Weights()[k]) < 1e-12, "boundary-rule",
                   r.ToString() << " edge " << i << " degree " << p);
      }
    }
}
// ---- 4. essential conditions on traces and fluxes
void essential(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const idx ne = m->NumEntities(1);
  auto g = [](const Vec2& x) -> double { return 1 + x[0] * x[0] * x[1] - 2 * x[1]; };
  auto h = [](const Vec2& x) -> double { return 3 - x[1] * x[1] + x[0]; };
  std::vector<uint64_t> masks;
  if (ne <= 5)
    for (uint64_t b = 0; b < (1u << ne); ++b) masks.push_back(b);
  else {
    masks = {0, (1ull << ne) - 1, 0x5555555555ull & ((1ull << ne) - 1)};
    for (idx e = 0; e < ne; ++e) masks.push_back(1ull << e);
  }
  for (unsigned pt = 1; pt <= 3; ++pt)
    for (unsigned pf = 0; pf <= 2; ++pf)
      for (int ord = 0; ord < 3; ++ord) {
        std::vector<Comp> cs;
        idx it, iq;
        const Comp T{ord == 2 ? H1 : TRACE, pt}, F{FLUX, pf}, X{L2, 1};
        if (ord == 0) cs = {X, T, F}, it = 1, iq = 2;
        else if (ord == 1) cs = {F, X, T}, it = 2, iq = 0;
        else cs = {T, F}, it = 0, iq = 1;
        auto fes = space(m, cs);
        const auto& d = fes->LocGlobMap();
        for (size_t q = 0; q < masks.size(); ++q) {
          const uint64_t m1 = masks[q], m2 = masks[(q * 7 + 3) % masks.size()];
          const std::string tag = tag0 + " essential " + str(cs) + " masks " + std::to_string(m1) + "," + std::to_string(m2);
          mc::current(tag);
          if (mc::outcome(tag)) mc::states();
          mc::transitions();
          auto r = dpg::InitEssentialConditionsFromFunctions(
              *fes, it, iq, [&](const Entity& e) -> bool { return m1 >> m->Index(e) & 1; }, [&](const Entity& e) -> bool { return m2 >> m->Index(e) & 1; }, mu::MeshFunctionGlobal(g), mu::MeshFunctionGlobal(h));
          MC_CHECK(r.size() == d.NumDofs(), "essential-size", tag);
          std::vector<std::pair<bool, double>> w(d.NumDofs(), {false, 0.});
          for (const Entity* e : m->Entities(1))
            for (int k = 0; k < 2; ++k) {
              if (!((k ? m2 : m1) >> m->Index(*e) & 1)) continue;
              const idx comp = k ? iq : it;
              const auto& fe = *fes->ShapeFunctionLayout(RefEl::kSegment(), comp);
              const Mat X2 = e->Geometry()->Global(fe.EvaluationNodes());
              auto gl = vec(d.ComponentDofHandler(comp).GlobalDofIndices(*e));
              for (size_t a = 0; a < gl.size(); ++a) w[gl[a] + d.Offset(comp)] = {true, k ? h(X2.col(a)) : g(X2.col(a))};
            }
          for (size_t i = 0; i < w.size(); ++i)
            MC_CHECK(r[i].first == w[i].first && (!w[i].first || std::abs(r[i].second - w[i].second) < 1e-11), "essential", tag << " dof " << i);
        }
      }
}
// ---- 5. DPG matrices, vectors, estimators; solution of a Dirichlet problem in the space
void method(const std::shared_ptr<const Mesh>& m, const std::string& tag0, bool affine) {
  for (unsigned p = 1; p <= 3; ++p) {
    const unsigned r = std::min(3u, p + 1);
    auto fu = space(m, {{H1, p}, {FLUX, p - 1}}), fv = space(m, {{L2, r}});
    const std::string tag = tag0 + " DPG p=" + std::to_string(p);
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    auto one = mu::MeshFunctionConstant(1.);
    // -laplace u = f for a polynomial u of degree p
    auto u = [p](const Vec2& x) -> double { return p == 1 ? 1 + 2 * x[0] - x[1] : p == 2 ? x[0] * x[0] - 3 * x[0] * x[1] + x[1] : x[0] * x[0] * x[0] + x[0] * x[1] * x[1] - x[1]; };
    auto gu = [p](const Vec2& x) -> Vec2 {
      return p == 1 ? Vec2(2, -1) : p == 2 ? Vec2(2 * x[0] - 3 * x[1], 1 - 3 * x[0]) : Vec2(3 * x[0] * x[0] + x[1] * x[1], 2 * x[0] * x[1] - 1);
    };
    auto f = [p](const Vec2& x) -> double { return p == 1 ? 0 : p == 2 ? -2 : -8 * x[0]; };
    dpg::ProductElementMatrixProviderBuilder<double> sb(fu, fv), gb(fv, fv);
    sb.AddDiffusionElementMatrixProvider(0, 0, one);
    sb.AddFluxElementMatrixProvider(1, 0, -one);
    auto B = sb.Build();
    gb.AddDiffusionElementMatrixProvider(0, 0, one);
    gb.AddReactionElementMatrixProvider(0, 0, one);
    auto G = gb.Build();
    dpg::ProductElementVectorProviderBuilder<double> lb(fv);
    lb.AddLoadElementVectorProvider(0, mu::MeshFunctionGlobal(f));
    auto l = lb.Build();
    auto A = std::make_shared<dpg::DpgElementMatrixProvider<double>>(B, G);
    auto b = std::make_shared<dpg::DpgElementVectorProvider<double>>(l, B, G);
    const auto& d = fu->LocGlobMap();
    Vec x(d.NumDofs());
    for (idx i = 0; i < d.NumDofs(); ++i) x[i] = std::sin(1. + 3 * i);
    auto est = dpg::ElementErrorEstimators<double>(d, B, G, l, x);
    double sum = 0;
    for (const Entity* c : m->Entities(0)) {
      mc::transitions();
      const Mat b0 = B->Eval(*c), g0 = G->Eval(*c);
      const Vec l0 = l->Eval(*c);
      const Mat gi = g0.fullPivLu().inverse();
      const Mat a1 = b0.transpose() * gi * b0;
      const Vec v1 = b0.transpose() * gi * l0;
      MC_CHECK(A->isActive(*c) && b->isActive(*c), "active", tag);
      MC_CHECK((A->Eval(*c) - a1).cwiseAbs().maxCoeff() < 1e-7 * (1 + a1.cwiseAbs().maxCoeff()), "dpg-matrix", tag << " cell " << m->Index(*c));
      MC_CHECK((b->Eval(*c) - v1).cwiseAbs().maxCoeff() < 1e-7 * (1 + v1.cwiseAbs().maxCoeff()), "dpg-vector", tag << " cell " << m->Index(*c));
      Vec xl(b0.cols());
      auto gl = vec(d.GlobalDofIndices(*c));
      for (size_t i = 0; i < gl.size(); ++i) xl[i] = x[gl[i]];
      const Vec res = l0 - b0 * xl;
      const double e2 = res.dot(gi * res);
      MC_CHECK(std::abs(est(*c) * est(*c) - e2) < 1e-7 * (1 + e2), "estimator", tag << " cell " << m->Index(*c));
      sum += e2;
    }
    const double tot = dpg::EvalPosteriorError<double>(m, est);
    MC_CHECK(std::abs(tot * tot - sum) < 1e-6 * (1 + sum), "posterior", tag);
    if (!affine) continue;
    // exact solution lies in the trial space: DPG reproduces it, the estimator vanishes
    lf::assemble::COOMatrix<double> coo(d.NumDofs(), d.NumDofs());
    Vec phi = Vec::Zero(d.NumDofs());
    lf::assemble::AssembleMatrixLocally(0, d, d, *A, coo);
    lf::assemble::AssembleVectorLocally(0, d, *b, phi);
    Mat D = coo.makeDense();
    auto bd = mu::flagEntitiesOnBoundary(m, 1);
    auto ess = dpg::InitEssentialConditionsFromFunctions(
        *fu, 0, 1, [&](const Entity& e) -> bool { return bd(e); }, [](const Entity&) -> bool { return false; }, mu::MeshFunctionGlobal(u), mu::MeshFunctionConstant(0.));
    for (idx i = 0; i < d.NumDofs(); ++i)
      if (ess[i].first) {
        phi -= D.col(i) * ess[i].second;
        D.col(i).setZero();
        D.row(i).setZero();
        D(i, i) = 1;
        phi[i] = ess[i].second;
      }
    for (idx i = 0; i < d.NumDofs(); ++i)
      if (ess[i].first) phi[i] = ess[i].second;
    const Vec sol = p <= 2 ? Vec(D.fullPivLu().solve(phi)) : Vec();
    Vec want(d.NumDofs());
    // nodal values of u; flux: normal derivative w.r.t. the cell of larger index
    for (const Entity* c : m->Entities(0)) {
      const auto& fe = *fu->ShapeFunctionLayout(c->RefEl(), 0);
      const Mat X = c->Geometry()->Global(fe.EvaluationNodes());
      auto gl = vec(d.ComponentDofHandler(0).GlobalDofIndices(*c));
      for (size_t i = 0; i < gl.size(); ++i) want[gl[i]] = u(X.col(i));
      for (int i = 0; i < (int)c->RefEl().NumNodes(); ++i) {
        const Entity* e = c->SubEntities(1)[i];
        if (sgn(*m, *c, *e) < 0) continue;
        const auto& fq = *fu->ShapeFunctionLayout(RefEl::kSegment(), 1);
        const Mat XE = e->Geometry()->Global(fq.EvaluationNodes());
        auto el = vec(d.ComponentDofHandler(1).GlobalDofIndices(*e));
        for (size_t k = 0; k < el.size(); ++k) want[el[k] + d.Offset(1)] = normal(corners(*c), i).dot(gu(XE.col(k)));
      }
    }
    // the exact solution satisfies the discrete equations (for p=3 the test
    // space is no richer than the trial space, so they need not be uniquely solvable)
    const double rs = (D * want - phi).cwiseAbs().maxCoeff();
    MC_CHECK(rs < 1e-7 * (1 + phi.cwiseAbs().maxCoeff() + D.cwiseAbs().maxCoeff() * want.cwiseAbs().maxCoeff()), "consistency", tag << " residual " << rs);
    if (p <= 2) {
    mc::traces();
    const double err = (sol - want).cwiseAbs().maxCoeff();
    MC_CHECK(err < 1e-6 * (1 + want.cwiseAbs().maxCoeff()), "reproduction", tag << " error " << err << " got " << sol.transpose() << " want " << want.transpose());
    }
    auto e2 = dpg::ElementErrorEstimators<double>(d, B, G, l, want);
    for (const Entity* c : m->Entities(0)) MC_CHECK(!(e2(*c) > 1e-6), "estimator-zero", tag << " " << e2(*c));
  }
}
constexpr int NX = 6;
long count() {
  for (auto& d : largeDims(mc::thorough ? 80 : 20))
    for (int v : {0, 1, 3, 7, 9, 10}) M.push_back(large(d.nx, d.ny, d.kind, v));
  for (auto& s : meshes(mc::thorough, {kO1}))
    if (s.dim == 2) M.push_back(s);
  for (int k = 0; k < 8; ++k) {
    Spec s = topologies()[4];
    s.name = "2para";
    s.pts = {{0, 0}, {1, 0.1}, {1.3, 1.2}, {0.3, 1.1}, {2, 0.2}, {2.3, 1.3}};
    s.cells[0].n = dihedral(s.cells[0].n)[k];
    s.cells[0].geo = s.cells[1].geo = kPara;
    M.push_back(s);
  }
  return NX + M.size();
}
void item(long it) {
  if (it < 4) return latticeNormals(it);
  if (it == 4) return rules();
  if (it == 5) return constants(), shapes(buildMesh(topologies()[7 % topologies().size()]));
  const Spec& s = M[it - NX];
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  const auto L = letters();
  std::vector<std::vector<Comp>> seqs;
  for (auto& a : L) {
    seqs.push_back({a});
    for (auto& b : L) seqs.push_back({a, b});
  }
  // every order of kinds in products of three, degrees varying with position
  for (int k = 0; k < 64; ++k) seqs.push_back({{(Kind)(k % 4), 1}, {(Kind)(k / 4 % 4), 2}, {(Kind)(k / 16), 3}});
  for (size_t q = 0; q < seqs.size(); ++q) {
    if (isLarge(s) && q % 13) continue;
    Factory f(m);
    // the factory is used twice: first for another product
    auto& other = seqs[(q * 5 + 1) % seqs.size()];
    PSpace first;
    for (int round = 0; round < 2; ++round) {
      auto& cs = round ? seqs[q] : other;
      const std::string tag = s.str() + " " + str(cs) + (round ? " (second use of the factory)" : "");
      mc::current(tag);
      for (size_t c = 0; c < cs.size(); ++c) {
        MC_CHECK(f.NumComponents() == c, "factory-count", tag << " " << f.NumComponents() << " want " << c);
        const idx i = add(f, cs[c]);
        MC_CHECK(i == c, "factory-index", tag << " component " << c << " got " << i);
      }
      auto fes = f.Build();
      layout(m, cs, *fes, tag);
      if (round) blocks(m, first, fes, tag), blocks(m, fes, first, tag + " transposed");
      first = fes;
    }
  }
  handlers(m, s.str(), !isLarge(s) && (mc::thorough || m->NumEntities(0) == 1 || it % 3 == 0));
  normals(m, s.str());
  forms(m, s.str());
  essential(m, s.str());
  bool aff = true;
  for (const Entity* c : m->Entities(0)) aff = aff && c->Geometry()->isAffine();
  method(m, s.str(), aff);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
