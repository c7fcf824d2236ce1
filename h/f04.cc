// F04: local element matrices and vectors of the provided bilinear and linear
// forms against an independent evaluation of the integrals.
#include "fe.h"
using namespace fh;
namespace {
namespace mu = lf::mesh::utils;
std::vector<Spec> M;
double SC = 1, H = 1;  // magnitude of the coefficients and of the mesh of the item (powers of two)
using CMat = Eigen::MatrixXcd;
using CVec = Eigen::VectorXcd;
double vol(const Mat& J) { return std::sqrt((J.transpose() * J).determinant()); }
// form: value at a reference point from (shape values, physical gradients, world point)
template <class F>
CMat integral(const Entity& e, const SFE<double>& fe, const Mat& qx, const Vec& qw, F form) {
  const auto& g = *e.Geometry();
  const int dl = e.RefEl().Dimension();
  const Mat X = g.Global(qx), J = g.Jacobian(qx), V = fe.EvalReferenceShapeFunctions(qx), G = fe.GradientsReferenceShapeFunctions(qx);
  CMat r;
  for (int i = 0; i < qw.size(); ++i) {
    const Mat Ji = J.middleCols(dl * i, dl);
    const Mat T = Ji * (Ji.transpose() * Ji).inverse();
    const Mat gr = T * G.middleCols(dl * i, dl).transpose();  // world_dim x n
    const CMat v = form(Vec(V.col(i)), gr, Vec(X.col(i))) * (qw[i] * vol(Ji));
    if (i == 0) r = v;
    else r += v;
  }
  return r;
}
template <class T>
CMat C_(const T& m) {
  return m.template cast<C>();
}
template <class A>
CMat alphaTimes(const A& a, const CMat& g) {
  if constexpr (std::is_arithmetic_v<A> || std::is_same_v<A, C>) return C(a) * g;
  else return C_(a) * g;
}
bool same(const CMat& a, const CMat& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * std::max(SC * H * H, b.cwiseAbs().maxCoeff());
}
// compare with the quadrature rule the documentation promises and, if the
// integrand is a polynomial covered by it, with the exact integral
template <class R, class F>
void cmp(const R& got, const Entity& e, const SFE<double>& fe, F form, bool exact, const std::string& key, const std::string& tag) {
  const auto qr = lf::quad::make_QuadRule(e.RefEl(), 2 * fe.Degree());
  const CMat w = integral(e, fe, qr.Points(), qr.Weights(), form), gg = C_(got);
  mc::transitions();
  MC_CHECK(same(gg, w), key, tag << " " << e.RefEl().ToString() << " got\n" << gg << "\nwant\n" << w);
  if (exact) {
    const auto q = refQuad(e.RefEl(), fe.Degree() + 3);
    const CMat x = integral(e, fe, q.x, q.w, form);
    MC_CHECK(same(gg, x), key + "-exact", tag << " " << e.RefEl().ToString() << " got\n" << gg << "\nwant\n" << x);
  }
}
template <class R, class F>
void cmpRule(const R& got, const Entity& e, const SFE<double>& fe, const lf::quad::QuadRule& qr, F form, const std::string& key, const std::string& tag) {
  const CMat w = integral(e, fe, qr.Points(), qr.Weights(), form), gg = C_(got);
  mc::transitions();
  MC_CHECK(same(gg, w), key, tag << " (given rule) " << e.RefEl().ToString() << " got\n" << gg << "\nwant\n" << w);
}
bool straight(const Entity& e) { return e.Geometry()->isAffine(); }
template <class MF, class A>
void diffusion(const std::shared_ptr<const Mesh>& m, const NamedSpace& ns, const std::string& tag0, const char* kind, MF mf, A a, bool constant) {
  const std::string tag = tag0 + " diffusion " + kind;
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  lf::fe::DiffusionElementMatrixProvider p(ns.fes, mf);
  for (const Entity* c : m->Entities(0)) {
    MC_CHECK(p.isActive(*c), "active", tag);
    cmp(p.Eval(*c), *c, *ns.fes->ShapeFunctionLayout(*c), [&](const Vec&, const Mat& g, const Vec& x) -> CMat { return C_(g).transpose() * alphaTimes(a(x), C_(g)); },
        constant && straight(*c), "diffusion", tag + " cell " + std::to_string(m->Index(*c)));
  }
}
template <class MF, class A>
void mass(const std::shared_ptr<const Mesh>& m, const NamedSpace& ns, const std::string& tag0, const char* kind, MF mf, A a, bool constant) {
  const std::string tag = tag0 + " mass " + kind;
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  lf::fe::MassElementMatrixProvider p(ns.fes, mf);
  auto form = [&](const Vec& v, const Mat&, const Vec& x) -> CMat { return C(a(x)) * C_(v) * C_(v).transpose(); };
  for (const Entity* c : m->Entities(0)) {
    MC_CHECK(p.isActive(*c), "active", tag);
    cmp(p.Eval(*c), *c, *ns.fes->ShapeFunctionLayout(*c), form, constant && straight(*c), "mass", tag + " cell " + std::to_string(m->Index(*c)));
  }
  for (unsigned sel = 0; sel < 3; ++sel) {
    auto s = [m, sel](const Entity& e) { return m->Index(e) % 3 == sel; };
    lf::fe::MassEdgeMatrixProvider q(ns.fes, mf, s);
    lf::fe::MassEdgeMatrixProvider q0(ns.fes, mf);
    for (const Entity* e : m->Entities(1)) {
      MC_CHECK(q.isActive(*e) == s(*e) && q0.isActive(*e), "active", tag << " edge " << m->Index(*e));
      if (s(*e)) cmp(q.Eval(*e), *e, *ns.fes->ShapeFunctionLayout(*e), form, constant && straight(*e), "mass-edge", tag + " edge " + std::to_string(m->Index(*e)));
    }
  }
}
template <class MF, class A>
void load(const std::shared_ptr<const Mesh>& m, const NamedSpace& ns, const std::string& tag0, const char* kind, MF mf, A a, bool poly) {
  const std::string tag = tag0 + " load " + kind;
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  lf::fe::ScalarLoadElementVectorProvider p(ns.fes, mf);
  auto form = [&](const Vec& v, const Mat&, const Vec& x) -> CMat { return C(a(x)) * C_(v); };
  for (const Entity* c : m->Entities(0)) {
    MC_CHECK(p.isActive(*c), "active", tag);
    cmp(p.Eval(*c), *c, *ns.fes->ShapeFunctionLayout(*c), form, poly && straight(*c), "load", tag + " cell " + std::to_string(m->Index(*c)));
  }
  for (unsigned sel = 0; sel < 3; ++sel) {
    auto s = [m, sel](const Entity& e) { return m->Index(e) % 3 == sel; };
    lf::fe::ScalarLoadEdgeVectorProvider q(ns.fes, mf, s);
    lf::fe::ScalarLoadEdgeVectorProvider q0(ns.fes, mf);
    for (const Entity* e : m->Entities(1)) {
      MC_CHECK(q.isActive(*e) == s(*e) && q0.isActive(*e), "active", tag << " edge " << m->Index(*e));
      if (s(*e)) cmp(q.Eval(*e), *e, *ns.fes->ShapeFunctionLayout(*e), form, poly && straight(*e), "load-edge", tag + " edge " + std::to_string(m->Index(*e)));
    }
  }
}
// ---- the providers of lf::uscalfe
template <class S, class MA, class A, class MG, class G>
void uniform(const std::shared_ptr<const Mesh>& m, std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>> fs, const NamedSpace& ref, const std::string& tag0, const char* kind, MA ma, A a, MG mg,
             G g, bool constant) {
  const std::string tag = tag0 + " uniform " + kind;
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  using lf::quad::QuadRule;
  std::map<RefEl, QuadRule> rules{{RefEl::kTria(), lf::quad::make_QuadRule(RefEl::kTria(), 3)}, {RefEl::kQuad(), lf::quad::make_QuadRule(RefEl::kQuad(), 6)}};
  const QuadRule er = lf::quad::make_QuadRule(RefEl::kSegment(), 4);
  auto rd = [&](const Vec& v, const Mat& gr, const Vec& x) -> CMat {
    return C_(gr).transpose() * alphaTimes(a(x), C_(gr)) + C(g(x)) * C_(v) * C_(v).transpose();
  };
  auto ms_ = [&](const Vec& v, const Mat&, const Vec& x) -> CMat { return C(g(x)) * C_(v) * C_(v).transpose(); };
  auto ld = [&](const Vec& v, const Mat&, const Vec& x) -> CMat { return C(g(x)) * C_(v); };
  lf::uscalfe::ReactionDiffusionElementMatrixProvider p(fs, ma, mg);
  lf::uscalfe::ReactionDiffusionElementMatrixProvider pr(fs, ma, mg, rules);
  lf::uscalfe::ScalarLoadElementVectorProvider<S, MG> l(fs, mg), lr(fs, mg, rules);
  for (const Entity* c : m->Entities(0)) {
    const std::string t = tag + " cell " + std::to_string(m->Index(*c));
    const auto& fe = *ref.fes->ShapeFunctionLayout(*c);
    MC_CHECK(p.isActive(*c) && pr.isActive(*c) && l.isActive(*c) && lr.isActive(*c), "active", tag);
    cmp(p.Eval(*c), *c, fe, rd, constant && straight(*c), "reaction-diffusion", t);
    cmpRule(pr.Eval(*c), *c, fe, rules.at(c->RefEl()), rd, "reaction-diffusion", t);
    cmp(l.Eval(*c), *c, fe, ld, constant && straight(*c), "uniform-load", t);
    cmpRule(lr.Eval(*c), *c, fe, rules.at(c->RefEl()), ld, "uniform-load", t);
  }
  for (unsigned sel = 0; sel < 3; ++sel) {
    auto s = [m, sel](const Entity& e) { return m->Index(e) % 3 == sel; };
    using SL = decltype(s);
    lf::uscalfe::MassEdgeMatrixProvider<S, MG, SL> q(fs, mg, s), qq(fs, mg, er, s);
    lf::uscalfe::ScalarLoadEdgeVectorProvider<S, MG, SL> b(fs, mg, s), bb(fs, mg, er, s);
    lf::uscalfe::MassEdgeMatrixProvider q0(fs, mg);
    lf::uscalfe::ScalarLoadEdgeVectorProvider b0(fs, mg);
    for (const Entity* e : m->Entities(1)) {
      const std::string t = tag + " edge " + std::to_string(m->Index(*e));
      MC_CHECK(q.isActive(*e) == s(*e) && qq.isActive(*e) == s(*e) && b.isActive(*e) == s(*e) && bb.isActive(*e) == s(*e) && q0.isActive(*e) && b0.isActive(*e), "active", t);
      if (!s(*e)) continue;
      const auto& fe = *ref.fes->ShapeFunctionLayout(*e);
      cmp(q.Eval(*e), *e, fe, ms_, constant && straight(*e), "uniform-mass-edge", t);
      cmp(b.Eval(*e), *e, fe, ld, constant && straight(*e), "uniform-load-edge", t);
      cmpRule(qq.Eval(*e), *e, fe, er, ms_, "uniform-mass-edge", t);
      cmpRule(bb.Eval(*e), *e, fe, er, ld, "uniform-load-edge", t);
    }
  }
}
void linear(const Spec& s, const std::shared_ptr<const Mesh>& m, const NamedSpace& o1) {
  mc::current(s.str() + " linear fe");
  if (mc::outcome(mc::current())) mc::states();
  lf::uscalfe::LinearFELaplaceElementMatrix p;
  auto f = [](const Eigen::VectorXd& x) -> double { return SC * (std::exp(x[0]) + x[1]); };
  mu::MeshFunctionGlobal mf(f);
  lf::uscalfe::LinearFELocalLoadVector<double, decltype(mf)> l(mf);
  for (const Entity* c : m->Entities(0)) {
    const int n = c->RefEl().NumNodes();
    const std::string t = s.str() + " cell " + std::to_string(m->Index(*c));
    const Mat P = lf::geometry::Corners(*c->Geometry());
    // stiffness matrix of the cell with straight edges through the corners
    const auto q = refQuad(c->RefEl(), 2);
    const auto& fe = *o1.fes->ShapeFunctionLayout(*c);
    Mat W = Mat::Zero(n, n);
    const Mat G = fe.GradientsReferenceShapeFunctions(q.x);
    for (int i = 0; i < q.w.size(); ++i) {
      const Mat gi = G.middleCols(2 * i, 2);
      const Mat J = P * gi;
      const Mat ph = J * (J.transpose() * J).inverse() * gi.transpose();
      W += q.w[i] * vol(J) * ph.transpose() * ph;
    }
    MC_CHECK(p.isActive(*c) && l.isActive(*c), "active", t);
    const auto A = p.Eval(*c);
    mc::transitions();
    MC_CHECK((A.topLeftCorner(n, n) - W).norm() < 1e-10, "linear-laplace", t << " got\n" << A << "\nwant\n" << W);
    const auto b = l.Eval(*c);
    Vec w = Vec::Zero(n);
    Mat mid(2, n);
    const Mat rc = c->RefEl().NodeCoords();
    for (int k = 0; k < n; ++k) mid.col(k) = 0.5 * (rc.col(k) + rc.col((k + 1) % n));
    const Mat X = c->Geometry()->Global(mid);
    const double area = lf::geometry::Volume(*c->Geometry());
    for (int k = 0; k < n; ++k) {
      w[k] += 0.5 * area / n * f(X.col(k));
      w[(k + 1) % n] += 0.5 * area / n * f(X.col(k));
    }
    mc::transitions();
    MC_CHECK((b.head(n) - w).norm() < 1e-11 * (SC * H * H + w.norm()), "linear-load", t << " got " << b.transpose() << " want " << w.transpose());
  }
}
#if PART == 4
// overwrite whatever was released before
struct Scramble {
  std::vector<std::unique_ptr<unsigned char[]>> b;
  void operator()() {
    for (size_t n = 24; n <= 280; n += 16)
      for (int i = 0; i < 100; ++i) {
        b.emplace_back(new unsigned char[n]);
        std::fill_n(b.back().get(), n, 0x41 + i % 50);
      }
  }
};
// An object that was given (shared ownership of) a space gives the same results
// when nobody else uses the space any more, also after it was moved.
template <class MkSpace, class MkProv>
void survives(const std::shared_ptr<const Mesh>& m, const std::string& tag, unsigned codim, MkSpace mkSpace, MkProv mk) {
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  std::vector<Mat> want;
  {
    auto fes = mkSpace();
    auto p = mk(fes);
    for (const Entity* e : m->Entities(codim)) want.push_back(p.Eval(*e));
  }
  using P = decltype(mk(mkSpace()));
  auto fes = mkSpace();
  auto p = std::make_unique<P>(mk(fes));
  fes.reset();
  Scramble sc;
  sc();
  unsigned k = 0;
  for (const Entity* e : m->Entities(codim)) {
    MC_CHECK(Mat(p->Eval(*e)) == want[k], "survives", tag << " entity " << k);
    ++k;
  }
  mc::transitions(k);
  if constexpr (std::is_move_constructible_v<P>) {
    auto q = std::make_unique<P>(std::move(*p));
    p.reset();
    sc();
    k = 0;
    for (const Entity* e : m->Entities(codim)) {
      MC_CHECK(Mat(q->Eval(*e)) == want[k], "survives-move", tag << " entity " << k);
      ++k;
    }
    mc::transitions(k);
  }
  mc::traces();
}
template <class MF>
struct Values {  // a mesh function as a "provider"
  MF f;
  Mat Eval(const Entity& e) const {
    const Mat x = refQuad(e.RefEl(), 2).x;
    const auto v = f(e, x);
    Mat r(1, 0);
    for (auto& y : v) {
      Mat w(1, 1);
      if constexpr (std::is_same_v<std::decay_t<decltype(y)>, double>)
        w(0, 0) = y;
      else
        w = y.transpose();
      Mat n(1, r.cols() + w.cols());
      n << r, w;
      r = n;
    }
    return r;
  }
};
void lifetimes(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  auto fun = [](const Eigen::VectorXd& x) -> double { return 2 + x[0] - 3 * x[0] * x[1]; };
  const mu::MeshFunctionGlobal mf(fun);
  const mu::MeshFunctionConstant mc_(1.75);
  auto both = [&](const std::string& tag, auto mkS) {
    auto vec = [](const auto& s) {
      Vec c(s->LocGlobMap().NumDofs());
      for (int i = 0; i < c.size(); ++i) c[i] = 1 + i * i % 7;
      return c;
    };
    survives(m, tag + " diffusion", 0, mkS, [&](auto s) { return lf::fe::DiffusionElementMatrixProvider(s, mf); });
    survives(m, tag + " mass", 0, mkS, [&](auto s) { return lf::fe::MassElementMatrixProvider(s, mf); });
    survives(m, tag + " mass-edge", 1, mkS, [&](auto s) { return lf::fe::MassEdgeMatrixProvider(s, mf); });
    survives(m, tag + " load", 0, mkS, [&](auto s) { return lf::fe::ScalarLoadElementVectorProvider(s, mf); });
    survives(m, tag + " load-edge", 1, mkS, [&](auto s) { return lf::fe::ScalarLoadEdgeVectorProvider(s, mf); });
    survives(m, tag + " value", 0, mkS, [&](auto s) { return Values<decltype(lf::fe::MeshFunctionFE(s, vec(s)))>{lf::fe::MeshFunctionFE(s, vec(s))}; });
    survives(m, tag + " gradient", 0, mkS, [&](auto s) { return Values<decltype(lf::fe::MeshFunctionGradFE(s, vec(s)))>{lf::fe::MeshFunctionGradFE(s, vec(s))}; });
  };
  for (unsigned p : {1u, 3u, 4u}) both(tag0 + " H" + std::to_string(p), [&] { return std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(m, p); });
  auto lagr = [&](const std::string& tag, auto mkS) {
    both(tag, mkS);
    survives(m, tag + " uniform reaction-diffusion", 0, mkS, [&](auto s) { return lf::uscalfe::ReactionDiffusionElementMatrixProvider(s, mf, mc_); });
    survives(m, tag + " uniform mass-edge", 1, mkS, [&](auto s) { return lf::uscalfe::MassEdgeMatrixProvider(s, mf); });
    survives(m, tag + " uniform load", 0, mkS, [&](auto s) { return lf::uscalfe::ScalarLoadElementVectorProvider(s, mf); });
    survives(m, tag + " uniform load-edge", 1, mkS, [&](auto s) { return lf::uscalfe::ScalarLoadEdgeVectorProvider(s, mf); });
  };
  using namespace lf::uscalfe;
  lagr(tag0 + " O1", [&] { return std::make_shared<FeSpaceLagrangeO1<double>>(m); });
  lagr(tag0 + " O2", [&] { return std::make_shared<FeSpaceLagrangeO2<double>>(m); });
  lagr(tag0 + " O3", [&] { return std::make_shared<FeSpaceLagrangeO3<double>>(m); });
}
#endif
long count() {
  M = meshes(mc::thorough, {kO1, kO2, kNone});
  for (int k = 0; k < 8; ++k) {  // affine quadrilaterals
    Spec s = topologies()[4];
    s.name = "2para";
    s.pts = {{0, 0}, {1, 0.1}, {1.3, 1.2}, {0.3, 1.1}, {2, 0.2}, {2.3, 1.3}};
    s.cells[0].n = dihedral(s.cells[0].n)[k];
    s.cells[0].geo = s.cells[1].geo = kPara;
    M.push_back(s);
  }
  for (auto& s : largeSpecs(mc::thorough ? 300 : 72, 1))
    if (s.pts.size() > 20 && s.name.find("k3") == std::string::npos && s.name.find("k4") == std::string::npos) M.push_back(s);
  return M.size();
}
void item(long it) {
  Spec s = M[it];
  SC = it % 2 ? std::ldexp(1., -60) : 1.;
  H = it % 3 == 1 && !isLarge(s) ? std::ldexp(1., -20) : 1.;
  if (H != 1) {
    s.name += "*2^-20";
    for (auto& q : s.pts) q *= H;
  }
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
#if PART == 4
  if (it % 3 == 0 && !isLarge(s)) lifetimes(m, s.str());
  return;
#else
  const int d = s.dim;
  auto cst = [](const Eigen::VectorXd&) -> double { return SC * 1.75; };
  auto cc = [](const Eigen::VectorXd&) -> C { return SC * C(0.5, -2); };
  auto fun = [](const Eigen::VectorXd& x) -> double { return SC * (2 + std::sin(x[0] + 2 * x[1])); };
  auto cfun = [](const Eigen::VectorXd& x) -> C { return SC * C(2 + x[0], x[1] * x[0]); };
  Mat T0(d, d);
  for (int i = 0; i < d; ++i)
    for (int j = 0; j < d; ++j) T0(i, j) = SC * ((i == j ? 2 : 0) + 0.25 * i - 0.5 * j);  // not symmetric
  auto ten = [T0](const Eigen::VectorXd&) -> Eigen::MatrixXd { return T0; };
  auto tfun = [T0](const Eigen::VectorXd& x) -> Eigen::MatrixXd { return T0 * (1 + x[0] * x[0]) + Mat::Identity(T0.rows(), T0.cols()) * (SC * x[1]); };
  auto t2 = [](const Eigen::VectorXd& x) -> Eigen::Matrix2d { return SC * (Eigen::Matrix2d() << 2, -1, 0.5, 3 + x[0]).finished(); };
  auto sp = spaces(m, mc::thorough);
  for (auto& ns : sp) {
    const std::string tag = s.str() + " " + ns.name;
#if PART == 0
    diffusion(m, ns, tag, "const", mu::MeshFunctionConstant(SC * 1.75), cst, true);
    diffusion(m, ns, tag, "complex", mu::MeshFunctionConstant(SC * C(0.5, -2)), cc, true);
    diffusion(m, ns, tag, "function", mu::MeshFunctionGlobal(fun), fun, false);
    diffusion(m, ns, tag, "tensor", mu::MeshFunctionGlobal(ten), ten, true);
    diffusion(m, ns, tag, "tensor-function", mu::MeshFunctionGlobal(tfun), tfun, false);
    if (d == 2) diffusion(m, ns, tag, "tensor2", mu::MeshFunctionGlobal(t2), t2, false);
#elif PART == 1
    mass(m, ns, tag, "const", mu::MeshFunctionConstant(SC * 1.75), cst, true);
    mass(m, ns, tag, "function", mu::MeshFunctionGlobal(fun), fun, false);
    mass(m, ns, tag, "complex-function", mu::MeshFunctionGlobal(cfun), cfun, false);
    load(m, ns, tag, "const", mu::MeshFunctionConstant(SC * 1.75), cst, true);
    load(m, ns, tag, "function", mu::MeshFunctionGlobal(fun), fun, false);
    load(m, ns, tag, "complex-function", mu::MeshFunctionGlobal(cfun), cfun, false);
#endif
  }
#if PART >= 2
  using namespace lf::uscalfe;
  const std::string tag = s.str();
  std::vector<std::shared_ptr<const UniformScalarFESpace<double>>> u{std::make_shared<FeSpaceLagrangeO1<double>>(m), std::make_shared<FeSpaceLagrangeO2<double>>(m),
                                                                      std::make_shared<FeSpaceLagrangeO3<double>>(m)};
  std::vector<std::shared_ptr<const UniformScalarFESpace<C>>> uc{std::make_shared<FeSpaceLagrangeO1<C>>(m), std::make_shared<FeSpaceLagrangeO2<C>>(m),
                                                                 std::make_shared<FeSpaceLagrangeO3<C>>(m)};
  for (int p = 0; p < 3; ++p) {
    const std::string tp = tag + " O" + std::to_string(p + 1);
#if PART == 2
    uniform<double>(m, u[p], sp[p], tp, "const", mu::MeshFunctionConstant(SC * 1.75), cst, mu::MeshFunctionGlobal(cst), cst, true);
    uniform<double>(m, u[p], sp[p], tp, "tensor/function", mu::MeshFunctionGlobal(tfun), tfun, mu::MeshFunctionGlobal(fun), fun, false);
#else
    uniform<double>(m, u[p], sp[p], tp, "complex", mu::MeshFunctionGlobal(cfun), cfun, mu::MeshFunctionGlobal(cfun), cfun, false);
    uniform<C>(m, uc[p], sp[p], tp + " complex space", "complex", mu::MeshFunctionConstant(SC * C(0.5, -2)), cc, mu::MeshFunctionGlobal(cfun), cfun, false);
#endif
  }
  if (d == 2 && PART == 2) linear(s, m, sp[0]);
#endif
#endif
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
