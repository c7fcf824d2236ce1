// F03: nodal projection, essential boundary values and integration of mesh
// functions over selected entities.
#include "fe.h"
using namespace fh;
namespace {
namespace mu = lf::mesh::utils;
std::vector<Spec> M;
double SC = 1;  // magnitude of the data of the item (a power of two)
std::vector<uint64_t> masks(unsigned n, unsigned full) {
  std::vector<uint64_t> r;
  if (n >= 40) return {0, (1ull << 61) - 1, (1ull << 61) - 2, 0x5555555555555555ull, 0x1084210842108421ull, 1ull << 7, 1ull << 60};
  const uint64_t all = (1ull << n) - 1;
  if (n <= full) {
    for (uint64_t b = 0; b <= all; ++b) r.push_back(b);
    return r;
  }
  r = {0, all};
  for (unsigned e = 0; e < n; ++e) r.push_back(1ull << e), r.push_back(all & ~(1ull << e));
  for (unsigned e = 0; e + 1 < n; ++e) r.push_back(3ull << e);
  return r;
}
double mono(const Vec& x, int a, int b) {
  double r = x.size() > 2 ? 1 + 0.5 * x[2] : 1;
  for (int i = 0; i < a; ++i) r *= x[0];
  for (int i = 0; i < b; ++i) r *= x[1];
  return r;
}
void project(const Spec& s, const std::shared_ptr<const Mesh>& m, const NamedSpace& ns) {
  const std::string tag = s.str() + " " + ns.name;
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  const auto& fes = *ns.fes;
  const auto& dh = fes.LocGlobMap();
  const unsigned N = dh.NumDofs(), nc = m->NumEntities(0), ne = m->NumEntities(1);
  Eigen::VectorXd co(N);
  for (unsigned k = 0; k < N; ++k) co[k] = SC * (std::sin(1.3 * k + 0.4) + 0.1 * k + 2);
  lf::fe::MeshFunctionFE<double, double> U(ns.fes, co);
  // projection of a function of the space on any selection of cells
  for (auto mask : masks(nc, 4)) {
    mc::transitions();
    const Eigen::VectorXd w = lf::fe::NodalProjection(fes, U, [&](const Entity& e) { return on(mask, m->Index(e)); });
    Eigen::VectorXd want = Eigen::VectorXd::Zero(N);
    for (const Entity* c : m->Entities(0))
      if (on(mask, m->Index(*c)))
        for (auto k : dh.GlobalDofIndices(*c)) want[k] = co[k];
    MC_CHECK(w.size() == (long)N && (w - want).cwiseAbs().maxCoeff() < 1e-9 * SC, "projection", tag << " cells " << mask);
  }
  {
    const Eigen::VectorXd w = lf::fe::NodalProjection(fes, U);
    MC_CHECK(w.size() == (long)N && (w - co).cwiseAbs().maxCoeff() < 1e-9 * SC, "projection", tag << " all cells");
  }
  // polynomials on affine cells
  bool affine = true;
  for (const Entity* c : m->Entities(0)) affine = affine && c->Geometry()->isAffine();
  if (affine && s.dim == 2)
    for (int a = 0; a <= (int)ns.p; ++a)
      for (int b = 0; a + b <= (int)ns.p; ++b) {
        mu::MeshFunctionGlobal f([a, b](const Eigen::VectorXd& x) { return SC * mono(x, a, b); });
        const Eigen::VectorXd w = lf::fe::NodalProjection(fes, f);
        lf::fe::MeshFunctionFE<double, double> W(ns.fes, w);
        lf::fe::MeshFunctionGradFE<double, double> GW(ns.fes, w);
        mc::transitions();
        for (const Entity* c : m->Entities(0)) {
          const Mat x = pts(c->RefEl(), 3), X = c->Geometry()->Global(x);
          const auto v = W(*c, x);
          const auto g = GW(*c, x);
          for (int i = 0; i < x.cols(); ++i) {
            MC_CHECK(std::abs(v[i] - SC * mono(X.col(i), a, b)) < 1e-9 * SC, "polynomial", tag << " x^" << a << "y^" << b);
            const Eigen::Vector2d gr(a ? a * mono(X.col(i), a - 1, b) : 0., b ? b * mono(X.col(i), a, b - 1) : 0.);
            MC_CHECK((g[i] - SC * gr).norm() < 1e-7 * SC, "polynomial-gradient", tag << " x^" << a << "y^" << b << " got " << g[i].transpose() << " want " << gr.transpose());
          }
        }
      }
  // essential conditions on any selection of edges
  for (auto mask : masks(ne, mc::thorough ? 9 : 6)) {
    auto sel = [&](const Entity& e) { return on(mask, m->Index(e)); };
    mc::transitions();
    const auto r = lf::fe::InitEssentialConditionFromFunction(fes, sel, U);
    std::vector<bool> fixed(N, false);
    for (const Entity* e : m->Entities(1))
      if (sel(*e))
        for (int cd = 0; cd <= 1; ++cd)
          for (const Entity* q : e->SubEntities(cd))
            for (auto k : dh.InteriorGlobalDofIndices(*q)) fixed[k] = true;
    MC_CHECK(r.size() == N, "essential-size", tag);
    if (r.size() != N) continue;
    for (unsigned k = 0; k < N; ++k) {
      MC_CHECK(r[k].first == fixed[k], "essential-flag", tag << " edges " << mask << " dof " << k);
      if (r[k].first && fixed[k]) MC_CHECK(std::abs(r[k].second - co[k]) < 1e-9 * SC, "essential-value", tag << " edges " << mask << " dof " << k << " got " << r[k].second << " want " << co[k]);
    }
  }
  if (affine && s.dim == 2) {  // polynomial data: the imposed trace is the polynomial
    for (int a = 0; a <= (int)ns.p; ++a)
      for (int b = 0; a + b <= (int)ns.p; ++b) {
        mu::MeshFunctionGlobal f([a, b](const Eigen::VectorXd& x) { return SC * mono(x, a, b); });
        const auto bd = mu::flagEntitiesOnBoundary(m, 1);
        const auto r = lf::fe::InitEssentialConditionFromFunction(fes, [&](const Entity& e) { return bd(e); }, f);
        Eigen::VectorXd w(N);
        for (unsigned k = 0; k < N; ++k) w[k] = r[k].first ? r[k].second : 1e6 * SC;
        lf::fe::MeshFunctionFE<double, double> W(ns.fes, w);
        for (const Entity* e : m->Entities(1))
          if (bd(*e)) {
            const Mat x = pts(RefEl::kSegment(), 4), X = e->Geometry()->Global(x);
            const auto v = W(*e, x);
            for (int i = 0; i < x.cols(); ++i) MC_CHECK(std::abs(v[i] - SC * mono(X.col(i), a, b)) < 1e-9 * SC, "essential-trace", tag << " x^" << a << "y^" << b);
          }
      }
  }
}
// complex-valued Lagrange spaces
void complexSpaces(const Spec& s, const std::shared_ptr<const Mesh>& m) {
  using namespace lf::uscalfe;
  std::vector<std::shared_ptr<const lf::fe::ScalarFESpace<C>>> v{std::make_shared<FeSpaceLagrangeO1<C>>(m), std::make_shared<FeSpaceLagrangeO2<C>>(m), std::make_shared<FeSpaceLagrangeO3<C>>(m)};
  for (size_t p = 0; p < v.size(); ++p) {
    const std::string tag = s.str() + " complex O" + std::to_string(p + 1);
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    const unsigned N = v[p]->LocGlobMap().NumDofs();
    Eigen::VectorXcd co(N);
    for (unsigned k = 0; k < N; ++k) co[k] = SC * C(std::sin(1.3 * k), 1 + 0.2 * k);
    lf::fe::MeshFunctionFE<C, C> U(v[p], co);
    const Eigen::VectorXcd w = lf::fe::NodalProjection(*v[p], U);
    mc::transitions();
    MC_CHECK(w.size() == (long)N && (w - co).cwiseAbs().maxCoeff() < 1e-9 * SC, "projection", tag);
    const auto r = lf::fe::InitEssentialConditionFromFunction(*v[p], [](const Entity&) { return true; }, U);
    for (unsigned k = 0; k < N; ++k) {
      const Entity& e = v[p]->LocGlobMap().Entity(k);
      MC_CHECK(r[k].first == (e.Codim() > 0), "essential-flag", tag);
      if (r[k].first) MC_CHECK(std::abs(r[k].second - co[k]) < 1e-9 * SC, "essential-value", tag);
    }
  }
}
template <class T>
double dist(const T& a, const T& b) {
  if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, C>) return std::abs(a - b);
  else {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
    return (a - b).norm();
  }
}
template <class T>
T scale(double w, const T& v) {
  return w * v;
}
template <class F>
void integrate(const Spec& s, const std::shared_ptr<const Mesh>& m, const std::string& what, F f0, unsigned degree, unsigned maxfull) {
  using T = decltype(f0(Eigen::VectorXd()));
  auto f = [f0](const Eigen::VectorXd& x) -> T { return scale(SC, f0(x)); };
  mu::MeshFunctionGlobal mf(f);
  for (int cd = 0; cd <= 1; ++cd) {
    const unsigned n = m->NumEntities(cd);
    // reference integrals per entity
    std::vector<T> I;
    for (unsigned e = 0; e < n; ++e) {
      const Entity& en = *m->EntityByIndex(cd, e);
      const auto q = refQuad(en.RefEl(), 9);
      const Mat X = en.Geometry()->Global(q.x), J = en.Geometry()->Jacobian(q.x);
      const int dl = en.RefEl().Dimension();
      T sum = scale(0., f(X.col(0)));
      for (int i = 0; i < q.w.size(); ++i) {
        const Mat Ji = J.middleCols(dl * i, dl);
        sum = T(sum + scale(q.w[i] * std::sqrt((Ji.transpose() * Ji).determinant()), f(X.col(i))));
      }
      I.push_back(sum);
    }
    auto cmp = [&](const T& got, uint64_t mask, const char* how) {
      T w = scale(0., I[0]);
      for (unsigned e = 0; e < n; ++e)
        if (on(mask, e)) w = T(w + I[e]);
      mc::transitions();
      MC_CHECK(dist<T>(got, w) < 1e-10 * SC, "integral", mc::current() << " " << how << " codim " << cd << " entities " << mask);
    };
    const uint64_t all = n >= 61 ? (1ull << 61) - 1 : (1ull << n) - 1;
    mc::current(s.str() + " integrate " + what);
    if (mc::outcome(mc::current() + std::to_string(cd))) mc::states();
    for (auto mask : masks(n, maxfull)) {
      auto sel = [&](const Entity& e) { return on(mask, m->Index(e)); };
      cmp(lf::fe::IntegrateMeshFunction(*m, mf, (int)degree, sel, cd), mask, "degree");
      auto qs = [&](const Entity& e) { return lf::quad::make_QuadRule(e.RefEl(), degree + m->Index(e) % 3); };
      cmp(lf::fe::IntegrateMeshFunction(*m, mf, qs, sel, cd), mask, "selector");
    }
    if (cd == 0) cmp(lf::fe::IntegrateMeshFunction(*m, mf, (int)degree), all, "default");
  }
}
long count() {
  M = meshes(mc::thorough, {kO1, kO2, kNone});
  // affine quadrilaterals
  for (int k = 0; k < 8; ++k) {
    Spec s = topologies()[4];
    s.name = "2para";
    s.pts = {{0, 0}, {1, 0.1}, {1.3, 1.2}, {0.3, 1.1}, {2, 0.2}, {2.3, 1.3}};
    s.cells[0].n = dihedral(s.cells[0].n)[k];
    s.cells[0].geo = s.cells[1].geo = kPara;
    M.push_back(s);
  }
  for (auto& s : largeSpecs(mc::thorough ? 1100 : 150, mc::thorough ? 6 : 2)) M.push_back(s);
  return M.size();
}
void item(long it) {
  const Spec& s = M[it];
  SC = it % 2 ? std::ldexp(1., -60) : 1.;
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  bool none = false, curved = false;
  for (auto& c : s.cells) none = none || c.geo == kNone, curved = curved || c.geo == kO2;
  if (!none || it % 2 == 0) {
    for (auto& ns : spaces(m, mc::thorough)) project(s, m, ns);
    complexSpaces(s, m);
  }
  // polynomial integrands; the metric factor is a polynomial in 2D
  if (s.dim != 2) return;
  bool flat = true;  // edges of curved meshes have a non-polynomial length element
  const unsigned extra = curved ? 24 : 0;
  (void)flat;
  auto g = [](const Eigen::VectorXd& x) { return 1 + x[0] - 0.4 * x[0] * x[1] + x[1] * x[1]; };
  const unsigned d = 2 * 2 + 1 + (curved ? 4 : 0) + extra, full = mc::thorough ? 8 : 5;
  if (!curved) {
    integrate(s, m, "double", [=](const Eigen::VectorXd& x) -> double { return g(x); }, d, full);
    integrate(s, m, "complex", [=](const Eigen::VectorXd& x) -> C { return C(g(x), x[0]); }, d, full);
    integrate(s, m, "vec2", [=](const Eigen::VectorXd& x) -> Eigen::Vector2d { return Eigen::Vector2d(g(x), x[1] - 3); }, d, full);
    integrate(s, m, "mat23", [=](const Eigen::VectorXd& x) -> Eigen::Matrix<double, 2, 3> { return (Eigen::Matrix<double, 2, 3>() << g(x), x[1] - 3, 1, 2 * x[0], 0.3, x[0] * x[1]).finished(); }, d, full);
    integrate(s, m, "rowmajor", [=](const Eigen::VectorXd& x) -> Eigen::Matrix<double, 2, 3, Eigen::RowMajor> { return (Eigen::Matrix<double, 2, 3, Eigen::RowMajor>() << g(x), x[1] - 3, 1, 2 * x[0], 0.3, x[0] * x[1]).finished(); }, d, full);
    integrate(s, m, "cmat2", [=](const Eigen::VectorXd& x) -> Eigen::Matrix2cd { return (Eigen::Matrix2cd() << C(g(x), 1), x[1] - 3, C(0, x[0]), 2 * x[0]).finished(); }, d, full);
    integrate(s, m, "vecX", [=](const Eigen::VectorXd& x) -> Eigen::VectorXd { return (Eigen::VectorXd(3) << g(x), x[1] - 3, 7).finished(); }, d, full);
    integrate(s, m, "matX", [=](const Eigen::VectorXd& x) -> Eigen::MatrixXd { return (Eigen::MatrixXd(2, 2) << g(x), x[1] - 3, 7, x[0]).finished(); }, d, full);
  } else {
    integrate(s, m, "double", [=](const Eigen::VectorXd& x) -> double { return g(x); }, d, full);
  }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
