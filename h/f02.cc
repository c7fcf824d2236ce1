// F02: finite element functions: global basis functions are single valued on
// common edges and nodes, values and gradients are the combinations of the
// local shape functions.
#include "fe.h"
using namespace fh;
namespace {
std::vector<Spec> M;
Mat edgePts() {
  Mat t(1, 7);
  t << 0, 0.125, 0.3, 0.5, 0.6, 0.875, 1;
  return t;
}
void space(const std::string& base, const std::shared_ptr<const Mesh>& m, const NamedSpace& ns) {
  const std::string tag = base + " " + ns.name;
  mc::current(tag);
  const auto& fes = *ns.fes;
  const auto& dh = fes.LocGlobMap();
  if (mc::outcome(tag)) mc::states();
  MC_CHECK(fes.Mesh() == m && dh.Mesh() == m, "mesh", tag);
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const auto* fe = fes.ShapeFunctionLayout(*e);
      MC_CHECK(fe != nullptr && fe->RefEl() == e->RefEl(), "layout", tag);
      if (!fe) return;
      MC_CHECK(fe->NumRefShapeFunctions() == dh.NumLocalDofs(*e), "num-local", tag << " codim " << cd << " idx " << m->Index(*e));
      MC_CHECK(fes.NumRefShapeFunctions(*e) == dh.NumInteriorDofs(*e), "num-interior", tag << " codim " << cd << " idx " << m->Index(*e) << " got " << fes.NumRefShapeFunctions(*e));
    }
  const unsigned N = dh.NumDofs();
  // --- every global basis function, as a finite element function
  // (large meshes: functions with all / every third / every seventh coefficient different from zero)
  const bool lg = base.rfind("large", 0) == 0;
  for (unsigned k = 0; k < (lg ? 3 : N); ++k) {
    Eigen::VectorXd u = Eigen::VectorXd::Unit(N, k);
    if (lg)
      for (unsigned i = 0; i < N; ++i) u[i] = i % (k == 0 ? 1 : k == 1 ? 3 : 7) ? 0. : 0.3 + std::sin(1.1 * i);
    lf::fe::MeshFunctionFE<double, double> U(ns.fes, u);
    mc::transitions();
    const std::string tk = tag + " basis function " + std::to_string(k);
    for (const Entity* c : m->Entities(0)) {
      const Mat rc = c->RefEl().NodeCoords();
      const int nc = rc.cols();
      auto ed = c->SubEntities(1);
      auto nd = c->SubEntities(2);
      for (int e = 0; e < nc; ++e) {
        const Mat t = edgePts();
        Mat x(2, t.cols());
        // direction of the edge seen from the cell: by its end nodes
        const bool neg = ed[e]->SubEntities(1)[0] != nd[e];
        for (int i = 0; i < t.cols(); ++i) x.col(i) = rc.col(e) + (rc.col((e + 1) % nc) - rc.col(e)) * (neg ? 1 - t(0, i) : t(0, i));
        const auto a = U(*c, x), b = U(*ed[e], t);
        MC_CHECK(a.size() == b.size(), "size", tk);
        if (a.size() != b.size()) continue;
        for (size_t i = 0; i < a.size(); ++i)
          MC_CHECK(std::abs(a[i] - b[i]) < 1e-11, "single-valued", tk << " cell " << m->Index(*c) << " edge " << e << " at " << t(0, i) << ": cell " << a[i] << " edge " << b[i]);
        const auto p = U(*nd[e], Mat(0, 1));
        MC_CHECK(p.size() == 1 && std::abs(p[0] - U(*c, rc.col(e))[0]) < 1e-11, "node-value", tk << " cell " << m->Index(*c) << " corner " << e);
      }
    }
  }
  // --- values and gradients of a function with all coefficients different
  Eigen::VectorXd co(N);
  Eigen::VectorXcd cc(N);
  for (unsigned k = 0; k < N; ++k) co[k] = std::cos(1.7 * k) + 0.1 * k, cc[k] = C(co[k], 2 - 0.3 * k);
  lf::fe::MeshFunctionFE<double, double> U(ns.fes, co);
  lf::fe::MeshFunctionFE<double, C> UC(ns.fes, cc);
  lf::fe::MeshFunctionGradFE<double, double> G(ns.fes, co);
  lf::fe::MeshFunctionGradFE<double, C> GC(ns.fes, cc);
  MC_CHECK(U.getMesh() == m && G.getMesh() == m && U.getFESpace() == ns.fes && G.getFESpace() == ns.fes, "accessors", tag);
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m->Entities(cd)) {
      const Mat x = pts(e->RefEl(), cd == 2 ? 0 : 3);
      const auto* fe = fes.ShapeFunctionLayout(*e);
      const auto dofs = dh.GlobalDofIndices(*e);
      const Mat B = fe->EvalReferenceShapeFunctions(x);
      const auto v = U(*e, x);
      const auto vc = UC(*e, x);
      MC_CHECK((long)v.size() == x.cols() && (long)vc.size() == x.cols(), "size", tag);
      for (int i = 0; i < x.cols(); ++i) {
        double w = 0;
        C wc = 0;
        for (size_t k = 0; k < dofs.size(); ++k) w += co[dofs[k]] * B(k, i), wc += cc[dofs[k]] * B(k, i);
        MC_CHECK(std::abs(w - v[i]) < 1e-11 && std::abs(wc - vc[i]) < 1e-11, "value", tag << " codim " << cd << " idx " << m->Index(*e));
      }
      // other points, as many, on the same entity; the same points again
      auto again = [&](auto& F, const auto& first, const char* what) {
        const auto r = F(*e, Mat(x.rowwise().reverse())), q = F(*e, x), o = F(*e, Mat(x.rightCols(1)));
        mc::transitions(3);
        const size_t n = x.cols();
        MC_CHECK(r.size() == n && q.size() == n && o.size() == 1, "size", tag << " " << what);
        if (r.size() != n || q.size() != n || o.size() != 1) return;
        auto d = [](const auto& a, const auto& b) {
          if constexpr (requires { (a - b).norm(); }) return (a - b).norm() / (1 + b.norm());
          else return std::abs(a - b) / (1 + std::abs(b));
        };
        bool ok = d(o[0], first[n - 1]) < 1e-10;
        for (size_t i = 0; i < n; ++i) ok = ok && d(r[i], first[n - 1 - i]) < 1e-10 && d(q[i], first[i]) < 1e-10;
        MC_CHECK(ok, "repeat", tag << " " << what << " codim " << cd << " idx " << m->Index(*e));
      };
      again(U, v, "values");
      again(UC, vc, "complex values");
      if (cd == 2) continue;
      const int dl = e->RefEl().Dimension(), dw = e->Geometry()->DimGlobal();
      const Mat DB = fe->GradientsReferenceShapeFunctions(x), J = e->Geometry()->Jacobian(x);
      const auto g = G(*e, x);
      const auto gc = GC(*e, x);
      MC_CHECK((long)g.size() == x.cols() && (long)gc.size() == x.cols(), "size", tag);
      again(G, g, "gradients");
      again(GC, gc, "complex gradients");
      for (int i = 0; i < x.cols(); ++i) {
        Eigen::VectorXd r = Eigen::VectorXd::Zero(dl);
        Eigen::VectorXcd rc = Eigen::VectorXcd::Zero(dl);
        for (size_t k = 0; k < dofs.size(); ++k) r += co[dofs[k]] * DB.block(k, dl * i, 1, dl).transpose(), rc += cc[dofs[k]] * DB.block(k, dl * i, 1, dl).transpose();
        const Mat Ji = J.middleCols(dl * i, dl);
        const Mat T = Mat(Ji.completeOrthogonalDecomposition().pseudoInverse().transpose());
        MC_CHECK(g[i].size() == dw && gc[i].size() == dw, "grad-dim", tag);
        if (g[i].size() != dw || gc[i].size() != dw) continue;
        MC_CHECK((T * r - g[i]).norm() < 1e-9 * (1 + g[i].norm()) && (T * rc - gc[i]).norm() < 1e-9 * (1 + gc[i].norm()), "gradient",
                 tag << " codim " << cd << " idx " << m->Index(*e) << " at " << x.col(i).transpose() << " got " << g[i].transpose() << " want " << (T * r).transpose());
      }
    }
}
long count() {
  M = meshes(mc::thorough);
  for (auto& s : largeSpecs(mc::thorough ? 1100 : 300, mc::thorough ? 6 : 2))
    if (s.pts.size() < 60 || s.name.find("k3") == std::string::npos && s.name.find("k4") == std::string::npos) M.push_back(s);  // no extremely thin cells
  return M.size();
}
void item(long it) {
  const Spec& s = M[it];
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  for (auto& ns : spaces(m, mc::thorough)) space(s.str(), m, ns);
  // spaces given by their reference elements; triangle-only / quad-only ones
  using namespace lf::uscalfe;
  std::shared_ptr<const SFE<double>> t = std::make_shared<FeLagrangeO2Tria<double>>(), q = std::make_shared<FeLagrangeO2Quad<double>>(), e = std::make_shared<FeLagrangeO2Segment<double>>(), p = std::make_shared<lf::fe::FePoint<double>>(2);
  const bool hasT = m->NumEntities(RefEl::kTria()) > 0, hasQ = m->NumEntities(RefEl::kQuad()) > 0;
  space(s.str(), m, {"custom2", std::make_shared<UniformScalarFESpace<double>>(m, hasT ? t : nullptr, hasQ ? q : nullptr, e, p), 2, true});
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
