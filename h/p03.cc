// P03: projects/fisher_kpp: Galerkin matrices, quadrature helper, diffusion steps and Strang splitting.
#include <fisher_kpp/strangsplitting.h>

#include "fe.h"
using namespace fh;
namespace mu = lf::mesh::utils;
namespace {
std::vector<Spec> M;
using Vec2 = Eigen::Vector2d;
using Fun = std::function<double(const Vec2&)>;
struct Coef {
  std::string n;
  Fun f;
};
Vec2 corner(const Entity& c, int i) { return pos(*c.SubEntities(c.RefEl().Dimension())[i]); }
// integral over an affine entity of a polynomial
double integral(const Entity& e, const Fun& f) {
  const Vec2 a = corner(e, 0);
  if (e.RefEl() == RefEl::kPoint()) return f(a);
  const RefQuad q = refQuad(e.RefEl(), 5);
  const Vec2 u = corner(e, 1) - a;
  double s = 0;
  if (e.RefEl() == RefEl::kSegment()) {
    for (long i = 0; i < q.w.size(); ++i) s += q.w[i] * f(a + q.x(0, i) * u) * u.norm();
    return s;
  }
  const Vec2 v = corner(e, e.RefEl() == RefEl::kTria() ? 2 : 3) - a;
  const double det = std::abs(u[0] * v[1] - u[1] * v[0]);
  for (long i = 0; i < q.w.size(); ++i) s += q.w[i] * f(a + q.x(0, i) * u + q.x(1, i) * v) * det;
  return s;
}
// local shape functions (affine / bilinear) as functions of the position, with gradients
void shape(const Entity& e, const Vec2& x, Vec& b, Mat& g) {
  const Vec2 a = corner(e, 0);
  const Vec2 u = corner(e, 1) - a;
  if (e.RefEl() == RefEl::kSegment()) {
    const double t = (x - a).dot(u) / u.squaredNorm();
    b = Vec2(1 - t, t);
    return;
  }
  const bool tri = e.RefEl() == RefEl::kTria();
  Eigen::Matrix2d J;
  J << u, corner(e, tri ? 2 : 3) - a;
  const Vec2 r = J.inverse() * (x - a);
  Mat gr;
  if (tri) {
    b = Eigen::Vector3d(1 - r[0] - r[1], r[0], r[1]);
    gr = (Mat(3, 2) << -1, -1, 1, 0, 0, 1).finished();
  } else {
    b = Eigen::Vector4d((1 - r[0]) * (1 - r[1]), r[0] * (1 - r[1]), r[0] * r[1], (1 - r[0]) * r[1]);
    gr = (Mat(4, 2) << r[1] - 1, r[0] - 1, 1 - r[1], -r[0], r[1], r[0], -r[1], 1 - r[0]).finished();
  }
  g = gr * J.inverse();
}
struct Dense {
  Mat A, Ms;
};
Dense galerkin(const Mesh& m, const Fun& c, const Fun& h, const Mat& L) {
  const idx n = m.NumEntities(2);
  Dense r{-L, Mat::Zero(n, n)};
  std::vector<int> cnt(m.NumEntities(1));
  for (const Entity* e : m.Entities(0)) {
    const int k = e->RefEl().NumNodes();
    for (auto* s : e->SubEntities(1)) ++cnt[m.Index(*s)];
    for (int i = 0; i < k; ++i)
      for (int j = 0; j < k; ++j) {
        const idx gi = m.Index(*e->SubEntities(2)[i]), gj = m.Index(*e->SubEntities(2)[j]);
        r.A(gi, gj) += integral(*e, [&](const Vec2& x) { Vec b; Mat g; shape(*e, x, b, g); return c(x) * g.row(i).dot(g.row(j)); });
        r.Ms(gi, gj) += integral(*e, [&](const Vec2& x) { Vec b; Mat g; shape(*e, x, b, g); return b[i] * b[j]; });
      }
  }
  for (const Entity* e : m.Entities(1))
    if (cnt[m.Index(*e)] == 1)
      for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 2; ++j)
          r.A(m.Index(*e->SubEntities(1)[i]), m.Index(*e->SubEntities(1)[j])) += integral(*e, [&](const Vec2& x) { Vec b; Mat g; shape(*e, x, b, g); return h(x) * b[i] * b[j]; });
  return r;
}
bool near(const Mat& a, const Mat& b, double tol) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() < tol * (1 + b.cwiseAbs().maxCoeff()); }

void quadrature(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const std::vector<Coef> fs{{"1", [](const Vec2&) { return 1.; }}, {"x-2y", [](const Vec2& x) { return x[0] - 2 * x[1]; }}, {"xy+y2", [](const Vec2& x) { return x[0] * x[1] + x[1] * x[1]; }}};
  for (unsigned codim = 0; codim <= 2; ++codim) {
    const idx n = m->NumEntities(codim);
    std::vector<uint64_t> sel{(1ull << n) - 1, 0, 0x5555555555ull & ((1ull << n) - 1)};
    for (idx i = 0; i < n; ++i) sel.push_back(1ull << i);
    if (n <= 5)
      for (uint64_t b = 0; b < (1ull << n); ++b) sel.push_back(b);
    for (unsigned deg = 2; deg <= 4; ++deg)
      for (auto& f : fs)
        for (auto b : sel) {
          const std::string tag = tag0 + " integral of " + f.n + " codim " + std::to_string(codim) + " selection " + std::to_string(b) + " degree " + std::to_string(deg);
          mc::current(tag);
          if (mc::outcome(tag)) mc::states();
          mc::transitions();
          std::map<RefEl, lf::quad::QuadRule> qr;
          for (auto r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) qr[r] = lf::quad::make_QuadRule(r, deg);
          qr[RefEl::kPoint()] = lf::quad::QuadRule(RefEl::kPoint(), Mat(0, 1), Vec::Ones(1), deg);
          auto fn = [&](const Vec2& x) -> double { return f.f(x); };
          const double got = FisherKPP::localQuadFunction(*m, qr, fn, codim, [&](const Entity& e) { return (b >> m->Index(e) & 1) != 0; });
          double want = 0;
          for (const Entity* e : m->Entities(codim))
            if (b >> m->Index(*e) & 1) want += integral(*e, f.f);
          MC_CHECK(std::abs(got - want) < 1e-10 * (1 + std::abs(want)), "quadrature", tag << " got " << got << " want " << want);
        }
  }
}
void splitting(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const idx n = m->NumEntities(2);
  std::shared_ptr<lf::uscalfe::UniformScalarFESpace<double>> fes = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  const std::vector<Coef> cs{{"0", [](const Vec2&) { return 0.; }}, {"1", [](const Vec2&) { return 1.; }}, {"2+x/4-y/8", [](const Vec2& x) { return 2 + x[0] / 4 - x[1] / 8; }}};
  const std::vector<Coef> hs{{"0", [](const Vec2&) { return 0.; }}, {"3/2", [](const Vec2&) { return 1.5; }}, {"1+y/3", [](const Vec2& x) { return 1 + x[1] / 3; }}};
  for (auto& cc : cs)
    for (auto& hh : hs)
      for (int l = 0; l < 2; ++l) {
        Mat L = Mat::Zero(n, n);
        if (l)
          for (idx i = 0; i < n; ++i)
            for (idx j = 0; j < n; ++j) L(i, j) = 0.02 * std::sin(1. + i + 3 * j);
        const Dense d = galerkin(*m, cc.f, hh.f, L);
        const std::string t1 = tag0 + " c=" + cc.n + " h=" + hh.n + (l ? " L" : "");
        mc::current(t1);
        auto c = [&](const Vec2& x) -> double { return cc.f(x); };
        auto h = [&](const Vec2& x) -> double { return hh.f(x); };
        auto am = FisherKPP::assembleGalerkinMatrices(fes->LocGlobMap(), c, h, L);
        MC_CHECK(near(Mat(am.first), d.A, 1e-11), "stiffness", t1 << " got\n" << Mat(am.first) << "\nwant\n" << d.A);
        MC_CHECK(near(Mat(am.second), d.Ms, 1e-11), "mass", t1);
        const double ka = 1 - std::sqrt(2.) / 2;
        auto D = [&](double tau, const Vec& u) -> Vec {  // SDIRK-2 for M u' = -A u
          auto lu = (d.Ms + tau * ka * d.A).fullPivLu();
          const Vec k1 = lu.solve(-d.A * u), k2 = lu.solve(-d.A * (u + tau * (1 - ka) * k1));
          return u + tau * ((1 - ka) * k1 + ka * k2);
        };
        for (double T : {1., 0.3})
          for (unsigned N = 1; N <= (mc::thorough ? 12u : 6u); ++N)
            for (double lam : {0., 0.7, 2.1})
              for (int k = 0; k < 2; ++k) {
                const std::string tag = t1 + " T=" + std::to_string(T) + " steps " + std::to_string(N) + " lambda " + std::to_string(lam) + (k ? " constant" : " varying");
                mc::current(tag);
                if (mc::outcome(tag)) mc::states();
                mc::transitions();
                FisherKPP::StrangSplit S(fes, T, N, lam, c, h, L);
                const double tau = T / N;
                Vec u(n), cap(n);
                for (idx i = 0; i < n; ++i) u[i] = k ? 0.4 : 0.5 + 0.3 * std::sin(2. + 3 * i), cap[i] = k ? 1.3 : 1 + 0.5 * std::cos(1. + i);
                const Vec h1 = S.diffusionEvolutionOperator(true, u), f1 = S.diffusionEvolutionOperator(false, u);
                MC_CHECK(near(h1, D(tau / 2, u), 1e-10), "half-step", tag);
                MC_CHECK(near(f1, D(tau, u), 1e-10), "full-step", tag);
                auto R = [&](double t, const Vec& x) -> Vec { return (cap.array() / (1 + (cap.array() / x.array() - 1) * std::exp(-lam * t))).matrix(); };
                // symmetric composition of steps that add up to the final time
                Vec w = D(tau / 2, u);
                for (unsigned i = 0; i < N; ++i) w = D(i + 1 < N ? tau : tau / 2, R(tau, w));
                const Vec got = S.Evolution(cap, u);
                MC_CHECK(near(got, w, 1e-9), "evolution", tag << " got " << got.transpose() << " want " << w.transpose());
                MC_CHECK(near(S.Evolution(cap, u), got, 1e-12), "repeat", tag);
                if (k && !l && hh.n == "0") {  // nothing to diffuse: logistic growth up to the final time
                  mc::traces();
                  MC_CHECK(near(got, R(T, u), 1e-9), "logistic", tag << " got " << got.transpose() << " want " << R(T, u).transpose());
                }
              }
      }
}
long count() {
  auto add = [](const Spec& s) {
    if (s.dim == 2 && (s.pts.size() <= 9 || isLarge(s))) M.push_back(s);
  };
  for (auto& d : largeDims(mc::thorough ? 40 : 20))
    if (d.kind == 0 || d.kind == 3)
      for (int v : {1, 3, 10}) add(large(d.nx, d.ny, d.kind, v));
  for (auto& s : meshes(mc::thorough, {kO1})) {
    bool tri = true;
    for (auto& c : s.cells) tri = tri && c.n.size() == 3;
    if (tri) add(s);
  }
  for (int k = 0; k < 8; ++k) {
    Spec s = topologies()[4];
    s.name = "2para";
    s.pts = {{0, 0}, {1, 0.1}, {1.3, 1.2}, {0.3, 1.1}, {2, 0.2}, {2.3, 1.3}};
    s.cells[0].n = dihedral(s.cells[0].n)[k];
    s.cells[0].geo = s.cells[1].geo = kPara;
    add(s);
    s.name = "para+2tria";
    s.cells[1].geo = kO1;
    s.cells[1].n = {1, 4, 5};
    s.cells.push_back({{1, 5, 2}, kO1});
    add(s);
  }
  return M.size();
}
void item(long it) {
  const Spec& s = M[it];
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  quadrature(m, s.str());
  splitting(m, s.str());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
