// P01, second part: the complete DPG methods of the convergence studies (primal, primal with adapted norm, ultraweak) on every
// kind of mesh, degree, enrichment and level reproduce solutions that lie in their trial spaces.
#include <Eigen/Sparse>

#include <dpg/convergence_studies/primal_dpg.h>
#include <dpg/convergence_studies/primal_dpg_adapted_norm.h>
#include <dpg/convergence_studies/ultraweak_dpg.h>

#include "mc.h"
namespace {
using lf::base::RefEl;
using V = Eigen::Vector2d;
struct Poly {  // solution, gradient, laplacian
  int deg;
  double (*u)(const V&);
  V (*g)(const V&);
  double (*l)(const V&);
};
const Poly P[] = {
    {0, [](const V&) { return 2.5; }, [](const V&) -> V { return V(0, 0); }, [](const V&) { return 0.; }},
    {1, [](const V& x) { return 1 + 2 * x[0] - x[1]; }, [](const V&) -> V { return V(2, -1); }, [](const V&) { return 0.; }},
    {2, [](const V& x) { return x[0] * x[0] - 3 * x[0] * x[1] + x[1]; }, [](const V& x) -> V { return V(2 * x[0] - 3 * x[1], 1 - 3 * x[0]); }, [](const V&) { return 2.; }},
    {3, [](const V& x) { return x[0] * x[0] * x[0] + x[0] * x[1] * x[1] - x[1]; }, [](const V& x) -> V { return V(3 * x[0] * x[0] + x[1] * x[1], 2 * x[0] * x[1] - 1); }, [](const V& x) { return 8 * x[0]; }},
};
const double A[] = {1.0, 0.25};
const V B[] = {V(0, 0), V(2, 1), V(-1, 0.5)};
struct Job {
  int kind, poly, deg, enr, a, b, tria;
};
std::vector<Job> jobs;
int flux(const Job& j) { return std::max(P[j.poly].deg - 1, B[j.b].norm() > 0 ? P[j.poly].deg : 0); }
long count() {
  for (int kind = 0; kind < 3; ++kind)
    for (int poly = 0; poly < 4; ++poly)
      for (int deg = kind == 2 ? 0 : 1; deg <= 3; ++deg)
        for (int enr = 1; enr <= 2; ++enr)
          for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 3; ++b)
              for (int tria = 0; tria < 2; ++tria) {
                Job j{kind, poly, deg, enr, a, b, tria};
                // spaces: L2 and Lagrangian components of degree up to three
                if (deg + enr > 3 || P[poly].deg > deg) continue;
                if (kind == 2 ? deg + 1 > 3 || flux(j) > deg : flux(j) > deg - 1) continue;
                jobs.push_back(j);
              }
  return jobs.size();
}
void item(long it) {
  const Job& j = jobs[it];
  const Poly& p = P[j.poly];
  const double a = A[j.a];
  const V b = B[j.b];
  const RefEl r = j.tria ? RefEl::kTria() : RefEl::kQuad();
  const unsigned lev = mc::thorough ? 3 : 1;
  std::ostringstream o;
  o << (j.kind == 0 ? "primal" : j.kind == 1 ? "adapted norm" : "ultraweak") << " solution of degree " << p.deg << " spaces " << j.deg << "+" << j.enr << " alpha " << a << " beta " << b.transpose() << " " << r.ToString();
  const std::string tag = o.str();
  mc::current(tag);
  mc::sample(tag);
  auto alpha = [a](const V&) -> double { return a; };
  auto beta = [bx = b[0], by = b[1]](const V&) -> V { return V(bx, by); };
  auto f = [&](const V& x) -> double { return -a * p.l(x) + b.dot(p.g(x)); };
  auto u = [&](const V& x) -> double { return p.u(x); };
  auto g = [&](const V& x) -> V { return p.g(x); };
  auto s = [&](const V& x) -> V { return a * p.g(x); };
  auto mute = std::cout.rdbuf(nullptr);
  auto N = [&](unsigned l) { return 2L << l; };                 // cells per direction
  auto cells = [&](unsigned l) { return N(l) * N(l) * (j.tria ? 2 : 1); };
  auto edges = [&](unsigned l) { return 2 * N(l) * (N(l) + 1) + (j.tria ? N(l) * N(l) : 0); };
  auto nodes = [&](unsigned l) { return (N(l) + 1) * (N(l) + 1); };
  auto skel = [&](unsigned l, int d) { return nodes(l) + edges(l) * (d - 1); };  // continuous, on edges
  auto inner = [&](int d) { return j.tria ? (d - 1) * (d - 2) / 2 : (d - 1) * (d - 1); };
  auto local = [&](int d) { return j.tria ? (d + 1) * (d + 2) / 2 : (d + 1) * (d + 1); };
  std::vector<std::array<double, 4>> got;
  if (j.kind == 2) {
    for (auto& [n, e, es, est] : projects::dpg::test::TestConververgenceUltraWeakDPGConvectionDiffusionDirichletBVP(lev, u, s, alpha, beta, f, u, j.deg, j.enr, r)) got.push_back({(double)n, e, es, est});
  } else if (j.kind == 1) {
    for (auto& [n, e, est] : projects::dpg::test::TestConververgencePrimalDPGAdaptedNormConvectionDiffusionDirichletBVP(lev, u, g, alpha, beta, f, u, j.deg, j.enr, r)) got.push_back({(double)n, e, 0., est});
  } else {
    for (auto& [n, e, est] : projects::dpg::test::TestConververgencePrimalDPGConvectionDiffusionDirichletBVP(lev, u, g, alpha, beta, f, u, j.deg, j.enr, r)) got.push_back({(double)n, e, 0., est});
  }
  std::cout.rdbuf(mute);
  MC_CHECK(got.size() == lev + 1, "study-levels", tag << " " << got.size());
  for (unsigned l = 0; l < got.size(); ++l) {
    mc::transitions();
    if (mc::outcome(tag + std::to_string(l))) mc::states();
    const auto& q = got[l];
    const long want = j.kind == 2 ? 3 * cells(l) * local(j.deg) + skel(l, j.deg + 1) + edges(l) * (j.deg + 1) : skel(l, j.deg) + cells(l) * inner(j.deg) + edges(l) * j.deg;
    MC_CHECK((long)q[0] == want, "study-dofs", tag << " level " << l << " got " << q[0] << " want " << want);
    MC_CHECK(q[1] < 1e-6 && q[2] < 1e-6, "study-error", tag << " level " << l << " errors " << q[1] << " " << q[2]);
    MC_CHECK(q[3] < 1e-6, "study-estimator", tag << " level " << l << " estimate " << q[3]);
  }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
