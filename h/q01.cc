// Q01: quadrature rules are exact up to their declared degree, positive where
// promised, and the cache returns the same rule whatever was asked before.
#include <lf/quad/quad.h>
#include <lf/quad/gauss_quadrature.h>
#include "mc.h"
using namespace lf::quad;
using lf::base::RefEl;
namespace {
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using L = long double;
// Jacobi polynomials P_0..P_n^{(a,b)}(x)
void jacobi(int n, L a, L b, L x, std::vector<L>& p) {
  p.assign(n + 1, 1);
  if (n >= 1) p[1] = (a - b + (a + b + 2) * x) / 2;
  for (int k = 2; k <= n; ++k) {
    const L t = 2 * k + a + b;
    p[k] = ((t - 1) * (t * (t - 2) * x + a * a - b * b) * p[k - 1] - 2 * (k + a - 1) * (k + b - 1) * t * p[k - 2]) / (2 * k * (k + a + b) * (t - 2));
  }
}
// orthonormal polynomials of total (tria) or tensor (quad) degree <= d at x
void basis(RefEl r, int d, const Vec& x, std::vector<L>& out) {
  out.clear();
  std::vector<L> p, q;
  if (r == RefEl::kSegment()) {
    jacobi(d, 0, 0, 2 * (L)x[0] - 1, p);
    for (int i = 0; i <= d; ++i) out.push_back(p[i] * std::sqrt((L)(2 * i + 1)));
  } else if (r == RefEl::kQuad()) {
    jacobi(d, 0, 0, 2 * (L)x[0] - 1, p);
    jacobi(d, 0, 0, 2 * (L)x[1] - 1, q);
    for (int i = 0; i <= d; ++i)
      for (int j = 0; j <= d; ++j) out.push_back(p[i] * q[j] * std::sqrt((L)((2 * i + 1) * (2 * j + 1))));
  } else {
    const L y = x[1], s = 1 - y, z = 2 * (L)x[0] - s;  // z/s in [-1,1]
    // s^i P_i(z/s) by a homogenised Legendre recurrence
    p.assign(d + 1, 1);
    if (d >= 1) p[1] = z;
    for (int k = 2; k <= d; ++k) p[k] = ((2 * k - 1) * z * p[k - 1] - (k - 1) * s * s * p[k - 2]) / k;
    for (int i = 0; i <= d; ++i) {
      jacobi(d - i, 2 * i + 1, 0, 2 * y - 1, q);
      for (int j = 0; i + j <= d; ++j) out.push_back(p[i] * q[j] * std::sqrt((L)(2 * (2 * i + 1) * (i + j + 1))));
    }
  }
}
L vol(RefEl r) { return r == RefEl::kTria() ? 0.5L : 1; }
// worst error over all basis functions of degree <= d
L error(const QuadRule& q, int d) {
  std::vector<L> s, v;
  for (unsigned i = 0; i < q.NumPoints(); ++i) {
    basis(q.RefEl(), d, q.Points().col(i), v);
    if (s.empty()) s.assign(v.size(), 0);
    for (size_t k = 0; k < v.size(); ++k) s[k] += (L)q.Weights()[i] * v[k];
  }
  L e = 0;
  for (size_t k = 0; k < s.size(); ++k) e = std::max(e, std::abs(s[k] - (k == 0 ? std::sqrt(vol(q.RefEl())) * std::sqrt(vol(q.RefEl())) * (q.RefEl() == RefEl::kTria() ? std::sqrt(2.0L) : 1) : 0)));
  return e;
}
void checkRule(const QuadRule& q, RefEl r, unsigned want, const std::string& tag, bool positive) {
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  MC_CHECK(q.RefEl() == r && q.Points().rows() == r.Dimension() && q.Points().cols() == q.Weights().size() && q.NumPoints() == q.Weights().size(), "shape", tag);
  MC_CHECK(q.Degree() >= want && q.Order() == q.Degree() + 1, "degree", tag << " declares degree " << q.Degree());
  const L e = error(q, q.Degree());
  mc::transitions((q.Degree() + 1) * (q.Degree() + 1));
  MC_CHECK(e < 2e-12, "exactness", tag << " declares degree " << q.Degree() << " but its error is " << (double)e);
  const double eps = 1e-14;
  bool in = true;
  for (unsigned i = 0; i < q.NumPoints(); ++i) {
    const Vec x = q.Points().col(i);
    in = in && x.minCoeff() >= -eps && x.maxCoeff() <= 1 + eps && (r != RefEl::kTria() || x.sum() <= 1 + eps);
    if (positive) MC_CHECK(q.Weights()[i] > 0, "positive", tag << " weight " << i);
  }
  MC_CHECK(in, "inside", tag);
  std::ostringstream o;
  o << q;
  MC_CHECK(o.str().find(std::to_string(q.NumPoints()) + "-point") == 0, "print", tag);
}
bool eq(const QuadRule& a, const QuadRule& b) {
  return a.RefEl() == b.RefEl() && a.Degree() == b.Degree() && a.Points().rows() == b.Points().rows() && a.Points().cols() == b.Points().cols() && a.Points() == b.Points() &&
         a.Weights() == b.Weights();
}
const RefEl kR[3] = {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()};
int maxDeg(int r) { return mc::thorough ? (r == 0 ? 400 : r == 1 ? 130 : 80) : (r == 0 ? 200 : r == 1 ? 90 : 60); }
void rules(int r) {
  for (int d = 0; d <= maxDeg(r); ++d)
    checkRule(make_QuadRule(kR[r], d), kR[r], d, "make_QuadRule(" + kR[r].ToString() + "," + std::to_string(d) + ")", true);
}
void named() {
  checkRule(make_TriaQR_MidpointRule(), RefEl::kTria(), 1, "TriaQR_Midpoint", true);
  checkRule(make_TriaQR_P1O2(), RefEl::kTria(), 1, "TriaQR_P1O2", true);
  checkRule(make_TriaQR_EdgeMidpointRule(), RefEl::kTria(), 2, "TriaQR_EdgeMidpoint", true);
  checkRule(make_TriaQR_P3O3(), RefEl::kTria(), 2, "TriaQR_P3O3", true);
  checkRule(make_TriaQR_P6O4(), RefEl::kTria(), 3, "TriaQR_P6O4", true);
  checkRule(make_TriaQR_P7O6(), RefEl::kTria(), 5, "TriaQR_P7O6", true);
  checkRule(make_QuadQR_MidpointRule(), RefEl::kQuad(), 1, "QuadQR_Midpoint", true);
  checkRule(make_QuadQR_P1O2(), RefEl::kQuad(), 1, "QuadQR_P1O2", true);
  checkRule(make_QuadQR_EdgeMidpointRule(), RefEl::kQuad(), 1, "QuadQR_EdgeMidpoint", true);
  checkRule(make_QuadQR_P4O2(), RefEl::kQuad(), 1, "QuadQR_P4O2", true);
  checkRule(make_QuadQR_P4O4(), RefEl::kQuad(), 3, "QuadQR_P4O4", true);
  for (auto r : kR) {
    const auto q = make_QuadRuleNodal(r);
    checkRule(q, r, 1, "nodal " + r.ToString(), true);
    MC_CHECK(q.NumPoints() == r.NumNodes() && (q.Points() - r.NodeCoords()).norm() < 1e-12, "nodal", r.ToString());
  }
  {
    const auto q = make_QuadRuleNodal(RefEl::kPoint());
    MC_CHECK(q.NumPoints() == 1 && q.Weights()[0] == 1, "nodal", "point");
  }
  auto pts = [](const QuadRule& q, unsigned n, Mat want, const char* what) {
    MC_CHECK(q.NumPoints() == n && (q.Points() - want).norm() < 1e-12, "named-points", what << "\n" << q.Points());
  };
  const Mat tm = (Mat(2, 3) << 0.5, 0.5, 0, 0, 0.5, 0.5).finished(), qm = (Mat(2, 4) << 0.5, 1, 0.5, 0, 0, 0.5, 1, 0.5).finished();
  pts(make_TriaQR_MidpointRule(), 1, Mat::Constant(2, 1, 1 / 3.), "tria midpoint");
  pts(make_QuadQR_MidpointRule(), 1, Mat::Constant(2, 1, 1 / 2.), "quad midpoint");
  pts(make_TriaQR_EdgeMidpointRule(), 3, tm, "tria edge midpoints");
  pts(make_QuadQR_EdgeMidpointRule(), 4, qm, "quad edge midpoints");
  MC_CHECK(make_TriaQR_P6O4().NumPoints() == 6 && make_TriaQR_P7O6().NumPoints() == 7 && make_QuadQR_P4O4().NumPoints() == 4, "named-points", "numbers");
}
void gaussRules(int n) {
  {
    const std::string tag = "GaussLegendre(" + std::to_string(n) + ")";
    auto [x, w] = GaussLegendre(n);
    QuadRule q(RefEl::kSegment(), x.transpose(), w, 2 * n - 1);
    checkRule(q, RefEl::kSegment(), 2 * n - 1, tag, true);
    for (int i = 1; i < n; ++i) MC_CHECK(x[i] > x[i - 1], "sorted", tag);
  }
  // the exponents the library uses: the Duffy rule needs (1,0)
  for (L a : {0.L, 1.L, 2.L, 0.5L})
    for (L b : {0.L, 1.L, 2.L}) {
      if (n > 60) continue;
      const std::string tag = "GaussJacobi(" + std::to_string(n) + "," + std::to_string((double)a) + "," + std::to_string((double)b) + ")";
      mc::current(tag);
      if (mc::outcome(tag)) mc::states();
      auto [x, w] = GaussJacobi(n, (double)a, (double)b);
      MC_CHECK(x.size() == n && w.size() == n, "shape", tag);
      if (x.size() != n || w.size() != n) continue;
      std::vector<L> s(2 * n, 0), p;
      std::set<double> dist;
      for (int i = 0; i < n; ++i) {
        MC_CHECK(x[i] > -1 && x[i] < 1 && w[i] > 0, "inside", tag << " " << x[i] << " " << w[i]);
        jacobi(2 * n - 1, a, b, x[i], p);
        for (int k = 0; k < 2 * n; ++k) s[k] += w[i] * p[k];
        dist.insert(x[i]);
      }
      const L mass = std::pow(2.L, a + b + 1) * std::exp(std::lgamma(a + 1) + std::lgamma(b + 1) - std::lgamma(a + b + 2));
      MC_CHECK((int)dist.size() == n, "distinct", tag);
      mc::transitions(2 * n);
      for (int k = 0; k < 2 * n; ++k)
        MC_CHECK(std::abs(s[k] - (k ? 0 : mass)) < 1e-11L * std::max<L>(1, std::pow((L)n, std::max(a, b))), "jacobi-exactness", tag << " degree " << k << " error " << (double)(s[k] - (k ? 0 : mass)));
    }
}
// cache: every history of requests
void cache(int first) {
  const std::vector<unsigned> deg = mc::thorough ? std::vector<unsigned>{0, 1, 2, 3, 5, 8, 20, 51} : std::vector<unsigned>{0, 1, 2, 5, 20};
  const int nl = 3 * deg.size(), depth = 3;
  std::map<int, QuadRule> ref;
  for (int l = 0; l < nl; ++l) ref.emplace(l, make_QuadRule(kR[l % 3], deg[l / 3]));
  std::vector<int> h(depth);
  // last letter nl: the cache is moved
  long total = 1;
  for (int i = 1; i < depth; ++i) total *= nl + 1;
  for (long c = 0; c < total; ++c) {
    long k = c;
    h[0] = first;
    for (int i = 1; i < depth; ++i) h[i] = k % (nl + 1), k /= nl + 1;
    std::string tag = "cache";
    for (int l : h) tag += l == nl ? " move" : " " + kR[l % 3].ToString() + std::to_string(deg[l / 3]);
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    auto q = std::make_unique<QuadRuleCache>();
    std::vector<std::pair<int, const QuadRule*>> got;
    for (int l : h) {
      mc::transitions();
      if (l == nl) {
        auto n = std::make_unique<QuadRuleCache>(std::move(*q));
        QuadRuleCache t;
        t = std::move(*n);
        *n = std::move(t);
        q = std::move(n);
      } else {
        const QuadRule& r = q->Get(kR[l % 3], deg[l / 3]);
        MC_CHECK(eq(r, ref.at(l)), "cache", tag << " at " << l);
        got.push_back({l, &r});
      }
      for (auto& g : got) {
        MC_CHECK(eq(*g.second, ref.at(g.first)), "cache-reference", tag);
        MC_CHECK(&q->Get(kR[g.first % 3], deg[g.first / 3]) == g.second, "cache-same", tag);
      }
    }
  }
}
long ncache() { return 3 * (mc::thorough ? 8 : 5); }
long ngauss() { return mc::thorough ? 200 : 100; }
long count() { return 4 + ngauss() + ncache(); }
void item(long it) {
  if (it < 3) {
    mc::sample("rules of " + kR[it].ToString());
    return rules(it);
  }
  if (it == 3) return named();
  it -= 4;
  if (it < ngauss()) return gaussRules(it + 1);
  cache(it - ngauss());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
