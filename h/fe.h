// Helpers for the finite element harnesses: reference points, exact
// differentiation of polynomials given by point values, FE spaces.
#pragma once
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "meshes.h"
namespace fh {
using namespace ms;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;
using lf::mesh::Entity;
using lf::mesh::Mesh;
using C = std::complex<double>;
template <class S>
using SFE = lf::fe::ScalarReferenceFiniteElement<S>;
// lattice points of the closed reference element
inline Mat pts(RefEl r, int n) {
  if (r == RefEl::kPoint()) return Mat(0, 1);
  std::vector<Vec> v;
  if (r == RefEl::kSegment())
    for (int i = 0; i <= n; ++i) v.push_back(Vec::Constant(1, i / (double)n));
  else
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= (r == RefEl::kTria() ? n - i : n); ++j) v.push_back(Eigen::Vector2d(i / (double)n, j / (double)n));
  Mat m(r.Dimension(), v.size());
  for (size_t i = 0; i < v.size(); ++i) m.col(i) = v[i];
  return m;
}
// Chebyshev points on (0,1), barycentric weights, differentiation matrix
struct Cheb {
  int n;
  Vec x, w;
  Mat D;
  explicit Cheb(int n_) : n(n_), x(n_), w(n_), D(n_, n_) {
    for (int i = 0; i < n; ++i) {
      x[i] = 0.5 - 0.5 * std::cos(M_PI * (2 * i + 1) / (2. * n));
      w[i] = (i % 2 ? -1 : 1) * std::sin(M_PI * (2 * i + 1) / (2. * n));
    }
    for (int i = 0; i < n; ++i) {
      double s = 0;
      for (int j = 0; j < n; ++j)
        if (i != j) s += D(i, j) = w[j] / w[i] / (x[i] - x[j]);
      D(i, i) = -s;
    }
  }
  // row of interpolation weights for point t
  Eigen::RowVectorXd at(double t) const {
    Eigen::RowVectorXd r(n);
    double s = 0;
    for (int j = 0; j < n; ++j) {
      if (std::abs(t - x[j]) < 1e-14) {
        r.setZero();
        r[j] = 1;
        return r;
      }
      s += r[j] = w[j] / (t - x[j]);
    }
    return r / s;
  }
};
// Gauss-Legendre rule on [0,1], computed independently of lf::quad
inline void gauss(int n, Vec& x, Vec& w) {
  x.resize(n);
  w.resize(n);
  for (int i = 0; i < n; ++i) {
    long double t = std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), p1 = 0, dp = 0;
    for (int it = 0; it < 100; ++it) {
      long double a = 1, b = t;
      for (int k = 2; k <= n; ++k) {
        const long double c = ((2 * k - 1) * t * b - (k - 1) * a) / k;
        a = b;
        b = c;
      }
      if (n == 1) b = t, a = 1;
      p1 = b;
      dp = n * (t * b - a) / (t * t - 1);
      const long double d = p1 / dp;
      t -= d;
      if (std::fabs((double)d) < 1e-19) break;
    }
    x[n - 1 - i] = (double)((1 + t) / 2);
    w[n - 1 - i] = (double)(1 / ((1 - t * t) * dp * dp));
  }
}
// reference quadrature on a reference element (Gauss / collapsed Gauss)
struct RefQuad {
  Mat x;
  Vec w;
};
inline RefQuad refQuad(RefEl r, int n) {
  Vec g, w;
  gauss(n, g, w);
  RefQuad q;
  if (r == RefEl::kPoint()) {
    q.x = Mat(0, 1);
    q.w = Vec::Ones(1);
  } else if (r == RefEl::kSegment()) {
    q.x = g.transpose();
    q.w = w;
  } else {
    q.x.resize(2, n * n);
    q.w.resize(n * n);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) {
        const int k = i * n + j;
        if (r == RefEl::kTria()) {
          q.x.col(k) << g[i], g[j] * (1 - g[i]);
          q.w[k] = w[i] * w[j] * (1 - g[i]);
        } else {
          q.x.col(k) << g[i], g[j];
          q.w[k] = w[i] * w[j];
        }
      }
  }
  return q;
}
// ---- spaces
using Space = std::shared_ptr<const lf::fe::ScalarFESpace<double>>;
struct NamedSpace {
  std::string name;
  Space fes;
  unsigned p;  // polynomials up to this degree are contained locally
  bool lagrange;
};
// a space that was moved to its place (and whose source is gone)
template <class T, class... A>
std::shared_ptr<T> movedSpace(const std::shared_ptr<const Mesh>& m, A... a) {
  auto x = std::make_unique<T>(m, a...);
  auto r = std::make_shared<T>(std::move(*x));
  x.reset();
  return r;
}
// a space that was assigned over another one
template <class T, class... A>
std::shared_ptr<T> assignedSpace(std::shared_ptr<T> r, const std::shared_ptr<const Mesh>& m, A... a) {
  auto x = std::make_unique<T>(m, a...);
  *r = std::move(*x);
  x.reset();
  return r;
}
inline std::vector<NamedSpace> spaces(const std::shared_ptr<const Mesh>& m, bool rich) {
  using namespace lf::uscalfe;
  std::vector<NamedSpace> r;
  r.push_back({"O1", std::make_shared<FeSpaceLagrangeO1<double>>(m), 1, true});
  r.push_back({"O2", movedSpace<FeSpaceLagrangeO2<double>>(m), 2, true});
  r.push_back({"O3", assignedSpace(std::make_shared<FeSpaceLagrangeO3<double>>(m), m), 3, true});
  using H = lf::fe::HierarchicScalarFESpace<double>;
  for (unsigned p = 1; p <= (rich ? 5u : 4u); ++p)
    r.push_back({"H" + std::to_string(p), p == 2 ? movedSpace<H>(m, p) : p == 3 ? assignedSpace<H>(std::make_shared<H>(m, 2u), m, p) : std::make_shared<H>(m, p), p, false});
  const Mesh* mp = m.get();
  for (unsigned a = 1; a <= (rich ? 5u : 3u); ++a)
    for (unsigned b = 0; b <= 1; ++b) {
      auto f = [mp, a, b](const Entity& e) -> unsigned { return e.RefEl() == RefEl::kPoint() ? 1 : 1 + (mp->Index(e) * a + b + e.Codim()) % 4; };
      r.push_back({"Hvar" + std::to_string(a) + std::to_string(b), a == 2 ? movedSpace<H>(m, f) : std::make_shared<H>(m, f), 1, false});
    }
  return r;
}
inline bool isLarge(const Spec& s) { return s.name.rfind("large", 0) == 0; }
// meshes: topologies x corner renumberings x edge orientations x geometry kinds
inline std::vector<Spec> meshes(bool big, const std::vector<int>& geos = {kO1, kO2}) {
  std::vector<Spec> r;
  auto T = topologies();
  for (size_t t = 0; t < T.size(); ++t) {
    std::vector<Spec> v{T[t]};
    for (size_t c = 0; c < T[t].cells.size(); ++c) {
      int k = 0;
      for (auto& d : dihedral(T[t].cells[c].n)) {
        if (k++ == 0) continue;
        if (t >= 5 && k > 4 && !big) break;
        Spec s = T[t];
        s.cells[c].n = d;
        s.name += "#" + std::to_string(c) + "." + std::to_string(k - 1);
        v.push_back(s);
      }
    }
    auto ce = cellEdges(T[t]);
    for (size_t e = 0; e < ce.size(); ++e) {
      Spec s = T[t];
      s.edges.push_back(EdgeSpec{ce[e].second, ce[e].first});
      v.push_back(s);
    }
    if (ce.size() <= (big ? 5u : 4u))
      for (unsigned b = 0; b < (1u << ce.size()); ++b) {
        Spec s = T[t];
        for (size_t e = 0; e < ce.size(); ++e) s.edges.push_back(b >> e & 1 ? EdgeSpec{ce[e].second, ce[e].first} : EdgeSpec{ce[e].first, ce[e].second});
        v.push_back(s);
      }
    for (auto& s : v)
      for (int g : geos) {
        Spec q = s;
        for (auto& c : q.cells) c.geo = g;
        for (auto& e : q.edges) e.geo = g;
        r.push_back(q);
        if (&s == &v[0] && g != kNone) {
          q.dim = 3;
          r.push_back(q);
        }
      }
  }
  return r;
}
}  // namespace fh
