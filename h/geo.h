// Independent reference model of the shape mappings: Lagrange interpolation of
// the defining points, evaluated in long double.
#pragma once
#include <Eigen/Eigen>
#include <lf/geometry/geometry.h>

#include "mc.h"
namespace gm {
using ld = long double;
using lf::base::RefEl;
using Mat = Eigen::MatrixXd;
enum Kind { Pt = 0, S1, S2, T1, Q1, Pa, T2, Q2, NK };
inline const char* kname(int k) {
  static const char* n[] = {"Point", "SegmentO1", "SegmentO2", "TriaO1", "QuadO1", "Parallelogram", "TriaO2", "QuadO2"};
  return n[k];
}
inline int npts(int k) { static const int n[] = {1, 2, 3, 3, 4, 4, 6, 8}; return n[k]; }
inline int ldim(int k) { return k == Pt ? 0 : k <= S2 ? 1 : 2; }
inline RefEl refel(int k) {
  return k == Pt ? RefEl::kPoint() : k <= S2 ? RefEl::kSegment() : (k == T1 || k == T2) ? RefEl::kTria() : RefEl::kQuad();
}
// shape functions N and their derivatives dN (ldim x npts) at x
inline void shape(int k, const ld* x, ld* N, ld (*dN)[2]) {
  auto tri2 = [&](ld a, ld b) {
    ld l0 = 1 - a - b, l1 = a, l2 = b;
    ld L[3] = {l0, l1, l2}, g[3][2] = {{-1, -1}, {1, 0}, {0, 1}};
    for (int i = 0; i < 3; ++i) {
      N[i] = L[i] * (2 * L[i] - 1);
      int j = (i + 1) % 3;
      N[3 + i] = 4 * L[i] * L[j];
      for (int d = 0; d < 2; ++d) {
        dN[i][d] = (4 * L[i] - 1) * g[i][d];
        dN[3 + i][d] = 4 * (g[i][d] * L[j] + L[i] * g[j][d]);
      }
    }
  };
  switch (k) {
    case Pt: N[0] = 1; break;
    case S1: N[0] = 1 - x[0]; N[1] = x[0]; dN[0][0] = -1; dN[1][0] = 1; break;
    case S2: {
      ld t = x[0];
      N[0] = (1 - t) * (1 - 2 * t); N[1] = t * (2 * t - 1); N[2] = 4 * t * (1 - t);
      dN[0][0] = 4 * t - 3; dN[1][0] = 4 * t - 1; dN[2][0] = 4 - 8 * t;
      break;
    }
    case T1:
      N[0] = 1 - x[0] - x[1]; N[1] = x[0]; N[2] = x[1];
      dN[0][0] = -1; dN[0][1] = -1; dN[1][0] = 1; dN[1][1] = 0; dN[2][0] = 0; dN[2][1] = 1;
      break;
    case Q1: case Pa: {
      ld a = x[0], b = x[1];
      N[0] = (1 - a) * (1 - b); N[1] = a * (1 - b); N[2] = a * b; N[3] = (1 - a) * b;
      dN[0][0] = -(1 - b); dN[0][1] = -(1 - a); dN[1][0] = 1 - b; dN[1][1] = -a;
      dN[2][0] = b; dN[2][1] = a; dN[3][0] = -b; dN[3][1] = 1 - a;
      break;
    }
    case T2: tri2(x[0], x[1]); break;
    case Q2: {
      // serendipity
      const ld c[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
      ld s = 2 * x[0] - 1, t = 2 * x[1] - 1;
      for (int i = 0; i < 4; ++i) {
        ld a = c[i][0], b = c[i][1];
        N[i] = (1 + a * s) * (1 + b * t) * (a * s + b * t - 1) / 4;
        dN[i][0] = 2 * (a * (1 + b * t) * (a * s + b * t - 1) + (1 + a * s) * (1 + b * t) * a) / 4;
        dN[i][1] = 2 * ((1 + a * s) * b * (a * s + b * t - 1) + (1 + a * s) * (1 + b * t) * b) / 4;
      }
      ld bt[2] = {-1, 1};
      for (int q = 0; q < 2; ++q) {
        int i = q == 0 ? 4 : 6;  // bottom, top
        N[i] = (1 - s * s) * (1 + bt[q] * t) / 2;
        dN[i][0] = 2 * (-2 * s) * (1 + bt[q] * t) / 2;
        dN[i][1] = 2 * (1 - s * s) * bt[q] / 2;
        int j = q == 0 ? 7 : 5;  // left, right
        N[j] = (1 - t * t) * (1 + bt[q] * s) / 2;
        dN[j][0] = 2 * (1 - t * t) * bt[q] / 2;
        dN[j][1] = 2 * (-2 * t) * (1 + bt[q] * s) / 2;
      }
      break;
    }
  }
}
struct Eval {
  ld x[3] = {0, 0, 0};
  ld J[3][2] = {{0}};
  ld jig[3][2] = {{0}};
  ld ie = 1;
  ld cond = 1;  // |J|^2/ie for 2D shapes
};
inline Eval eval(int k, const Mat& c, const ld* x) {
  Eval e;
  ld N[8] = {0}, dN[8][2] = {{0}};
  shape(k, x, N, dN);
  const int D = c.rows(), n = npts(k);
  for (int d = 0; d < D; ++d)
    for (int i = 0; i < n; ++i) {
      e.x[d] += N[i] * (ld)c(d, i);
      for (int l = 0; l < ldim(k); ++l) e.J[d][l] += dN[i][l] * (ld)c(d, i);
    }
  if (ldim(k) == 1) {
    ld s = 0;
    for (int d = 0; d < D; ++d) s += e.J[d][0] * e.J[d][0];
    e.ie = std::sqrt(s);
    for (int d = 0; d < D; ++d) e.jig[d][0] = e.J[d][0] / s;
  } else if (ldim(k) == 2) {
    ld a = 0, b = 0, m = 0;
    for (int d = 0; d < D; ++d) {
      a += e.J[d][0] * e.J[d][0];
      b += e.J[d][1] * e.J[d][1];
      m += e.J[d][0] * e.J[d][1];
    }
    // det via cross product (no cancellation)
    ld det = 0;
    if (D == 2) {
      ld q = e.J[0][0] * e.J[1][1] - e.J[1][0] * e.J[0][1];
      det = q * q;
    } else {
      ld q0 = e.J[1][0] * e.J[2][1] - e.J[2][0] * e.J[1][1], q1 = e.J[2][0] * e.J[0][1] - e.J[0][0] * e.J[2][1], q2 = e.J[0][0] * e.J[1][1] - e.J[1][0] * e.J[0][1];
      det = q0 * q0 + q1 * q1 + q2 * q2;
    }
    e.ie = std::sqrt(det);
    e.cond = (a + b) / e.ie;
    for (int d = 0; d < D; ++d) {
      e.jig[d][0] = (e.J[d][0] * b - e.J[d][1] * m) / det;
      e.jig[d][1] = (e.J[d][1] * a - e.J[d][0] * m) / det;
    }
  }
  return e;
}
inline std::unique_ptr<lf::geometry::Geometry> make(int k, const Mat& c) {
  using namespace lf::geometry;
  switch (k) {
    case Pt: return std::make_unique<Point>(Eigen::VectorXd(c.col(0)));
    case S1: return std::make_unique<SegmentO1>(c);
    case S2: return std::make_unique<SegmentO2>(c);
    case T1: return std::make_unique<TriaO1>(c);
    case Q1: return std::make_unique<QuadO1>(c);
    case Pa: return std::make_unique<Parallelogram>(c);
    case T2: return std::make_unique<TriaO2>(c);
    default: return std::make_unique<QuadO2>(c);
  }
}
inline std::string str(int k, const Mat& c) {
  std::ostringstream o;
  o.precision(17);
  o << kname(k) << "{";
  for (int i = 0; i < c.cols(); ++i) {
    o << "(";
    for (int d = 0; d < c.rows(); ++d) o << (d ? "," : "") << c(d, i);
    o << ")";
  }
  o << "}";
  return o.str();
}
// reference points: n x n lattice incl. boundary (inside the reference element)
inline std::vector<Eigen::VectorXd> refpts(int k, int n) {
  std::vector<Eigen::VectorXd> r;
  if (ldim(k) == 0) r.emplace_back(0);
  else if (ldim(k) == 1)
    for (int i = 0; i <= n; ++i) r.push_back((Eigen::VectorXd(1) << (double)i / n).finished());
  else
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= n; ++j)
        if (refel(k) == RefEl::kQuad() || i + j <= n) r.push_back(Eigen::Vector2d((double)i / n, (double)j / n));
  return r;
}
inline Mat stack(const std::vector<Eigen::VectorXd>& p) {
  Mat m(p[0].size(), p.size());
  for (size_t i = 0; i < p.size(); ++i) m.col(i) = p[i];
  return m;
}
// is the mapping regular (no sign change / zero of the volume form)?
inline bool regular(int k, const Mat& c, double floor_ = 0.05) {
  if (k == Pt) return true;
  ld ref = 0;
  for (int i = 0; i < c.cols(); ++i)
    for (int j = 0; j < i; ++j) ref = std::max(ref, (ld)(c.col(i) - c.col(j)).norm());
  int sgn = 0;
  for (auto& p : refpts(k, ldim(k) == 1 ? 8 : 6)) {
    ld x[2] = {p[0], p.size() > 1 ? p[1] : 0};
    auto e = eval(k, c, x);
    if (ldim(k) == 1) {
      if (e.ie < floor_ * ref) return false;
      continue;
    }
    if (e.ie < floor_ * ref * ref) return false;
    if (c.rows() == 2) {
      int s = e.J[0][0] * e.J[1][1] - e.J[1][0] * e.J[0][1] > 0 ? 1 : -1;
      if (sgn && s != sgn) return false;
      sgn = s;
    }
  }
  return true;
}
// planar layout -> R^3 embeddings
inline Mat embed(const Mat& p, int how) {
  Mat r(3, p.cols());
  for (int i = 0; i < p.cols(); ++i) {
    double x = p(0, i), y = p(1, i);
    switch (how) {
      case 0: r.col(i) << x, y, 0.5; break;                       // horizontal
      case 1: r.col(i) << -0.25, x, y; break;                     // x = const
      case 2: r.col(i) << y, 1.5, x; break;                       // y = const
      case 3: r.col(i) << x, y, 0.5 * x - 0.75 * y; break;        // tilted
      default: r.col(i) << x + 0.25 * y, y, 0.25 * x * y - 0.25 * x * x;  // warped
    }
  }
  return r;
}

// The shape moved towards the affine image of the reference element that agrees
// with it at the first nodes: eps = 1 is the shape itself, small eps a shape
// with almost straight edges and almost constant Jacobian.
inline Mat nearlyAffine(int k, const Mat& c, double eps) {
  Mat ref;
  if (ldim(k) == 1) {
    ref.resize(1, 3);
    ref << 0, 1, 0.5;
  } else if (refel(k) == RefEl::kTria()) {
    ref.resize(2, 6);
    ref << 0, 1, 0, 0.5, 0.5, 0, 0, 0, 1, 0, 0.5, 0.5;
  } else {
    ref.resize(2, 8);
    ref << 0, 1, 1, 0, 0.5, 1, 0.5, 0, 0, 0, 1, 1, 0, 0.5, 1, 0.5;
  }
  Mat J(c.rows(), ref.rows());
  J.col(0) = c.col(1) - c.col(0);
  if (ref.rows() == 2) J.col(1) = c.col(refel(k).NumNodes() - 1) - c.col(0);
  const Mat a = (J * ref.leftCols(c.cols())).colwise() + c.col(0);
  return a + eps * (c - a);
}

// all shapes of kind k (planar: 2 x n), from small lattices
inline void enumerate(int k, bool thorough, const std::function<void(const Mat&)>& f) {
  auto lattice = [](int n) {
    std::vector<Eigen::Vector2d> v;
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j) v.emplace_back(i, j);
    return v;
  };
  const auto L = lattice(k == Q1 && thorough ? 4 : 3);
  const int n = L.size();
  auto go = [&](const Mat& c) {
    if (regular(k, c)) f(c);
  };
  switch (k) {
    case Pt:
      for (auto& a : L) f(a);
      break;
    case S1:
      for (auto& a : L)
        for (auto& b : L) {
          Mat c(2, 2);
          c << a, b;
          if (a != b) go(c);
        }
      break;
    case S2:
      for (auto& a : L)
        for (auto& b : L)
          for (int i = -1; i <= 1; ++i)
            for (int j = -1; j <= 1; ++j)
              if (a != b) {
                Mat c(2, 3);
                c << a, b, 0.5 * (a + b) + (a - b).norm() * 0.15 * Eigen::Vector2d(i, j);
                go(c);
              }
      break;
    case T1:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          for (int l = 0; l < n; ++l)
            if (i != j && j != l && i != l) {
              Mat c(2, 3);
              c << L[i], L[j], L[l];
              go(c);
            }
      break;
    case Q1:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          for (int l = 0; l < n; ++l)
            for (int m = 0; m < n; ++m)
              if (i != j && i != l && i != m && j != l && j != m && l != m) {
                Mat c(2, 4);
                c << L[i], L[j], L[l], L[m];
                go(c);
              }
      break;
    case Pa:
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          for (int l = 0; l < n; ++l)
            if (i != j && j != l && i != l) {
              Mat c(2, 4);
              c << L[i], L[j], L[j] + L[l] - L[i], L[l];
              go(c);
            }
      break;
    case T2:
    case Q2: {
      const int nc = k == T2 ? 3 : 4;
      std::vector<Mat> base;
      auto addb = [&](std::vector<double> v) {
        Mat c(2, nc);
        for (int i = 0; i < nc; ++i) c.col(i) << v[2 * i], v[2 * i + 1];
        base.push_back(c);
      };
      if (k == T2) {
        addb({0, 0, 1, 0, 0, 1});
        addb({1, 2, 0, 0, 2, 0.5});
        addb({0, 1, 2, 0, 1, 2});
        addb({2, 2, 1, 0, 0, 1.5});
      } else {
        addb({0, 0, 1, 0, 1, 1, 0, 1});
        addb({0, 0, 2, 0.25, 1.5, 1.5, -0.25, 1});
        addb({2, 2, 0, 1.75, 0, 0, 1.5, 0.5});
      }
      std::vector<Eigen::Vector2d> off{{0, 0}, {0.1, 0}, {0, 0.1}, {-0.1, 0}, {0, -0.1}};
      if (k == T2 || thorough) {
        off.insert(off.end(), {{0.08, 0.08}, {-0.08, 0.08}, {0.08, -0.08}, {-0.08, -0.08}});
      }
      uint64_t tot = 1;
      for (int i = 0; i < nc; ++i) tot *= off.size();
      for (auto& b : base)
        for (uint64_t q = 0; q < tot; ++q) {
          Mat c(2, 2 * nc);
          uint64_t r = q;
          for (int i = 0; i < nc; ++i) {
            c.col(i) = b.col(i);
            c.col(nc + i) = 0.5 * (b.col(i) + b.col((i + 1) % nc)) + off[r % off.size()];
            r /= off.size();
          }
          go(c);
        }
    }
  }
}
}  // namespace gm
