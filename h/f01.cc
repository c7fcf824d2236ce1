// F01: reference shape functions: count and location, unisolvence, spanned
// polynomial space, gradients, traces.
#include "fe.h"
using namespace fh;
using lf::mesh::Orientation;
namespace {
struct Desc {
  std::string name;
  RefEl r = RefEl::kPoint();
  bool lagrange = false;
  unsigned interior = 1;
  std::vector<unsigned> edge;      // degrees of the edges
  std::vector<Orientation> o;      // orientation of the edges
};
lf::quad::QuadRuleCache* cache() {
  static lf::quad::QuadRuleCache c;
  return &c;
}
unsigned minDeg(const Desc& d) {
  unsigned m = d.interior;
  for (auto e : d.edge) m = std::min(m, e);
  return m;
}
unsigned maxDeg(const Desc& d) {
  unsigned m = std::max(1u, d.interior);
  for (auto e : d.edge) m = std::max(m, e);
  return m;
}
// evaluation, tolerant to scalar type
template <class S>
Mat real(const Eigen::Matrix<S, -1, -1>& m) {
  return m.real();
}
double poly(const Vec& x, int a, int b) {
  double r = 1;
  for (int i = 0; i < a; ++i) r *= x[0];
  for (int i = 0; i < b; ++i) r *= x[1];
  return r;
}
// number of shape functions: corners, edge interiors, cell interior
std::vector<unsigned> counts(const Desc& d) {
  std::vector<unsigned> c;
  const unsigned p = d.interior;
  switch (d.r) {
    case RefEl::kPoint(): return {1};
    case RefEl::kSegment(): return {1, 1, p - 1};
    case RefEl::kTria():
      c = {1, 1, 1, d.edge[0] - 1, d.edge[1] - 1, d.edge[2] - 1, p <= 2 ? 0 : (p - 1) * (p - 2) / 2};
      return c;
    default: return {1, 1, 1, 1, d.edge[0] - 1, d.edge[1] - 1, d.edge[2] - 1, d.edge[3] - 1, (p - 1) * (p - 1)};
  }
}
template <class S>
void check(const Desc& d, const SFE<S>& fe) {
  const std::string tag = d.name + (std::is_same_v<S, C> ? " complex" : "");
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  mc::transitions();
  const unsigned p = maxDeg(d), dim = d.r.Dimension();
  MC_CHECK(fe.RefEl() == d.r && fe.Dimension() == dim, "refel", tag);
  MC_CHECK(fe.Degree() == p, "degree", tag << " got " << fe.Degree());
  const auto cnt = counts(d);
  const unsigned n = std::accumulate(cnt.begin(), cnt.end(), 0u);
  MC_CHECK(fe.NumRefShapeFunctions() == n, "count", tag << " got " << fe.NumRefShapeFunctions());
  if (fe.NumRefShapeFunctions() != n) return;
  {
    unsigned k = 0;
    bool uni = true;
    for (auto e : d.edge) uni = uni && e == d.edge[0];
    for (int cd = dim; cd >= 0; --cd)
      for (unsigned s = 0; s < d.r.NumSubEntities(cd); ++s, ++k) {
        MC_CHECK(fe.NumRefShapeFunctions(cd, s) == cnt[k], "count-sub", tag << " codim " << cd << " sub " << s << " got " << fe.NumRefShapeFunctions(cd, s));
        if ((uni || cd != 1 || dim != 2) && dim > 0) MC_CHECK(fe.NumRefShapeFunctions(cd) == cnt[k], "count-codim", tag << " codim " << cd);
      }
  }
  const Mat nodes = fe.EvaluationNodes();
  MC_CHECK(nodes.rows() == dim && (unsigned)nodes.cols() == fe.NumEvaluationNodes(), "nodes", tag);
  if (nodes.rows() != dim) return;
  if (dim > 0) {
    MC_CHECK(nodes.minCoeff() > -1e-12 && nodes.maxCoeff() < 1 + 1e-12, "nodes-inside", tag);
    if (d.r == RefEl::kTria()) MC_CHECK(nodes.colwise().sum().maxCoeff() < 1 + 1e-12, "nodes-inside", tag);
  }
  auto V = [&](const Mat& x) { return real<S>(fe.EvalReferenceShapeFunctions(x)); };
  // --- unisolvence: the dofs of the shape functions are the unit vectors
  const Mat B = V(nodes);
  MC_CHECK(B.rows() == n && B.cols() == nodes.cols(), "eval-size", tag);
  if (B.rows() != n || B.cols() != nodes.cols()) return;
  for (unsigned k = 0; k < n; ++k) {
    Eigen::Matrix<S, 1, -1> row = B.row(k).cast<S>();
    const auto dofs = fe.NodalValuesToDofs(row);
    MC_CHECK(dofs.size() == n, "dofs-size", tag);
    if (dofs.size() != n) return;
    for (unsigned j = 0; j < n; ++j)
      MC_CHECK(std::abs(dofs[j] - S(j == k ? 1 : 0)) < 1e-9, "unisolvent", tag << " function " << k << " dof " << j << " = " << dofs[j]);
    if constexpr (std::is_same_v<S, C>) {
      const Eigen::Matrix<S, 1, -1> r2 = row * C(2, -3);
      MC_CHECK((fe.NodalValuesToDofs(r2) - C(2, -3) * dofs).norm() < 1e-9, "dofs-linear", tag);
    }
  }
  if (d.lagrange && dim > 0) {
    MC_CHECK((unsigned)nodes.cols() == n && (B - Mat::Identity(n, n)).norm() < 1e-12, "cardinal", tag);
    // nodes: corners, then along the edges, then the interior, on the p-lattice
    unsigned k = 0;
    const Mat rc = d.r.NodeCoords();
    for (unsigned c = 0; c < d.r.NumSubEntities(dim); ++c, ++k) MC_CHECK((nodes.col(k) - rc.col(c)).norm() < 1e-12, "node-corner", tag << " node " << k);
    if (dim == 2)
      for (unsigned e = 0; e < d.r.NumSubEntities(1); ++e)
        for (unsigned i = 1; i < p; ++i, ++k) {
          const Vec a = rc.col(e), b = rc.col((e + 1) % rc.cols());
          MC_CHECK((nodes.col(k) - (a + (b - a) * i / (double)p)).norm() < 1e-12, "node-edge", tag << " node " << k << ": " << nodes.col(k).transpose());
        }
    std::set<std::pair<long, long>> seen;
    for (unsigned j = 0; j < n; ++j) {
      const double x = nodes(0, j) * p, y = dim == 2 ? nodes(1, j) * p : 0;
      MC_CHECK(std::abs(x - std::round(x)) < 1e-12 && std::abs(y - std::round(y)) < 1e-12, "node-lattice", tag << " node " << j);
      seen.insert({std::lround(x), std::lround(y)});
    }
    MC_CHECK(seen.size() == n, "node-distinct", tag);
  }
  // --- batching
  const Mat L = pts(d.r, 5);
  const Mat A = V(L);
  for (int j = 0; j < L.cols(); ++j) MC_CHECK((V(L.col(j)) - A.col(j)).norm() < 1e-11 * (1 + A.col(j).norm()), "batch", tag << " point " << L.col(j).transpose());
  if (dim == 0) {
    MC_CHECK(A(0, 0) == 1 && V(Mat(0, 3)) == Mat::Ones(1, 3), "point", tag);
    return;
  }
  auto G = [&](const Mat& x) { return real<S>(fe.GradientsReferenceShapeFunctions(x)); };
  const Mat AG = G(L);
  MC_CHECK(AG.rows() == n && AG.cols() == (long)dim * L.cols(), "grad-size", tag);
  if (AG.rows() != n || AG.cols() != (long)dim * L.cols()) return;
  for (int j = 0; j < L.cols(); ++j) MC_CHECK((G(L.col(j)) - AG.middleCols(dim * j, dim)).norm() < 1e-10 * (1 + AG.norm()), "grad-batch", tag);
  {
    Mat W(dim, 150);  // many points at once
    for (int j = 0; j < W.cols(); ++j) W.col(j) = L.col((7 * j + j / 5) % L.cols());
    const Mat VW = V(W), GW = G(W);
    MC_CHECK(VW.rows() == n && VW.cols() == W.cols() && GW.rows() == n && GW.cols() == (long)dim * W.cols(), "large-batch", tag);
    bool ok = VW.rows() == n && VW.cols() == W.cols() && GW.rows() == n && GW.cols() == (long)dim * W.cols();
    for (int j = 0; ok && j < W.cols(); ++j) {
      const int i = (7 * j + j / 5) % L.cols();
      ok = (VW.col(j) - A.col(i)).norm() < 1e-11 * (1 + A.col(i).norm()) && (GW.middleCols(dim * j, dim) - AG.middleCols(dim * i, dim)).norm() < 1e-10 * (1 + AG.norm());
    }
    MC_CHECK(ok, "large-batch", tag);
  }
  // --- they are polynomials of the announced degree and the gradients are the
  //     exact derivatives: differentiation of their interpolant on a tensor grid
  const Cheb ch(p + 2);
  const int m = ch.n;
  if (dim == 1) {
    const Mat F = V(ch.x.transpose()), dF = F * ch.D.transpose();
    const Mat Gx = G(ch.x.transpose());
    MC_CHECK((dF - Gx).cwiseAbs().maxCoeff() < 1e-9 * p * p * p, "gradient", tag << " " << (dF - Gx).cwiseAbs().maxCoeff());
    for (int j = 0; j < L.cols(); ++j) {
      const auto r = ch.at(L(0, j));
      MC_CHECK((F * r.transpose() - A.col(j)).norm() < 1e-10, "polynomial", tag);
      MC_CHECK((dF * r.transpose() - AG.col(j)).norm() < 1e-8 * p * p, "gradient", tag << " at " << L.col(j).transpose());
    }
    const Mat one = ch.at(0.37) * ch.D;  // degree: the (p+1)-th difference vanishes
    (void)one;
  } else {
    Mat X(2, m * m);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < m; ++j) X.col(i * m + j) << ch.x[i], d.r == RefEl::kTria() ? ch.x[j] * (1 - ch.x[i]) : ch.x[j];
    const Mat F = V(X), GX = G(X);
    for (unsigned k = 0; k < n; ++k) {
      const Mat f = Eigen::Map<const Eigen::Matrix<double, -1, -1, Eigen::RowMajor>>(Eigen::RowVectorXd(F.row(k)).data(), m, m).eval();
      const Mat fu = ch.D * f, fv = f * ch.D.transpose();
      for (int i = 0; i < m; ++i)
        for (int j = 0; j < m; ++j) {
          const double gx = GX(k, 2 * (i * m + j)), gy = GX(k, 2 * (i * m + j) + 1);
          const double wu = d.r == RefEl::kTria() ? gx - ch.x[j] * gy : gx, wv = d.r == RefEl::kTria() ? (1 - ch.x[i]) * gy : gy;
          MC_CHECK(std::abs(wu - fu(i, j)) < 1e-9 * p * p * p && std::abs(wv - fv(i, j)) < 1e-9 * p * p * p, "gradient",
                   tag << " function " << k << " at " << X.col(i * m + j).transpose() << " gradient " << gx << " " << gy << " du,dv " << fu(i, j) << " " << fv(i, j));
        }
      for (int q = 0; q < L.cols(); ++q) {
        const double u = L(0, q), v = d.r == RefEl::kTria() ? (u < 1 ? L(1, q) / (1 - u) : 0.) : L(1, q);
        const auto ru = ch.at(u), rv = ch.at(std::min(v, 1.));
        MC_CHECK(std::abs((ru * f * rv.transpose())(0) - A(k, q)) < 1e-9, "polynomial", tag << " function " << k << " at " << L.col(q).transpose());
        if (d.r == RefEl::kQuad() || u < 1) {
          const double fu_ = (ru * fu * rv.transpose())(0), fv_ = (ru * fv * rv.transpose())(0);
          const double gx = AG(k, 2 * q), gy = AG(k, 2 * q + 1);
          const double wu = d.r == RefEl::kTria() ? gx - v * gy : gx, wv = d.r == RefEl::kTria() ? (1 - u) * gy : gy;
          MC_CHECK(std::abs(wu - fu_) < 1e-8 * p * p * p && std::abs(wv - fv_) < 1e-8 * p * p * p, "gradient", tag << " function " << k << " at " << L.col(q).transpose());
        } else {  // the corner (1,0): limit along the two edges meeting there
          const Mat e1 = (Mat(2, 3) << 1 - 1e-5, 1 - 2e-5, 1 - 3e-5, 0, 0, 0).finished();
          const Mat g1 = G(e1);
          for (int cpt = 0; cpt < 2; ++cpt)
            MC_CHECK(std::abs(3 * g1(k, cpt) - 3 * g1(k, 2 + cpt) + g1(k, 4 + cpt) - AG(k, 2 * q + cpt)) < 1e-6 * p * p * p, "gradient-corner", tag << " function " << k);
        }
      }
    }
  }
  // --- the span contains all polynomials of the lowest degree involved
  const unsigned q = minDeg(d);
  const bool tria = d.r == RefEl::kTria();
  for (unsigned a = 0; a <= q; ++a)
    for (unsigned b = 0; b <= (dim == 2 ? (tria ? q - a : q) : 0); ++b) {
      Eigen::Matrix<S, 1, -1> vals(nodes.cols());
      for (int i = 0; i < nodes.cols(); ++i) vals[i] = S(poly(nodes.col(i), a, b));
      const Eigen::Matrix<S, 1, -1> c = fe.NodalValuesToDofs(vals);
      const Eigen::RowVectorXd w = c.real() * A;
      for (int i = 0; i < L.cols(); ++i) MC_CHECK(std::abs(w[i] - poly(L.col(i), a, b)) < 1e-9, "reproduce", tag << " x^" << a << "y^" << b << " at " << L.col(i).transpose() << " got " << w[i]);
    }
  // --- locality: functions of a sub-entity vanish where that sub-entity is not
  if (dim == 2) {
    const Mat rc = d.r.NodeCoords();
    const int nc = rc.cols();
    for (int e = 0; e < nc; ++e) {
      Mat x(2, 6);
      for (int i = 0; i < 6; ++i) x.col(i) = rc.col(e) + (rc.col((e + 1) % nc) - rc.col(e)) * i / 5.;
      const Mat b = V(x);
      unsigned k = 0;
      for (int s = 0; s < 2 * nc + 1; ++s)
        for (unsigned i = 0; i < cnt[s]; ++i, ++k) {
          const bool here = s < nc ? (s == e || s == (e + 1) % nc) : s - nc == e;
          if (!here) MC_CHECK(b.row(k).cwiseAbs().maxCoeff() < 1e-12, "locality", tag << " function " << k << " on edge " << e << ": " << b.row(k));
        }
      for (int c = 0; c < 2; ++c)  // corner functions: 1 in their corner
        MC_CHECK(std::abs(b((e + c) % nc, c ? 5 : 0) - 1) < 1e-12, "corner-value", tag);
    }
  }
  std::ostringstream os;
  os << fe;
  MC_CHECK(os.str().find("degree = " + std::to_string(p)) != std::string::npos && os.str().find("n_rsf = " + std::to_string(n)) != std::string::npos, "print", tag << os.str());
}
// traces of a cell element agree with the elements of its edges
template <class S>
void traces(const Desc& d, const SFE<S>& fe, const std::function<std::unique_ptr<SFE<S>>(unsigned)>& seg) {
  const auto cnt = counts(d);
  const Mat rc = d.r.NodeCoords();
  const int nc = rc.cols();
  unsigned off = nc;
  for (int e = 0; e < nc; ++e) {
    auto s = seg(d.edge[e]);
    Mat t(1, 8), x(2, 8);
    const bool neg = !d.o.empty() && d.o[e] == Orientation::negative;
    for (int i = 0; i < 8; ++i) {
      const double u = i / 7.;
      t(0, i) = neg ? 1 - u : u;  // the edge's own parameter
      x.col(i) = rc.col(e) + (rc.col((e + 1) % nc) - rc.col(e)) * u;
    }
    const Mat a = real<S>(fe.EvalReferenceShapeFunctions(x)), b = real<S>(s->EvalReferenceShapeFunctions(t));
    auto cmp = [&](unsigned k, unsigned j) {
      MC_CHECK((a.row(k) - b.row(j)).cwiseAbs().maxCoeff() < 1e-11, "trace", d.name << " edge " << e << " function " << k << " : " << a.row(k) << " <-> " << b.row(j));
    };
    cmp(e, neg ? 1 : 0);
    cmp((e + 1) % nc, neg ? 0 : 1);
    // the k-th dof seen from the cell is dof k of the edge, reversed if the
    // edge runs against the cell
    for (unsigned i = 0; i + 1 < d.edge[e]; ++i) cmp(off + i, 2 + (neg ? d.edge[e] - 2 - i : i));
    off += d.edge[e] - 1;
  }
}
// an element together with its values at the points of a quadrature rule
template <class S>
void precomputed(const Desc& d, const SFE<S>& fe) {
  using P = lf::uscalfe::PrecomputedScalarReferenceFiniteElement<S>;
  P none;
  MC_CHECK(!none.isInitialized(), "precomputed", d.name << " default constructed");
  auto table = [&](const P& p, const lf::quad::QuadRule& q, const std::string& w) {
    const std::string tag = d.name + " precomputed " + w;
    MC_CHECK(p.isInitialized(), "precomputed", tag);
    MC_CHECK(p.Qr().RefEl() == q.RefEl() && p.Qr().Degree() == q.Degree() && p.Qr().Points() == q.Points() && p.Qr().Weights() == q.Weights(), "precomputed-rule", tag);
    MC_CHECK(p.PrecompReferenceShapeFunctions() == fe.EvalReferenceShapeFunctions(q.Points()), "precomputed-values", tag);
    MC_CHECK(p.PrecompGradientsReferenceShapeFunctions() == fe.GradientsReferenceShapeFunctions(q.Points()), "precomputed-gradients", tag);
  };
  std::vector<lf::quad::QuadRule> R;
  for (unsigned g : {0u, 1u, 2u, 3u, 5u, 8u, 13u, 21u, 40u}) R.push_back(lf::quad::make_QuadRule(d.r, g));
  for (size_t i = 0; i < R.size(); ++i) {
    P p(&fe, R[i]);
    table(p, R[i], "degree " + std::to_string(R[i].Degree()));
    P q(&fe, R[(i + 1) % R.size()]);
    q = std::move(p);
    table(q, R[i], "move assigned");
    const P c(std::move(q));
    table(c, R[i], "moved");
    if (i == 2) {
      Desc e = d;
      e.name += " precomputed";
      check<S>(e, c);
    }
  }
}
std::vector<Desc> D;
template <class S>
void hierarchic(const Desc& d) {
  std::array<unsigned, 3> e3{};
  std::array<unsigned, 4> e4{};
  for (size_t i = 0; i < d.edge.size(); ++i) {
    if (i < 3) e3[i] = d.edge[i];
    e4[i] = d.edge[i];
  }
  std::function<std::unique_ptr<SFE<S>>(unsigned)> seg = [](unsigned p) { return std::make_unique<lf::fe::FeHierarchicSegment<S>>(p, *cache()); };
  if (d.r == RefEl::kSegment()) {
    const lf::fe::FeHierarchicSegment<S> fe(d.interior, *cache());
    check<S>(d, fe);
    if (d.interior <= 8) precomputed<S>(d, fe);
  } else if (d.r == RefEl::kTria()) {
    lf::fe::FeHierarchicTria<S> fe(d.interior, e3, *cache(), d.o);
    check<S>(d, fe);
    traces<S>(d, fe, seg);
    if (minDeg(d) == maxDeg(d) && d.interior <= 4) precomputed<S>(d, fe);
  } else {
    lf::fe::FeHierarchicQuad<S> fe(d.interior, e4, *cache(), d.o);
    check<S>(d, fe);
    traces<S>(d, fe, seg);
    if (minDeg(d) == maxDeg(d) && d.interior <= 4) precomputed<S>(d, fe);
  }
}
template <class S>
void lagrange() {
  using namespace lf::uscalfe;
  for (unsigned p = 1; p <= 3; ++p) {
    check<S>(Desc{"point " + std::to_string(p), RefEl::kPoint(), true, p}, lf::fe::FePoint<S>(p));
    auto mk = [&](RefEl r) { return Desc{"lagrange " + std::to_string(p) + " " + r.ToString(), r, true, p, std::vector<unsigned>(r.Dimension() == 2 ? r.NumNodes() : 0, p)}; };
    std::unique_ptr<SFE<S>> t, q, s;
    if (p == 1) t = std::make_unique<FeLagrangeO1Tria<S>>(), q = std::make_unique<FeLagrangeO1Quad<S>>(), s = std::make_unique<FeLagrangeO1Segment<S>>();
    if (p == 2) t = std::make_unique<FeLagrangeO2Tria<S>>(), q = std::make_unique<FeLagrangeO2Quad<S>>(), s = std::make_unique<FeLagrangeO2Segment<S>>();
    if (p == 3) t = std::make_unique<FeLagrangeO3Tria<S>>(), q = std::make_unique<FeLagrangeO3Quad<S>>(), s = std::make_unique<FeLagrangeO3Segment<S>>();
    std::function<std::unique_ptr<SFE<S>>(unsigned)> seg = [](unsigned k) -> std::unique_ptr<SFE<S>> {
      if (k == 1) return std::make_unique<FeLagrangeO1Segment<S>>();
      if (k == 2) return std::make_unique<FeLagrangeO2Segment<S>>();
      return std::make_unique<FeLagrangeO3Segment<S>>();
    };
    check<S>(mk(RefEl::kSegment()), *s);
    check<S>(mk(RefEl::kTria()), *t);
    check<S>(mk(RefEl::kQuad()), *q);
    for (auto* f : {s.get(), t.get(), q.get()}) precomputed<S>(mk(f->RefEl()), *f);
    traces<S>(mk(RefEl::kTria()), *t, seg);
    traces<S>(mk(RefEl::kQuad()), *q, seg);
  }
}
// Legendre and Jacobi polynomials on [0,1], their integrals and derivatives
// against explicit sums
using LD = long double;
LD binom(LD a, unsigned k) {
  LD r = 1;
  for (unsigned i = 0; i < k; ++i) r *= (a - i) / (LD)(k - i);
  return r;
}
LD ipow(LD x, unsigned k) {
  LD r = 1;
  while (k--) r *= x;
  return r;
}
// t^n P_n^{(a,b)}(2x/t-1) and its derivative with respect to t
LD jac(int n, LD a, LD b, LD x, LD t, bool dt = false) {
  if (n < 0) return 0;
  LD r = 0;
  for (int s = dt; s <= n; ++s) r += binom(n + a, n - s) * binom(n + b, s) * (dt ? -s * ipow(x - t, s - 1) : ipow(x - t, s)) * ipow(x, n - s);
  return r;
}
template <class F>
LD integral(const F& f, LD x) {
  static Vec g, w;
  if (g.size() == 0) gauss(24, g, w);
  LD r = 0;
  for (int i = 0; i < g.size(); ++i) r += (LD)w[i] * x * f(x * g[i]);
  return r;
}
void polynomials(unsigned n) {
  const std::string tag = "polynomials of degree " + std::to_string(n);
  mc::current(tag);
  mc::transitions();
  if (mc::outcome(tag)) mc::states();
  auto same = [&](double got, LD want, LD scale, const char* key, LD x, LD p, LD q) {
    MC_CHECK(std::abs((double)(got - want)) < 1e-9 * (double)(1 + std::abs(want) + scale), key, tag << " x " << (double)x << " " << (double)p << " " << (double)q << " got " << got << " want " << (double)want);
  };
  using namespace lf::fe;
  for (int i = 0; i <= 20; ++i) {
    const double x = i / 20.;
    for (double t : {1., 0.5, 0.75, 2., 0.125, 0.}) {
      if (x > t) continue;
      const LD sc = std::max((LD)1, ipow(t, n));
      same(Legendre(n, x, t), jac(n, 0, 0, x, t), sc, "legendre", x, t, 0);
      same(LegendreDx(n, x, t), n == 0 ? 0 : (n + 1) * jac(n - 1, 1, 1, x, t), n * n * sc, "legendre-dx", x, t, 0);
      if (n == 0) continue;
      same(ILegendre(n, x, t), integral([&](LD y) { return jac(n - 1, 0, 0, y, t); }, x), sc, "legendre-integral", x, t, 0);
      same(ILegendreDx(n, x, t), jac(n - 1, 0, 0, x, t), sc, "legendre-integral-dx", x, t, 0);
      if (n > 1 || t > 0) same(ILegendreDt(n, x, t), integral([&](LD y) { return jac(n - 1, 0, 0, y, t, true); }, x), n * sc, "legendre-integral-dt", x, t, 0);
    }
    MC_CHECK(Legendre(n, x) == Legendre(n, x, 1) && LegendreDx(n, x) == LegendreDx(n, x, 1), "legendre-default", tag);
    for (double a : {0., 1., 2., 3., 4., 5., 6., 8., 11., 16., 0.5}) {
      const LD top = std::abs(binom(n + a, n));
      for (double b : {0., 1., 2., 3., 5.5}) same(Jacobi(n, a, b, x), jac(n, a, b, x, 1), std::max(top, std::abs(binom(n + b, n))), "jacobi", x, a, b);
      same(Jacobi(n, a, x), jac(n, a, 0, x, 1), top, "jacobi", x, a, 0);
      same(JacobiDx(n, a, x), n == 0 ? 0 : (n + a + 1) * jac(n - 1, a + 1, 1, x, 1), n * n * top, "jacobi-dx", x, a, 0);
      if (n == 0) continue;
      same(IJacobi(n, a, x), integral([&](LD y) { return jac(n - 1, a, 0, y, 1); }, x), top, "jacobi-integral", x, a, 0);
      same(IJacobiDx(n, a, x), jac(n - 1, a, 0, x, 1), top, "jacobi-integral-dx", x, a, 0);
    }
  }
}
void add(RefEl r, unsigned in, std::vector<unsigned> e) {
  const unsigned k = e.size();
  for (unsigned b = 0; b < (1u << k); ++b) {
    Desc d{"hierarchic " + r.ToString() + " p=" + std::to_string(in) + " e=", r, false, in, e};
    for (unsigned i = 0; i < k; ++i) {
      d.o.push_back(b >> i & 1 ? Orientation::negative : Orientation::positive);
      d.name += std::to_string(e[i]) + (b >> i & 1 ? "-" : "+");
    }
    D.push_back(d);
  }
}
long count() {
  const bool T = mc::thorough;
  for (unsigned p = 1; p <= (T ? 40u : 24u); ++p) add(RefEl::kSegment(), p, {});
  const unsigned mt = T ? 5 : 4, mq = T ? 4 : 3;
  for (unsigned i = 1; i <= mt; ++i)
    for (unsigned a = 1; a <= mt; ++a)
      for (unsigned b = 1; b <= mt; ++b)
        for (unsigned c = 1; c <= mt; ++c) add(RefEl::kTria(), i, {a, b, c});
  for (unsigned i = 1; i <= mq; ++i)
    for (unsigned a = 1; a <= mq; ++a)
      for (unsigned b = 1; b <= mq; ++b)
        for (unsigned c = 1; c <= mq; ++c)
          for (unsigned e = 1; e <= mq; ++e) add(RefEl::kQuad(), i, {a, b, c, e});
  for (unsigned p = mt + 1; p <= (T ? 16u : 12u); ++p) {
    add(RefEl::kTria(), p, {p, p, p});
    add(RefEl::kTria(), 2, {1, p, 3});
    add(RefEl::kTria(), p, {3, 1, 2});
  }
  for (unsigned p = mq + 1; p <= (T ? 12u : 10u); ++p) {
    add(RefEl::kQuad(), p, {p, p, p, p});
    add(RefEl::kQuad(), 2, {p, 1, 3, 2});
  }
  return D.size() + 2 + (T ? 36 : 28);
}
void item(long it) {
  if (it == 0) return lagrange<double>();
  if (it == 1) return lagrange<C>();
  if (it - 2 >= (long)D.size()) return polynomials(it - 2 - D.size());
  const auto& d = D[it - 2];
  mc::sample(d.name);
  hierarchic<double>(d);

}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
