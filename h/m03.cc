// M03: algebra of mesh functions: every expression tree (up to depth 2, all
// legal combinations of value kinds) is evaluated on every entity of the small
// meshes and compared pointwise with the same arithmetic on plain values.
#include <lf/mesh/utils/utils.h>

#include <complex>

#include "meshes.h"
using namespace ms;
namespace mu = lf::mesh::utils;
using lf::mesh::Entity;
using C = std::complex<double>;
namespace {
// a user type with +,-,* (non commutative), default constructible
struct U2 {
  double a = 0, b = 0;
  U2 operator+(const U2& o) const { return {a + o.a, b + o.b}; }
  U2 operator-(const U2& o) const { return {a - o.a, b - o.b}; }
  U2 operator*(const U2& o) const { return {a * o.a, a * o.b + b}; }
  U2 operator-() const { return {-a, -b}; }
};
inline double dist(double a, double b) { return std::abs(a - b); }
inline double dist(C a, C b) { return std::abs(a - b); }
inline double dist(int a, int b) { return std::abs(a - b); }
inline double dist(const U2& a, const U2& b) { return std::abs(a.a - b.a) + std::abs(a.b - b.b); }
template <class A, class B>
double dist(const Eigen::DenseBase<A>& a, const Eigen::DenseBase<B>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
  double m = 0;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) m = std::max(m, (double)std::abs(C(a.derived()(i, j)) - C(b.derived()(i, j))));
  return m;
}
struct Ctx {
  std::shared_ptr<lf::mesh::Mesh> mesh;
  std::string tag;
  std::vector<std::pair<const Entity*, Eigen::MatrixXd>> pts;
};
std::vector<Ctx> ctxs;
int part = 0, nparts = 1;
long serial = 0;

// MF: mesh function, F: std::function-like (entity, single local point) -> value
template <class MF, class F>
struct P {
  MF mf;
  F f;
  std::string n;
};
template <class MF, class F>
P<MF, F> mk(MF mf, F f, std::string n) { return {std::move(mf), std::move(f), std::move(n)}; }

template <class MF, class F>
void check(const P<MF, F>& p) {
  if (serial++ % nparts != part) return;
  for (auto& c : ctxs) {
    mc::current(c.tag + " :: " + p.n);
    if (mc::outcome(c.tag + p.n)) mc::states();
    for (auto& [e, x] : c.pts) {
      auto v = p.mf(*e, x);
      mc::transitions();
      MC_CHECK((long)v.size() == x.cols(), "value-count", p.n << " " << v.size() << " values for " << x.cols() << " points");
      if ((long)v.size() != x.cols()) continue;
      for (long i = 0; i < x.cols(); ++i) {
        const Eigen::VectorXd xi = x.col(i);
        auto want = p.f(*e, xi);
        MC_CHECK(dist(v[i], want) <= 1e-10, "pointwise-value", p.n << " codim " << e->Codim() << " point " << i << " of " << x.cols());
      }
    }
    mc::traces();
  }
}
template <class T>
auto ev(const T& t) {
  if constexpr (requires { t.eval(); }) return t.eval();
  else return t;
}
#define BIN(OPN, OP)                                                                             \
  template <class A, class FA, class B, class FB>                                                \
  auto OPN(const P<A, FA>& a, const P<B, FB>& b) {                                               \
    auto mf = a.mf OP b.mf;                                                                      \
    auto f = [fa = a.f, fb = b.f](const Entity& e, const Eigen::VectorXd& x) {                   \
      const auto u = fa(e, x);                                                                   \
      const auto v = fb(e, x);                                                                   \
      return ev(u OP v);                                                                         \
    };                                                                                           \
    return mk(std::move(mf), std::move(f), "(" + a.n + " " #OP " " + b.n + ")");                 \
  }
using lf::mesh::utils::operator+;
using lf::mesh::utils::operator-;
using lf::mesh::utils::operator*;
BIN(add, +)
BIN(sub, -)
BIN(mul, *)
#define UN(OPN, MFX, VX)                                                       \
  template <class A, class FA>                                                 \
  auto OPN(const P<A, FA>& a) {                                                \
    auto mf = MFX;                                                             \
    auto f = [fa = a.f](const Entity& e, const Eigen::VectorXd& x) {           \
      const auto u = fa(e, x);                                                 \
      return ev(VX);                                                           \
    };                                                                         \
    return mk(std::move(mf), std::move(f), #OPN "(" + a.n + ")");              \
  }
UN(neg, -a.mf, -u)
UN(trans, mu::transpose(a.mf), u.transpose())
UN(adj, mu::adjoint(a.mf), u.adjoint())
UN(conjM, mu::conjugate(a.mf), u.conjugate())
UN(conjS, mu::conjugate(a.mf), C(std::conj(u)))
UN(sqS, mu::squaredNorm(a.mf), u* u)
UN(sqV, mu::squaredNorm(a.mf), (double)u.squaredNorm())

// a global leaf: g(x) at the mapped point
template <class G>
auto glob(G g, std::string n) {
  return mk(mu::MeshFunctionGlobal(g), [g](const Entity& e, const Eigen::VectorXd& x) {
    Eigen::MatrixXd p = e.Geometry()->Global(x);
    return g(Eigen::VectorXd(p.col(0)));
  }, n);
}
template <class V>
auto cons(V v, std::string n) {
  return mk(mu::MeshFunctionConstant<V>(v), [v](const Entity&, const Eigen::VectorXd&) { return v; }, n);
}
double h(const Eigen::VectorXd& x, int k) {
  double s = 0.3 * k + 1;
  for (int d = 0; d < x.size(); ++d) s += (0.7 + 0.13 * k - 0.4 * d) * x[d] + 0.11 * (d + 1) * x[d] * x[0];
  return s;
}
template <class M>
auto matLeaf(int r, int c, int k, std::string n) {
  return glob([=](const Eigen::VectorXd& x) {
    M m;
    if constexpr (M::RowsAtCompileTime == Eigen::Dynamic || M::ColsAtCompileTime == Eigen::Dynamic) m.resize(r, c);
    for (int i = 0; i < r; ++i)
      for (int j = 0; j < c; ++j) {
        if constexpr (std::is_same_v<typename M::Scalar, C>) m(i, j) = C(h(x, k + i + 2 * j), h(x, k - i + j));
        else m(i, j) = h(x, k + i + 2 * j);
      }
    return m;
  }, n);
}
// all unary ops legal for a matrix-like leaf
template <bool ARR, bool VEC, class PA>
void unaries(const PA& a) {
  check(neg(a));
  check(neg(neg(a)));
  check(trans(a));
  check(conjM(a));
  check(trans(conjM(a)));
  if constexpr (!ARR) check(adj(a));
  if constexpr (!ARR) check(adj(neg(a)));
  if constexpr (VEC) check(sqV(a));
}
// same-shape pair: +,- and nested; scalar factors
template <class A, class B, class S>
void sums(const A& a, const B& b, const S& s) {
  check(add(a, b));
  check(add(b, a));
  check(sub(a, b));
  check(sub(b, a));
  check(sub(add(a, b), b));
  check(sub(a, sub(b, a)));
  check(add(neg(a), b));
  check(mul(s, a));
  check(mul(a, s));
  check(mul(s, sub(a, b)));
  check(sub(mul(a, s), mul(s, b)));
}

void all() {
  auto d1 = glob([](const Eigen::VectorXd& x) { return h(x, 1); }, "d1");
  auto d2 = glob([](const Eigen::VectorXd& x) { return h(x, -2); }, "d2");
  auto c1 = glob([](const Eigen::VectorXd& x) { return C(h(x, 1), h(x, 3)); }, "c1");
  auto c2 = glob([](const Eigen::VectorXd& x) { return C(h(x, 4), -h(x, 2)); }, "c2");
  auto i1 = glob([](const Eigen::VectorXd& x) { return (int)std::floor(3 * h(x, 1)); }, "i1");
  auto i2 = cons<int>(-4, "i2");
  auto k1 = cons<double>(2.5, "k1");
  auto kc = cons<C>(C(0.5, -2), "kc");
  auto u1 = glob([](const Eigen::VectorXd& x) { return U2{h(x, 1), h(x, 2)}; }, "u1");
  auto u2 = glob([](const Eigen::VectorXd& x) { return U2{h(x, -1), h(x, 5)}; }, "u2");
#if PART == 0
  // leaves
  check(d1); check(c1); check(i1); check(i2); check(k1); check(kc); check(u1);
  // scalars
  auto scal = [&](auto a, auto b) {
    check(add(a, b)); check(sub(a, b)); check(mul(a, b)); check(sub(b, a)); check(mul(b, a));
    check(neg(a)); check(neg(sub(a, b)));
    check(sub(mul(a, b), a)); check(mul(add(a, b), sub(b, a))); check(add(a, mul(b, b)));
    check(sub(a, sub(b, mul(a, a))));
  };
  scal(d1, d2); scal(d1, k1); scal(c1, c2); scal(c1, kc); scal(i1, i2); scal(u1, u2);
  check(mul(c1, d1)); check(mul(d1, c1));
  check(conjS(c1)); check(conjS(mul(c1, c2))); check(sqS(d1)); check(sqS(i1)); check(sqS(sub(d1, d2)));
#endif
  // fixed-size matrices
  using M2 = Eigen::Matrix2d; using V2d = Eigen::Vector2d; using R2 = Eigen::RowVector2d;
  using M23 = Eigen::Matrix<double, 2, 3>; using M2c = Eigen::Matrix2cd; using V2c = Eigen::Vector2cd;
  using MX = Eigen::MatrixXd; using VX = Eigen::VectorXd; using M2X = Eigen::Matrix<double, 2, Eigen::Dynamic>;
  using MR = Eigen::Matrix<double, 2, 2, Eigen::RowMajor>; using V3 = Eigen::Vector3d; using R3 = Eigen::RowVector3d;
  auto m2a = matLeaf<M2>(2, 2, 1, "m2a"), m2b = matLeaf<M2>(2, 2, 3, "m2b");
  auto v2a = matLeaf<V2d>(2, 1, 1, "v2a"), v2b = matLeaf<V2d>(2, 1, 2, "v2b");
  auto r2a = matLeaf<R2>(1, 2, 1, "r2a"), r2b = matLeaf<R2>(1, 2, 4, "r2b");
  auto m23a = matLeaf<M23>(2, 3, 1, "m23a"), m23b = matLeaf<M23>(2, 3, 5, "m23b");
  auto m2c = matLeaf<M2c>(2, 2, 1, "m2c"), m2d = matLeaf<M2c>(2, 2, 2, "m2d");
  auto v2c = matLeaf<V2c>(2, 1, 1, "v2c"), v2d = matLeaf<V2c>(2, 1, 3, "v2d");
  auto mxa = matLeaf<MX>(2, 2, 1, "mxa"), mxb = matLeaf<MX>(2, 2, 6, "mxb"), mx3 = matLeaf<MX>(2, 3, 2, "mx3");
  auto vxa = matLeaf<VX>(2, 1, 1, "vxa"), vxb = matLeaf<VX>(2, 1, 2, "vxb");
  auto p2a = matLeaf<M2X>(2, 3, 1, "p2a"), p2b = matLeaf<M2X>(2, 3, 2, "p2b");
  auto v3 = matLeaf<V3>(3, 1, 2, "v3"); auto r3 = matLeaf<R3>(1, 3, 1, "r3");
  auto kM = cons<M2>((M2() << 1, 2, 3, 4).finished(), "kM");
  check(m2a); check(mxa); check(vxa); check(p2a); check(kM); check(m2c);
#if PART == 1
  unaries<false, true>(m2a); unaries<false, true>(kM); unaries<false, true>(v2a); unaries<false, true>(r2a); unaries<false, true>(v3); unaries<false, true>(r3);
  unaries<false, true>(m23a); unaries<false, false>(m2c); unaries<false, true>(mxa); unaries<false, true>(vxa); unaries<false, true>(p2a);
  unaries<false, false>(v2c);
#endif
#if PART == 2
  sums(m2a, m2b, d1); sums(m2a, kM, d1); sums(v2a, v2b, k1); sums(r2a, r2b, d2); sums(m23a, m23b, d1); sums(mxa, mxb, d1); sums(vxa, vxb, d1);
#endif
#if PART == 3
  sums(p2a, p2b, d1); sums(m2a, mxa, d1); sums(v2a, vxa, d1); sums(m23a, p2a, d1); sums(p2a, mx3, d1); sums(m2c, m2d, c1); sums(v2c, v2d, c1);
#endif
  // products (non commutative!)
#if PART == 4
  check(mul(m2a, m2b)); check(mul(m2b, m2a)); check(mul(m2a, v2a)); check(mul(r2a, m2a)); check(mul(r2a, v2a)); check(mul(v2a, r2a));
  check(mul(m2a, m23a)); check(mul(m23a, v3)); check(mul(mxa, mxb)); check(mul(mxa, m2a)); check(mul(m2a, mxa)); check(mul(mxa, vxa)); check(mul(m2a, vxa)); check(mul(mxa, v2a));
  check(mul(m2a, p2a)); check(mul(p2a, v3)); check(mul(mxa, mx3)); check(mul(m2c, m2d)); check(mul(m2c, v2c));
  check(mul(mul(m2a, m2b), v2a)); check(mul(trans(v2a), mul(m2a, v2b))); check(mul(adj(v2c), mul(m2c, v2d))); check(sqV(mul(m2a, v2a))); check(sqV(mul(m2a, m2b))); check(sqV(mul(m2a, m23a))); check(sqV(sub(v2a, v2b)));
  check(sub(mul(m2a, m2b), mul(m2b, m2a))); check(mul(d1, mul(m2a, v2a))); check(trans(mul(m2a, m2b))); check(mul(trans(m23a), m2a));
#endif
  // arrays (coefficient-wise)
  using A2 = Eigen::Array2d; using A22 = Eigen::Array22d; using AX = Eigen::ArrayXXd; using A2c = Eigen::Array<C, 2, 1>;
  auto a2a = matLeaf<A2>(2, 1, 1, "a2a"), a2b = matLeaf<A2>(2, 1, 3, "a2b");
  auto a22a = matLeaf<A22>(2, 2, 1, "a22a"), a22b = matLeaf<A22>(2, 2, 3, "a22b");
  auto axa = matLeaf<AX>(2, 2, 1, "axa"), axb = matLeaf<AX>(2, 2, 3, "axb");
  auto aca = matLeaf<A2c>(2, 1, 1, "aca"), acb = matLeaf<A2c>(2, 1, 2, "acb");
#if PART == 5
  unaries<true, false>(a2a); unaries<true, false>(a22a); unaries<true, false>(axa); unaries<true, false>(aca);
#endif
#if PART == 5
  sums(a2a, a2b, d1); sums(a22a, a22b, k1); sums(axa, axb, d1); sums(a22a, axb, d1); sums(aca, acb, c1);
#endif
#if PART == 0
  check(mul(a2a, a2b)); check(mul(a22a, a22b)); check(mul(axa, axb)); check(mul(a22a, axa)); check(mul(axa, a22b)); check(mul(aca, acb)); check(mul(mul(a2a, a2b), a2a));
#endif
}
long count() {
  nparts = 16;
  auto T = topologies();
  const std::vector<int> sel = mc::thorough ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12} : std::vector<int>{3, 7, 12};
  for (int dim = 2; dim <= 3; ++dim)
    for (int t : sel)
      for (int g = 1; g <= 2; ++g) {
        Spec s = T[t];
        s.dim = dim;
        for (auto& c : s.cells) c.geo = g;
        for (auto& e : cellEdges(s)) s.edges.push_back({e.first, e.second, g});
        Ctx c;
        c.mesh = buildMesh(s);
        c.tag = s.name + (dim == 3 ? "@3D" : "") + (g == 2 ? " curved" : "");
        for (unsigned cd = 0; cd <= 2; ++cd)
          for (const auto* e : c.mesh->Entities(cd)) {
            for (int n : {1, 2, 5, 70}) {
              if (n == 70 && e != c.mesh->EntityByIndex(cd, 0)) continue;
              Eigen::MatrixXd x(2 - cd, n);
              for (int i = 0; i < n; ++i) {
                if (cd == 1) x(0, i) = (i + 0.5) / n;
                if (cd == 0) x.col(i) << (i + 0.3) / n * 0.6, 0.35 - 0.25 * i / n;
              }
              c.pts.push_back({e, x});
              if (n == 2 || n == 5) c.pts.push_back({e, Eigen::MatrixXd(x.rowwise().reverse())});  // other points, as many, on the same entity
            }
          }
        ctxs.push_back(std::move(c));
      }
  return nparts;
}
void item(long it) {
  part = it;
  serial = 0;
  mc::sample("part " + std::to_string(it));
  all();
}
}  // namespace
int main(int argc, char** argv) {
  // results must not depend on the temporaries an expression was built from
  return mc::run(argc, argv, count, item);
}
