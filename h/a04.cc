// A04: imposing solution components in a linear system: all small systems
// (given as every order-relevant list of triplets incl. duplicates), every
// subset of fixed components, three elimination functions.
#include <lf/assemble/assemble.h>

#include <complex>

#include "mc.h"
using C = std::complex<double>;
using namespace lf::assemble;
namespace {
template <class S>
S val(int k) {
  return S(k);
}
template <>
C val<C>(int k) {
  return k == 0 ? C(0) : C(k, 2 * k + 1);
}
template <class S>
using Mx = Eigen::Matrix<S, -1, -1>;
template <class S>
using Vx = Eigen::Matrix<S, -1, 1>;
// A: dense reference, dup: split every entry into two triplets, order: reversed insertion
bool fixed(uint64_t mask, unsigned k) { return mask >> (k % 61) & 1; }
template <class S>
void system(const Mx<S>& A0, unsigned n, int variant, const std::vector<uint64_t>& masks) {
  std::string at;
  {
    std::ostringstream o;
    if (n > 3) o << n << " unknowns, hash " << mc::fnv(A0.data(), sizeof(S) * n * n);
    else o << A0.format(Eigen::IOFormat(-1, Eigen::DontAlignCols, ",", ";"));
    at = (std::is_same_v<S, C> ? "complex " : "real ") + o.str() + " variant " + std::to_string(variant);
  }
  // tiny matrices and tiny prescribed values
  double SA = 1, SC = 1;
  Mx<S> A = A0;
  auto make = [&] {
    COOMatrix<S> m(n, n);
    std::vector<std::tuple<unsigned, unsigned, S>> t;
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j) {
        if (A(i, j) == S(0) && variant != 2) continue;
        if (variant == 1) {
          t.push_back({i, j, A(i, j) + S(3 * SA)});
          t.insert(t.begin(), {i, j, S(-3 * SA)});
        } else {
          t.push_back({i, j, A(i, j)});
        }
      }
    if (variant == 2) std::reverse(t.begin(), t.end());
    for (auto& [i, j, v] : t) m.AddToEntry(i, j, v);
    return m;
  };
  for (int gv = 0; gv < 3; ++gv) {
  const int sc = (gv + variant + (int)(mc::fnv(at.data(), at.size()) % 3)) % 3;
  SA = sc == 2 ? 0x1p-60 : 1;
  SC = sc == 1 ? 0x1p-60 : 1;
  A = S(SA) * A0;
  // entrywise, scaled with the data
  auto same = [](const auto& x, const auto& y, double t) { return x.rows() == y.rows() && x.cols() == y.cols() && (x.size() == 0 || (x - y).cwiseAbs().maxCoeff() <= t); };
  Vx<S> b(n), g(n);
  for (unsigned k = 0; k < n; ++k) {
    b[k] = gv == 2 ? S(0) : val<S>(3 - 5 * (int)(k % 7));
    g[k] = gv == 0 ? val<S>(7 + 2 * (int)(k % 5)) : gv == 1 ? val<S>((int)(k % 3) - 1) : S(0);  // including homogeneous values
    if (gv == 2 && k % 2) g[k] = val<S>(1);
  }
  b *= S(SA * SC);
  g *= S(SC);
  const S g2 = val<S>(-4) * S(SC);
  for (uint64_t f : masks) {
    mc::current(at + " fixed " + std::to_string(f) + " values " + std::to_string(gv));
    mc::transitions(4);
    mc::states();
    auto fix = [&](unsigned k) { return fixed(f, k); };
    auto sel = [&](gdof_idx_t k) -> std::pair<bool, S> { return {fix(k), fix(k) ? g[k] : val<S>(99)}; };  // value irrelevant if not fixed
    const double tolA = 1e-12 * SA, tol = 1e-12 * SA * SC;
    {  // symmetric elimination
      auto m = make();
      Vx<S> r = b;
      FixFlaggedSolutionComponents<S>(sel, m, r);
      Mx<S> W = A;
      Vx<S> w = b;
      for (unsigned i = 0; i < n; ++i)
        for (unsigned j = 0; j < n; ++j) {
          if (fix(i) || fix(j)) W(i, j) = S(i == j ? 1 : 0);
          if (!fix(i) && fix(j)) w[i] -= A(i, j) * g[j];
        }
      for (unsigned i = 0; i < n; ++i)
        if (fix(i)) w[i] = g[i];
      MC_CHECK(same(m.makeDense(), W, tolA) && (unsigned)m.rows() == n && (unsigned)m.cols() == n, "flagged-matrix", mc::current() << " got " << m.makeDense() << " want " << W);
      MC_CHECK(same(r, w, tol), "flagged-rhs", mc::current() << " got " << r.transpose() << " want " << w.transpose());
      {  // right hand side in a vector of the standard library; a second set of components fixed afterwards
        auto m2 = make();
        std::vector<S> r2(b.data(), b.data() + n);
        FixFlaggedSolutionComponents<S>(sel, m2, r2);
        MC_CHECK(same(Vx<S>(Eigen::Map<Vx<S>>(r2.data(), n)), w, tol), "flagged-rhs-std", mc::current());
        const uint64_t f2 = f << 1 | (f >> 60 & 1) | 1;
        auto sel2 = [&](gdof_idx_t k) -> std::pair<bool, S> { return {fixed(f2, k), fixed(f2, k) ? g2 : val<S>(98)}; };
        FixFlaggedSolutionComponents<S>(sel2, m2, r2);
        Mx<S> W2 = W;
        Vx<S> w2 = w;
        for (unsigned i = 0; i < n; ++i)
          for (unsigned j = 0; j < n; ++j) {
            if (!fixed(f2, i) && fixed(f2, j)) w2[i] -= W(i, j) * g2;
            if (fixed(f2, i) || fixed(f2, j)) W2(i, j) = S(i == j ? 1 : 0);
          }
        for (unsigned i = 0; i < n; ++i)
          if (fixed(f2, i)) w2[i] = g2;
        MC_CHECK(same(m2.makeDense(), W2, tolA) && same(Vx<S>(Eigen::Map<Vx<S>>(r2.data(), n)), w2, tol), "flagged-twice", mc::current());
      }
      mc::outcome(mc::fnv(w.data(), sizeof(S) * n, mc::fnv(W.data(), sizeof(S) * n * n)));
    }
    Mx<S> W = A;
    Vx<S> w = b;
    for (unsigned i = 0; i < n; ++i)
      if (fix(i)) {
        w[i] = g[i];
        for (unsigned j = 0; j < n; ++j) W(i, j) = S(i == j ? 1 : 0);
      }
    {  // row replacement
      auto m = make();
      Vx<S> r = b;
      FixFlaggedSolutionCompAlt<S>(sel, m, r);
      MC_CHECK(same(m.makeDense(), W, tolA), "alt-matrix", mc::current());
      MC_CHECK(same(r, w, tol), "alt-rhs", mc::current());
    }
    for (bool rev : {false, true}) {  // list of components
      auto m = make();
      Vx<S> r = b;
      fixed_components_t<S> l;
      for (unsigned i = 0; i < n; ++i)
        if (fix(i)) l.push_back({i, g[i]});
      if (rev) std::reverse(l.begin(), l.end());
      FixSolutionComponentsLse<S>(l, m, r);
      MC_CHECK(same(m.makeDense(), W, tolA), "list-matrix", mc::current());
      MC_CHECK(same(r, w, tol), "list-rhs", mc::current());
    }
  }
  }
}
// a tridiagonal system with more than 65536 unknowns
void hugeSystem(int which) {
  const unsigned n = 65536 + 1234;
  std::vector<Eigen::Triplet<double>> t;
  Vx<double> b(n), g(n);
  for (unsigned i = 0; i < n; ++i) {
    t.emplace_back(i, i, 2 + i % 4);
    if (i + 1 < n) t.emplace_back(i, i + 1, -1 - (int)(i % 3)), t.emplace_back(i + 1, i, 3 + i % 2);
    if (i + 65536 < n) t.emplace_back(i, i + 65536, 5), t.emplace_back(i + 65536, i, 7);
    b[i] = i % 11;
    g[i] = 1 + i % 5;
  }
  for (uint64_t f : {0ull, 1ull, ~0xffull, 0x5555555555555555ull, ~0ull}) {
    const std::string tag = "huge system, function " + std::to_string(which) + " fixed " + std::to_string(f);
    mc::current(tag);
    mc::states();
    mc::transitions();
    COOMatrix<double> m(n, n);
    for (auto& x : t) m.AddToEntry(x.row(), x.col(), x.value());
    Vx<double> r = b, w = b;
    auto sel = [&](gdof_idx_t k) -> std::pair<bool, double> { return {fixed(f, k), fixed(f, k) ? g[k] : 99}; };
    if (which == 0)
      FixFlaggedSolutionComponents<double>(sel, m, r);
    else if (which == 1)
      FixFlaggedSolutionCompAlt<double>(sel, m, r);
    else {
      fixed_components_t<double> l;
      for (unsigned i = 0; i < n; ++i)
        if (fixed(f, i)) l.push_back({i, g[i]});
      FixSolutionComponentsLse<double>(l, m, r);
    }
    std::vector<Eigen::Triplet<double>> u;
    for (auto& x : t) {
      const bool fr = fixed(f, x.row()), fc = fixed(f, x.col());
      if (!fr && fc && which == 0) w[x.row()] -= x.value() * g[x.col()];
      if (!fr && (!fc || which != 0)) u.push_back(x);
    }
    for (unsigned i = 0; i < n; ++i)
      if (fixed(f, i)) u.emplace_back(i, i, 1), w[i] = g[i];
    Eigen::SparseMatrix<double> W(n, n);
    W.setFromTriplets(u.begin(), u.end());
    const Eigen::SparseMatrix<double> D = m.makeSparse() - W;
    MC_CHECK((unsigned)m.rows() == n && (unsigned)m.cols() == n && D.norm() < 1e-12, "huge-matrix", tag << " differs by " << D.norm());
    MC_CHECK((r - w).norm() < 1e-12, "huge-rhs", tag << " differs by " << (r - w).norm());
    mc::outcome(mc::fnv(w.data(), sizeof(double) * n));
  }
}
const int V[3] = {0, 2, -1};
const std::vector<unsigned> bigN{4, 5, 8, 17, 33, 64, 65, 130};
long count() { return 3 + 2 + (mc::thorough ? 81 : 27) + (long)bigN.size() * 2; }
std::vector<uint64_t> allMasks(unsigned n) {
  std::vector<uint64_t> r;
  for (uint64_t f = 0; f < (1ull << n); ++f) r.push_back(f);
  return r;
}
// banded / arrow-shaped systems with periodic sets of fixed components
template <class S>
void large(unsigned n) {
  std::vector<uint64_t> masks{0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0xffull, ~0xffull};
  for (int k = 0; k < 61; k += 6) masks.push_back(1ull << k), masks.push_back(~(1ull << k)), masks.push_back(5ull << k);
  for (int shape = 0; shape < 2; ++shape) {
    Mx<S> A = Mx<S>::Zero(n, n);
    for (unsigned i = 0; i < n; ++i) {
      A(i, i) = val<S>(2 + i % 4);
      if (shape == 0) {
        if (i + 1 < n) A(i, i + 1) = val<S>(-1 - (int)(i % 3)), A(i + 1, i) = val<S>(3);
        if (i + 5 < n) A(i, i + 5) = val<S>(1 + i % 2);
      } else if (i) A(0, i) = val<S>(i % 5), A(i, 0) = val<S>(-(int)(i % 4)), A(i, n - 1) = val<S>(i % 3);
    }
    for (int v = 0; v < (n > 40 ? 2 : 3); ++v) system<S>(A, n, v, masks);
  }
}
template <class S>
void all(unsigned n, long lead, unsigned nlead) {
  // all n x n matrices over V whose first nlead entries are given by `lead`
  const unsigned k = n * n - nlead;
  long tot = 1;
  for (unsigned i = 0; i < k; ++i) tot *= 3;
  for (long c = 0; c < tot; ++c) {
    Mx<S> A(n, n);
    long x = c, y = lead;
    for (unsigned i = 0; i < n * n; ++i)
      if (i < nlead) A(i / n, i % n) = val<S>(V[y % 3]), y /= 3;
      else A(i / n, i % n) = val<S>(V[x % 3]), x /= 3;
    for (int v = 0; v < 3; ++v) system<S>(A, n, v, allMasks(n));
  }
}
void item(long it) {
  if (it < 3) return hugeSystem(it);
  it -= 3;
  const long nb = bigN.size();
  if (it < 2 * nb) {
    if (it % 2) large<C>(bigN[it / 2]);
    else large<double>(bigN[it / 2]);
    mc::sample(mc::current());
    return;
  }
  it -= 2 * nb;
  if (it == 0) {
    all<double>(1, 0, 0);
    all<double>(2, 0, 0);
  } else if (it == 1) {
    all<C>(1, 0, 0);
    all<C>(2, 0, 0);
  } else {
    const unsigned nl = mc::thorough ? 4 : 3;
    all<double>(3, it - 2, nl);
    if (mc::thorough) all<C>(3, it - 2, nl);
    else if (it == 7) all<C>(3, it - 2, nl);
  }
  mc::sample(mc::current());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
