// A03: cell/edge/node-oriented assembly adds exactly the local contributions
// of the active entities at the places given by the local-to-global maps.
#include <complex>

#include "asm.h"
using namespace as;
using C = std::complex<double>;
namespace {
// a unique, exactly representable value per (entity, i, j); every other item
// works with tiny values
double SC = 1;
template <class S>
S val(unsigned e, int i, int j) {
  return S((1 + j + 16 * (i + 16 * (int)e)) * SC);
}
template <>
C val<C>(unsigned e, int i, int j) {
  return C((1 + j + 16 * (i + 16 * (int)e)) * SC, (i - 3 * j) * SC);
}
struct Act {
  const Mesh* m;
  uint64_t mask;
  mutable std::map<unsigned, int> evals;
  bool sel(const Entity& e) const { return on(mask, m->Index(e)); }
};
template <class S, int R, int Cc>
struct Prov {
  const Mesh* m;
  uint64_t mask;
  std::function<std::pair<int, int>(const Entity&)> size;
  std::map<unsigned, int> evals;
  bool inactive_eval = false;
  bool isActive(const Entity& e) { return on(mask, m->Index(e)); }
  Eigen::Matrix<S, R, Cc> Eval(const Entity& e) {
    const unsigned id = m->Index(e);
    evals[id]++;
    if (!isActive(e)) inactive_eval = true;
    const auto [r, c] = size(e);
    Eigen::Matrix<S, R, Cc> A(R == -1 ? r : R, Cc == -1 ? c : Cc);
    for (int i = 0; i < A.rows(); ++i)
      for (int j = 0; j < A.cols(); ++j) A(i, j) = val<S>(id, i, j);
    return A;
  }
};
struct Rec {  // minimal matrix type offering only the documented interface
  std::map<std::pair<unsigned, unsigned>, double> e;
  unsigned r, c;
  int zeroed = 0;
  Rec(unsigned a, unsigned b) : r(a), c(b) { e[{0, 0}] = 17; }
  void setZero() { e.clear(), ++zeroed; }
  void AddToEntry(unsigned i, unsigned j, double v) { e[{i, j}] += v; }
};
template <class S>
using Mx = Eigen::Matrix<S, -1, -1>;
template <class S>
using Vx = Eigen::Matrix<S, -1, 1>;

template <class S>
Mx<S> want(const Mesh& m, int cd, const Model& tr, const Model& te, uint64_t mask) {
  Mx<S> W = Mx<S>::Zero(te.N, tr.N);
  for (unsigned e = 0; e < m.NumEntities(cd); ++e)
    if (ms::on(mask, e))
      for (size_t i = 0; i < te.all[cd][e].size(); ++i)
        for (size_t j = 0; j < tr.all[cd][e].size(); ++j) W(te.all[cd][e][i], tr.all[cd][e][j]) += val<S>(e, i, j);
  return W;
}
template <class S, int R, int Cc>
void matrix(const std::shared_ptr<const Mesh>& m, int cd, const DofHandler& tr, const DofHandler& te, const Model& mtr, const Model& mte, uint64_t mask, int pad) {
  using namespace lf::assemble;
  const std::string tag = mc::current() + " matrix codim " + std::to_string(cd) + " mask " + std::to_string(mask) + " pad " + std::to_string(pad) + " " + std::to_string(R) + "x" + std::to_string(Cc);
  mc::current(tag);
  mc::states();
  auto mk = [&] {
    return Prov<S, R, Cc>{m.get(), mask, [&, pad](const Entity& e) { return std::pair<int, int>((int)mte.all[cd][m->Index(e)].size() + pad, (int)mtr.all[cd][m->Index(e)].size() + pad); }, {}, false};
  };
  const auto W = want<S>(*m, cd, mtr, mte, mask);
  const bool same = &tr == &te;
  auto p = mk();
  COOMatrix<S> A = AssembleMatrixLocally<COOMatrix<S>>(cd, tr, te, p);
  mc::transitions();
  MC_CHECK((unsigned)A.rows() == mte.N && (unsigned)A.cols() == mtr.N, "size", tag);
  if ((unsigned)A.rows() != mte.N || (unsigned)A.cols() != mtr.N) return;
  MC_CHECK(A.makeDense() == W, "matrix", tag);
  MC_CHECK(!p.inactive_eval, "inactive", tag);
  unsigned na = 0;
  bool once = true;
  for (unsigned e = 0; e < m->NumEntities(cd); ++e)
    if (ms::on(mask, e)) ++na, once = once && p.evals[e] == 1;
  MC_CHECK(once && p.evals.size() == na, "each-once", tag);
  mc::outcome(mc::fnv(W.data(), W.size() * sizeof(S)));
  // accumulate on top of existing entries
  auto q = mk();
  AssembleMatrixLocally(cd, tr, te, q, A);
  MC_CHECK(A.makeDense() == S(2) * W, "accumulate", tag);
  if (same) {
    auto r = mk();
    COOMatrix<S> B = AssembleMatrixLocally<COOMatrix<S>>(cd, tr, r);
    MC_CHECK((unsigned)B.rows() == mte.N && (unsigned)B.cols() == mtr.N && B.makeDense() == W, "one-handler", tag);
  }
  if constexpr (std::is_same_v<S, double>) {
    auto r = mk();
    Rec a = AssembleMatrixLocally<Rec>(cd, tr, te, r);
    MC_CHECK(a.r == mte.N && a.c == mtr.N && a.zeroed >= 1, "custom-matrix", tag);
    Mx<S> G = Mx<S>::Zero(mte.N, mtr.N);
    bool in = true;
    for (auto& [k, v] : a.e)
      if (k.first < mte.N && k.second < mtr.N) G(k.first, k.second) = v;
      else in = false;
    MC_CHECK(in && G == W, "custom-matrix", tag);
  }
}
template <class S, int R>
void vector(const std::shared_ptr<const Mesh>& m, int cd, const DofHandler& d, const Model& md, uint64_t mask, int pad) {
  using namespace lf::assemble;
  const std::string tag = mc::current() + " vector codim " + std::to_string(cd) + " mask " + std::to_string(mask) + " pad " + std::to_string(pad);
  mc::current(tag);
  mc::states();
  auto mk = [&] { return Prov<S, R, 1>{m.get(), mask, [&, pad](const Entity& e) { return std::pair<int, int>((int)md.all[cd][m->Index(e)].size() + pad, 1); }, {}, false}; };
  Vx<S> w = Vx<S>::Zero(md.N);
  for (unsigned e = 0; e < m->NumEntities(cd); ++e)
    if (ms::on(mask, e))
      for (size_t i = 0; i < md.all[cd][e].size(); ++i) w[md.all[cd][e][i]] += val<S>(e, i, 0);
  auto p = mk();
  Vx<S> v = AssembleVectorLocally<Vx<S>>(cd, d, p);
  mc::transitions();
  MC_CHECK(v.size() == (long)md.N && v == w, "vector", tag);
  MC_CHECK(!p.inactive_eval, "inactive", tag);
  Vx<S> u = Vx<S>::LinSpaced(md.N, S(1), S(5)).eval();
  for (unsigned k = 0; k < md.N; ++k) u[k] = S(3 * k * SC);
  const Vx<S> u0 = u;
  auto q = mk();
  AssembleVectorLocally(cd, d, q, u);
  MC_CHECK(u == u0 + w, "vector-accumulate", tag);
}
// more than 65536 entities and degrees of freedom: compared as sparse matrices
void hugeMesh(int k) {
  using namespace lf::assemble;
  const Spec s = huge(k);
  const auto m = std::shared_ptr<const Mesh>(buildMesh(s));
  const std::array<unsigned, 4> l0{1, 0, 0, 0}, l1{0, 1, k == 1 ? 0u : 1u, k == 0 ? 0u : 1u};
  const lf::assemble::UniformFEDofHandler a(m, dofMap(l0)), b(m, dofMap(l1));
  const Model ma = model(*m, uniformLayout(l0), true), mb = model(*m, uniformLayout(l1), true);
  for (int cd = 0; cd <= 1; ++cd)
    for (uint64_t mask : {~0ull, 0x1555555555555550ull}) {
      const std::string tag = s.name + " codim " + std::to_string(cd) + " mask " + std::to_string(mask);
      mc::current(tag);
      mc::states();
      mc::transitions(2);
      Prov<double, -1, -1> p{m.get(), mask, [&](const Entity& e) { return std::pair<int, int>((int)mb.all[cd][m->Index(e)].size(), (int)ma.all[cd][m->Index(e)].size()); }, {}, false};
      const auto A = AssembleMatrixLocally<COOMatrix<double>>(cd, a, b, p);
      MC_CHECK((unsigned)A.rows() == mb.N && (unsigned)A.cols() == ma.N, "size", tag);
      if ((unsigned)A.rows() != mb.N || (unsigned)A.cols() != ma.N) return;
      std::vector<Eigen::Triplet<double>> t;
      for (unsigned e = 0; e < m->NumEntities(cd); ++e)
        if (on(mask, e))
          for (size_t i = 0; i < mb.all[cd][e].size(); ++i)
            for (size_t j = 0; j < ma.all[cd][e].size(); ++j) t.emplace_back(mb.all[cd][e][i], ma.all[cd][e][j], val<double>(e, i, j));
      Eigen::SparseMatrix<double> W(mb.N, ma.N);
      W.setFromTriplets(t.begin(), t.end());
      Eigen::SparseMatrix<double> D = A.makeSparse();
      D -= W;
      D.prune(0.);
      MC_CHECK(D.nonZeros() == 0, "matrix", tag << ": " << D.nonZeros() << " entries differ");
      mc::outcome(mc::fnv(W.valuePtr(), W.nonZeros() * sizeof(double)));
      for (const auto& [d, md] : {std::pair(&a, &ma), std::pair(&b, &mb)}) {
        Prov<double, -1, 1> q{m.get(), mask, [&, md = md](const Entity& e) { return std::pair<int, int>((int)md->all[cd][m->Index(e)].size(), 1); }, {}, false};
        Vx<double> w = Vx<double>::Zero(md->N);
        for (unsigned e = 0; e < m->NumEntities(cd); ++e)
          if (on(mask, e))
            for (size_t i = 0; i < md->all[cd][e].size(); ++i) w[md->all[cd][e][i]] += val<double>(e, i, 0);
        const auto v = AssembleVectorLocally<Vx<double>>(cd, *d, q);
        MC_CHECK(v.size() == w.size() && v == w, "vector", tag);
      }
    }
}
std::vector<Spec> M;
size_t nsmall = 0;
long count() {
  M = meshes(false);
  nsmall = M.size();
  for (auto& s : largeSpecs(mc::thorough ? 400 : 110, mc::thorough ? 6 : 2)) M.push_back(s);
  return M.size() + 3;
}
void item(long it) {
  SC = it % 2 ? 0x1p-70 : 1;
  if (it < 3) return hugeMesh(it);
  it -= 3;
  const Spec& s = M[it];
  auto m = std::shared_ptr<const Mesh>(buildMesh(s));
  mc::sample(s.str());
  const bool T = mc::thorough;
  std::vector<std::array<unsigned, 4>> L = {{1, 0, 0, 0}, {0, 0, 1, 1}, {1, 1, 0, 1}, {1, 2, 1, 4}, {0, 2, 0, 0}, {2, 1, 3, 0}, {0, 0, 0, 0}};
  std::vector<std::unique_ptr<DofHandler>> H;
  std::vector<Model> D;
  for (size_t k = 0; k < L.size(); ++k) {
    H.push_back(std::make_unique<lf::assemble::UniformFEDofHandler>(m, dofMap(L[k])));
    D.push_back(model(*m, uniformLayout(L[k]), true));
  }
  Layout var = [&](const Entity& e) { return (m->Index(e) + 2 * e.Codim()) % 3; };
  H.push_back(std::make_unique<lf::assemble::DynamicFEDofHandler>(m, var));
  D.push_back(model(*m, var, true));
  for (int cd = 0; cd <= 2; ++cd) {
    const unsigned n = m->NumEntities(cd);
    const bool lg = (size_t)it >= nsmall;
    const uint64_t full = n >= 61 ? (1ull << 61) - 1 : (1ull << n) - 1;
    std::vector<uint64_t> masks;
    if (lg) masks = {0, full, full & 0x5555555555555555ull, full & 0x1084210842108421ull, full & ~7ull};
    else if (n <= (T ? 8u : 5u))
      for (uint64_t b = 0; b <= full; ++b) masks.push_back(b);
    else {
      masks = {0, full};
      for (unsigned e = 0; e < n; ++e) masks.push_back(1ull << e), masks.push_back(full & ~(1ull << e));
    }
    for (size_t a = 0; a < H.size(); ++a)
      for (size_t b = 0; b < H.size(); ++b) {
        if (lg && (a + 2 * b) % 3) continue;
        const std::string base = s.str() + " trial " + std::to_string(a) + " test " + std::to_string(b);
        for (auto k : masks) {
          if (!T && a != b && k != full && (k & (k - 1))) continue;  // distinct spaces: none, single entities, all
          for (int pad : {0, 1}) {
            mc::current(base);
            matrix<double, -1, -1>(m, cd, *H[a], *H[b], D[a], D[b], k, pad);
          }
          if (k == full) {
            mc::current(base);
            matrix<C, -1, -1>(m, cd, *H[a], *H[b], D[a], D[b], k, 0);
            mc::current(base);
            matrix<double, 24, 24>(m, cd, *H[a], *H[b], D[a], D[b], k, 0);
            mc::current(base);
            matrix<double, 24, -1>(m, cd, *H[a], *H[b], D[a], D[b], k, 2);
          }
        }
      }
    for (size_t a = 0; a < H.size(); ++a)
      for (auto k : masks) {
        for (int pad : {0, 2}) {
          mc::current(s.str() + " space " + std::to_string(a));
          vector<double, -1>(m, cd, *H[a], D[a], k, pad);
        }
        mc::current(s.str() + " space " + std::to_string(a));
        vector<C, -1>(m, cd, *H[a], D[a], k, 0);
        mc::current(s.str() + " space " + std::to_string(a));
        vector<double, 24>(m, cd, *H[a], D[a], k, 0);
      }
  }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
