// F05: boundary value problems solved with the complete pipeline (mesh, dof handler, providers, assembly,
// essential conditions, solve, mesh functions): solutions in the space are reproduced, the discrete solution does not
// depend on numbering and orientation, Galerkin products of nested levels agree.
#include <lf/refinement/refinement.h>

#include <Eigen/Dense>
#include <Eigen/SparseLU>

#include "fe.h"
using namespace fh;
namespace {
namespace mu = lf::mesh::utils;
namespace as = lf::assemble;
using Vec2 = Eigen::Vector2d;
using M2 = Eigen::Matrix2d;
struct Poly {
  int p;
  double c(int a, int b) const { return std::sin(1.7 * a + 3.1 * b + 0.6) + 0.2; }
  static double pw(double x, int k) {
    double r = 1;
    while (k-- > 0) r *= x;
    return r;
  }
  double d(const Vec2& x, int da, int db) const {
    double r = 0;
    for (int a = da; a <= p; ++a)
      for (int b = db; a + b <= p; ++b) {
        double f = c(a, b);
        for (int k = 0; k < da; ++k) f *= a - k;
        for (int k = 0; k < db; ++k) f *= b - k;
        r += f * pw(x[0], a - da) * pw(x[1], b - db);
      }
    return r;
  }
  double u(const Vec2& x) const { return d(x, 0, 0); }
  Vec2 g(const Vec2& x) const { return {d(x, 1, 0), d(x, 0, 1)}; }
  M2 h(const Vec2& x) const { return (M2() << d(x, 2, 0), d(x, 1, 1), d(x, 1, 1), d(x, 0, 2)).finished(); }
};
struct Coef {
  std::string n;
  std::function<M2(const Vec2&)> A;
  std::function<Vec2(const Vec2&)> divA;
};
const std::vector<Coef>& coefs() {
  static const std::vector<Coef> c{
      {"4/3", [](const Vec2&) -> M2 { return 4. / 3 * M2::Identity(); }, [](const Vec2&) -> Vec2 { return Vec2(0, 0); }},
      {"tensor", [](const Vec2&) -> M2 { return (M2() << 2, 0.5, 0.5, 1).finished(); }, [](const Vec2&) -> Vec2 { return Vec2(0, 0); }},
      {"linear", [](const Vec2& x) -> M2 { return (4 + x[0] / 4 - x[1] / 8) * M2::Identity(); }, [](const Vec2&) -> Vec2 { return Vec2(0.25, -0.125); }}};
  return c;
}
Vec2 corner(const Entity& c, int i) { return pos(*c.SubEntities(c.RefEl().Dimension())[i]); }
// topology of the boundary computed from the cells
struct Bd {
  std::vector<idx> edges;                  // indices of boundary edges
  std::map<idx, Vec2> normal;              // outward unit normal
  std::vector<int> comp;                   // component of every edge
  int ncomp = 0;
  explicit Bd(const Mesh& m) : comp(m.NumEntities(1)) {
    std::map<idx, std::vector<std::pair<const Entity*, const Entity*>>> at;
    std::vector<int> p(m.NumEntities(2));
    std::iota(p.begin(), p.end(), 0);
    std::function<int(int)> find = [&](int i) { return p[i] == i ? i : p[i] = find(p[i]); };
    for (const Entity* c : m.Entities(0)) {
      for (const Entity* e : c->SubEntities(1)) at[m.Index(*e)].push_back({c, e});
      for (const Entity* n : c->SubEntities(2)) p[find(m.Index(*n))] = find(m.Index(*c->SubEntities(2)[0]));
    }
    std::map<int, int> cn;
    for (auto& [i, v] : at) {
      const int r = find(m.Index(*v[0].second->SubEntities(1)[0]));
      if (!cn.count(r)) cn[r] = ncomp++;
      comp[i] = cn[r];
      if (v.size() != 1) continue;
      const Vec2 a = corner(*v[0].second, 0), b = corner(*v[0].second, 1);
      Vec2 n((b - a)[1], -(b - a)[0]), ctr(0, 0);
      n.normalize();
      const int k = v[0].first->RefEl().NumNodes();
      for (int j = 0; j < k; ++j) ctr += corner(*v[0].first, j) / k;
      if (n.dot(ctr - a) > 0) n = -n;
      edges.push_back(i);
      normal[i] = n;
    }
  }
};
// value given on boundary edges
struct EdgeFun {
  const Mesh* m;
  const std::map<idx, Vec2>* normal;
  std::function<double(const Vec2&, const Vec2&)> f;
  std::vector<double> operator()(const Entity& e, const Mat& loc) const {
    const Mat X = e.Geometry()->Global(loc);
    std::vector<double> r;
    for (long i = 0; i < X.cols(); ++i) r.push_back(f(X.col(i), normal->at(m->Index(e))));
    return r;
  }
};
struct Problem {
  std::function<M2(const Vec2&)> A;
  std::function<double(const Vec2&)> gamma, eta, f;
  std::function<double(const Vec2&, const Vec2&)> g;  // data on Neumann (0) and Robin (1) edges
  std::function<double(const Vec2&)> dir;
  std::vector<char> kind;  // per edge: 'D','N','R','-'
};
using US = lf::uscalfe::UniformScalarFESpace<double>;
struct System {
  as::COOMatrix<double> A;
  Vec b;
};
System assemble(const std::shared_ptr<const Mesh>& m, const Space& fes, const Problem& P, const Bd& bd, bool uniform) {
  const auto& dh = fes->LocGlobMap();
  System s{as::COOMatrix<double>(dh.NumDofs(), dh.NumDofs()), Vec::Zero(dh.NumDofs())};
  mu::MeshFunctionGlobal A(P.A);
  mu::MeshFunctionGlobal ga(P.gamma), et(P.eta), f(P.f);
  auto kind = [&](char k) { return [&P, &m, k](const Entity& e) { return P.kind[m->Index(e)] == k; }; };
  EdgeFun gN{m.get(), &bd.normal, [&](const Vec2& x, const Vec2& n) { return P.g(x, n); }};
  EdgeFun gR{m.get(), &bd.normal, [&](const Vec2& x, const Vec2& n) { return P.g(x, n) + P.eta(x) * P.dir(x); }};
  if (uniform) {
    auto us = std::dynamic_pointer_cast<const US>(fes);
    lf::uscalfe::ReactionDiffusionElementMatrixProvider K(us, A, ga);
    lf::uscalfe::MassEdgeMatrixProvider R(us, et, kind('R'));
    lf::uscalfe::ScalarLoadElementVectorProvider L(us, f);
    lf::uscalfe::ScalarLoadEdgeVectorProvider N(us, gN, kind('N')), NR(us, gR, kind('R'));
    as::AssembleMatrixLocally(0, dh, dh, K, s.A);
    as::AssembleMatrixLocally(1, dh, dh, R, s.A);
    as::AssembleVectorLocally(0, dh, L, s.b);
    as::AssembleVectorLocally(1, dh, N, s.b);
    as::AssembleVectorLocally(1, dh, NR, s.b);
  } else {
    lf::fe::DiffusionElementMatrixProvider K(fes, A);
    lf::fe::MassElementMatrixProvider Ms(fes, ga);
    lf::fe::MassEdgeMatrixProvider R(fes, et, kind('R'));
    lf::fe::ScalarLoadElementVectorProvider L(fes, f);
    lf::fe::ScalarLoadEdgeVectorProvider N(fes, gN, kind('N')), NR(fes, gR, kind('R'));
    s.A = as::AssembleMatrixLocally<as::COOMatrix<double>>(0, dh, K);
    as::AssembleMatrixLocally(0, dh, dh, Ms, s.A);
    as::AssembleMatrixLocally(1, dh, dh, R, s.A);
    s.b = as::AssembleVectorLocally<Vec>(0, dh, L);
    s.b += as::AssembleVectorLocally<Vec>(1, dh, N);
    as::AssembleVectorLocally(1, dh, NR, s.b);
  }
  return s;
}
bool solve(const std::shared_ptr<const Mesh>& m, const Space& fes, const Problem& P, System& s, int variant, Vec& x) {
  const auto on = mu::flagEntitiesOnBoundary(m, 1);
  mu::MeshFunctionGlobal g(P.dir);
  auto ess = lf::fe::InitEssentialConditionFromFunction(*fes, [&](const Entity& e) { return on(e) && P.kind[m->Index(e)] == 'D'; }, g);
  auto sel = [&](as::gdof_idx_t k) { return ess[k]; };
  if (variant == 0) as::FixFlaggedSolutionComponents<double>(sel, s.A, s.b);
  else as::FixFlaggedSolutionCompAlt<double>(sel, s.A, s.b);
  const Eigen::SparseMatrix<double> S = s.A.makeSparse();
  Eigen::SparseLU<Eigen::SparseMatrix<double>> lu(S);
  if (lu.info() != Eigen::Success) return false;
  x = lu.solve(s.b);
  return lu.info() == Eigen::Success;
}
std::vector<std::vector<char>> boundaryKinds(const Mesh& m, const Bd& bd, unsigned full) {
  const unsigned nb = bd.edges.size();
  std::vector<std::vector<char>> r;
  auto put = [&](auto f) {
    std::vector<char> k(m.NumEntities(1), '-');
    for (unsigned i = 0; i < nb; ++i) k[bd.edges[i]] = f(i);
    r.push_back(k);
  };
  const char *t = "DNR";
  if (nb <= full) {
    unsigned n = 1;
    for (unsigned i = 0; i < nb; ++i) n *= 3;
    for (unsigned q = 0; q < n; ++q)
      put([&](unsigned i) { unsigned x = q; while (i--) x /= 3; return t[x % 3]; });
    return r;
  }
  for (int a = 0; a < 3; ++a) put([&](unsigned) { return t[a]; });
  for (int s = 0; s < 3; ++s) put([&](unsigned i) { return t[(i + s) % 3]; });
  for (unsigned j = 0; j < nb; ++j)
    for (int a = 0; a < 3; ++a)
      if (mc::thorough || (j + a) % 3 == 0) put([&](unsigned i) { return i == j ? t[a] : t[(a + 1) % 3]; });
  return r;
}
bool unique(const Problem& P, const Bd& bd, bool react) {
  if (react) return true;
  std::vector<bool> c(bd.ncomp, false);
  for (idx e : bd.edges)
    if (P.kind[e] != 'N') c[bd.comp[e]] = true;
  return std::all_of(c.begin(), c.end(), [](bool b) { return b; });
}
void reproduce(const Spec& s, const std::shared_ptr<const Mesh>& m, const NamedSpace& ns, bool rich) {
  const Bd bd(*m);
  const Poly u{(int)ns.p};
  const auto kinds = boundaryKinds(*m, bd, rich ? 4 : 0);
  int variant = 0;
  for (auto& co : coefs())
    for (int react = 0; react < 2; ++react)
      for (size_t k = 0; k < kinds.size(); ++k) {
        if (!rich && !mc::thorough && (k + react + (&co - &coefs()[0])) % 3) continue;
        const double ga = react ? 1.5 : 0;
        auto eta = [](const Vec2& x) -> double { return 0.75; };
        Problem P{co.A, [ga](const Vec2&) -> double { return ga; }, eta,
                  [&](const Vec2& x) -> double { return -co.A(x).cwiseProduct(u.h(x)).sum() - co.divA(x).dot(u.g(x)) + ga * u.u(x); },
                  [&](const Vec2& x, const Vec2& n) -> double { return n.dot(co.A(x) * u.g(x)); },
                  [&](const Vec2& x) -> double { return u.u(x); }, kinds[k]};
        if (!unique(P, bd, react) || (isLarge(s) && k >= 6)) continue;
        for (int uni = 0; uni <= (ns.lagrange ? 1 : 0); ++uni) {
          std::string ks(kinds[k].begin(), kinds[k].end());
          const std::string tag = s.str() + " " + ns.name + " A=" + co.n + (react ? " reaction" : "") + (uni ? " uscalfe" : " fe") + " boundary " + ks;
          mc::current(tag);
          if (mc::outcome(tag)) mc::states();
          mc::transitions();
          System S = assemble(m, ns.fes, P, bd, uni);
          const Mat A0 = S.A.makeDense();
          MC_CHECK((A0 - A0.transpose()).cwiseAbs().maxCoeff() < 1e-10 * (1 + A0.cwiseAbs().maxCoeff()), "symmetry", tag);
          Vec x;
          const bool ok = solve(m, ns.fes, P, S, variant++ % 2, x);
          MC_CHECK(ok, "solvable", tag);
          if (!ok) continue;
          lf::fe::MeshFunctionFE<double, double> U(ns.fes, x);
          lf::fe::MeshFunctionGradFE<double, double> G(ns.fes, x);
          for (const Entity* c : m->Entities(0)) {
            const Mat y = pts(c->RefEl(), 3), X = c->Geometry()->Global(y);
            const auto v = U(*c, y);
            const auto g = G(*c, y);
            for (long i = 0; i < y.cols(); ++i) {
              MC_CHECK(std::abs(v[i] - u.u(X.col(i))) < 1e-8 * (1 + std::abs(v[i])), "solution", tag << " cell " << m->Index(*c) << " got " << v[i] << " want " << u.u(X.col(i)));
              MC_CHECK((g[i] - u.g(X.col(i))).norm() < 1e-6 * (1 + g[i].norm()), "gradient", tag << " cell " << m->Index(*c));
            }
          }
          mu::MeshFunctionGlobal mu_([&](const Vec2& x) -> double { return u.u(x); });
          mu::MeshFunctionGlobal mg([&](const Vec2& x) -> Vec2 { return u.g(x); });
          const double e0 = lf::fe::IntegrateMeshFunction(*m, mu::squaredNorm(U - mu_), 2 * (int)ns.p), e1 = lf::fe::IntegrateMeshFunction(*m, mu::squaredNorm(G - mg), 2 * (int)ns.p);
          MC_CHECK(std::sqrt(std::abs(e0)) < 1e-7 && std::sqrt(std::abs(e1)) < 1e-5, "error-norm", tag << " " << e0 << " " << e1);
        }
      }
}
// --- numbering invariance: solution of a problem without polynomial solution
Problem general(const std::map<std::pair<idx, idx>, char>& k, const Mesh& m, bool react) {
  Problem P{[](const Vec2&) -> M2 { return (M2() << 2, 0.5, 0.5, 1).finished(); }, [react](const Vec2&) -> double { return react ? 1. : 0.; }, [](const Vec2&) -> double { return 0.5; },
            [](const Vec2& x) -> double { return 1 + 3 * x[0] - 2 * x[1]; }, [](const Vec2& x, const Vec2& n) -> double { return x[0] * n[1] - 0.3 + n[0]; },
            [](const Vec2& x) -> double { return 0.5 * x[0] - x[1]; }, std::vector<char>(m.NumEntities(1), '-')};
  for (const Entity* e : m.Entities(1)) {
    const idx a = m.Index(*e->SubEntities(1)[0]), b = m.Index(*e->SubEntities(1)[1]);
    P.kind[m.Index(*e)] = k.at({std::min(a, b), std::max(a, b)});
  }
  return P;
}
std::vector<double> values(const std::shared_ptr<const Mesh>& m, const Space& fes, const std::map<std::pair<idx, idx>, char>& k, bool react, bool uni, const std::string& tag) {
  const Bd bd(*m);
  const Problem P = general(k, *m, react);
  System S = assemble(m, fes, P, bd, uni);
  Vec x;
  const bool ok = solve(m, fes, P, S, uni, x);
  MC_CHECK(ok, "solvable", tag);
  if (!ok) return {};
  lf::fe::MeshFunctionFE<double, double> U(fes, x);
  std::vector<double> r;
  std::map<std::pair<idx, idx>, double> mid;
  std::map<idx, double> nod;
  for (const Entity* c : m->Entities(0)) {
    const RefEl re = c->RefEl();
    const int n = re.NumNodes();
    Mat y(2, 2 * n + 1);
    y.leftCols(n) = re.NodeCoords();
    for (int i = 0; i < n; ++i) y.col(n + i) = (y.col(i) + y.col((i + 1) % n)) / 2;
    y.col(2 * n) = y.leftCols(n).rowwise().mean();
    const auto v = U(*c, y);
    for (int i = 0; i < n; ++i) {
      const idx a = m->Index(*c->SubEntities(2)[i]), b = m->Index(*c->SubEntities(2)[(i + 1) % n]);
      nod[a] = v[i];
      mid[{std::min(a, b), std::max(a, b)}] = v[n + i];
    }
    r.push_back(v[2 * n]);
  }
  for (auto& [i, v] : nod) r.push_back(v);
  for (auto& [i, v] : mid) r.push_back(v);
  return r;
}
void invariance(const Spec& s, const Spec& base) {
  std::shared_ptr<const Mesh> m = buildMesh(s), m0 = buildMesh(base);
  const Bd bd(*m0);
  std::map<idx, int> num;
  for (idx e : bd.edges) num.emplace(e, (int)num.size());
  for (int shift = 0; shift < 3; ++shift) {
    std::map<std::pair<idx, idx>, char> k;
    for (const Entity* e : m0->Entities(1)) {
      const idx a = m0->Index(*e->SubEntities(1)[0]), b = m0->Index(*e->SubEntities(1)[1]), i = m0->Index(*e);
      k[{std::min(a, b), std::max(a, b)}] = num.count(i) ? "DNR"[(num[i] + shift) % 3] : '-';
    }
    auto sp = spaces(m, false), sp0 = spaces(m0, false);
    for (size_t q = 0; q < sp.size(); ++q) {
      if (sp[q].name.rfind("Hvar", 0) == 0) continue;
      const std::string tag = "numbering " + s.str() + " " + sp[q].name + " boundary " + std::to_string(shift);
      mc::current(tag);
      if (mc::outcome(tag)) mc::states();
      mc::traces();
      const auto w = values(m0, sp0[q].fes, k, true, sp[q].lagrange, tag), v = values(m, sp[q].fes, k, true, false, tag);
      MC_CHECK(v.size() == w.size(), "numbering-size", tag);
      for (size_t i = 0; i < std::min(v.size(), w.size()); ++i) MC_CHECK(std::abs(v[i] - w[i]) < 1e-8 * (1 + std::abs(w[i])), "numbering", tag << " value " << i << " got " << v[i] << " want " << w[i]);
    }
  }
}
// --- Galerkin products of nested levels
template <class F>
void galerkin(const Spec& s, lf::refinement::MeshHierarchy& h, const std::string& how, const std::string& name, int deg, F make) {
  for (unsigned l = 0; l + 1 < h.NumLevels(); ++l) {
    const std::string tag = "levels " + s.str() + " " + how + " " + name + " level " + std::to_string(l);
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    mc::traces();
    std::shared_ptr<const Mesh> mc_ = h.getMesh(l), mf = h.getMesh(l + 1);
    auto fc = make(mc_), ff = make(mf);
    auto sys = [&](const std::shared_ptr<const Mesh>& m, const Space& fes) {
      const Bd bd(*m);
      std::map<std::pair<idx, idx>, char> k;
      for (const Entity* e : m->Entities(1)) {
        const idx a = m->Index(*e->SubEntities(1)[0]), b = m->Index(*e->SubEntities(1)[1]), i = m->Index(*e);
        k[{std::min(a, b), std::max(a, b)}] = bd.normal.count(i) ? (bd.normal.at(i)[0] > 0.1 ? 'R' : 'N') : '-';
      }
      return assemble(m, fes, general(k, *m, true), bd, false);
    };
    System C = sys(mc_, fc), Fi = sys(mf, ff);
    const long nc = C.b.size(), nf = Fi.b.size();
    Mat Pr(nf, nc);
    for (long j = 0; j < nc; ++j) {
      const Vec uj = Vec::Unit(nc, j);
      Pr.col(j) = lf::fe::prolongate<double>(h, fc, ff, uj, l);
    }
    const Mat Ac = C.A.makeDense(), G = Pr.transpose() * Fi.A.makeDense() * Pr;
    const Vec bg = Pr.transpose() * Fi.b;
    MC_CHECK((G - Ac).cwiseAbs().maxCoeff() < 1e-9 * (1 + Ac.cwiseAbs().maxCoeff()), "galerkin-matrix", tag << " difference " << (G - Ac).cwiseAbs().maxCoeff());
    MC_CHECK((bg - C.b).cwiseAbs().maxCoeff() < 1e-9 * (1 + C.b.cwiseAbs().maxCoeff()), "galerkin-vector", tag);
    // energy decreases
    const Vec xc = Ac.ldlt().solve(C.b), xf = Fi.A.makeDense().ldlt().solve(Fi.b);
    MC_CHECK(xf.dot(Fi.b) >= xc.dot(C.b) - 1e-9 * (1 + std::abs(xc.dot(C.b))), "energy", tag << " coarse " << xc.dot(C.b) << " fine " << xf.dot(Fi.b));
  }
}
void levels(const Spec& s, bool rich) {
  bool tri = true;
  for (auto& c : s.cells) tri = tri && c.n.size() == 3;
  std::vector<std::pair<std::string, std::vector<std::vector<idx>>>> hist;  // empty vector: regular
  hist.push_back({"regular", {{}}});
  if (tri) {
    const unsigned ne = cellEdges(s).size();
    for (unsigned b = 1; b < (1u << std::min(ne, rich ? 6u : 3u)); ++b) {
      std::vector<idx> v;
      for (unsigned e = 0; e < ne; ++e)
        if (b >> e & 1) v.push_back(e);
      hist.push_back({"marked " + std::to_string(b), {v}});
    }
    hist.push_back({"marked 1, regular", {{0}, {}}});
    hist.push_back({"marked 1, marked 2", {{0}, {1}}});
  }
  for (auto& hi : hist) {
    lf::refinement::MeshHierarchy h(buildMesh(s), std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
    for (auto& st : hi.second)
      if (st.empty()) h.RefineRegular();
      else {
        h.MarkEdges([&](const Mesh& m, const Entity& e) { return std::count(st.begin(), st.end(), m.Index(e)) > 0; });
        h.RefineMarked();
      }
    mc::transitions();
    galerkin(s, h, hi.first, "O1", 1, [](const std::shared_ptr<const Mesh>& m) { return std::make_shared<const lf::uscalfe::FeSpaceLagrangeO1<double>>(m); });
    galerkin(s, h, hi.first, "O2", 2, [](const std::shared_ptr<const Mesh>& m) { return std::make_shared<const lf::uscalfe::FeSpaceLagrangeO2<double>>(m); });
    galerkin(s, h, hi.first, "O3", 3, [](const std::shared_ptr<const Mesh>& m) { return std::make_shared<const lf::uscalfe::FeSpaceLagrangeO3<double>>(m); });
    if (tri)
      for (unsigned p = 1; p <= 4; ++p)
        galerkin(s, h, hi.first, "H" + std::to_string(p), p, [p](const std::shared_ptr<const Mesh>& m) { return std::make_shared<const lf::fe::HierarchicScalarFESpace<double>>(m, p); });
  }
}
struct Job {
  int what;
  Spec s, base;
};
std::vector<Job> J;
long count() {
  const auto T = topologies();
  auto base = [&](const Spec& s) {
    Spec r = s;
    for (auto& t : T)
      if (s.name.rfind(t.name, 0) == 0 && t.cells.size() == s.cells.size() && (s.name.size() == t.name.size() || s.name[t.name.size()] == '#')) {
        r = t;
        for (auto& c : r.cells) c.geo = kO1;
      }
    return r;
  };
  size_t n = 0;
  for (auto& s : meshes(mc::thorough, {kO1})) {
    if (s.dim != 2) continue;
    J.push_back({0, s, s});
    J.push_back({1, s, base(s)});
    bool tri = true;
    for (auto& c : s.cells) tri = tri && c.n.size() == 3;
    if (tri && (mc::thorough || s.cells.size() <= 2 || n++ % 2 == 0)) J.push_back({2, s, s});
  }
  // grids of parallelograms and triangles with an interior node, all numberings of one cell
  for (int v = 0; v < 8; ++v) {
    Spec s;
    s.name = "parallelograms";
    for (int j = 0; j < 3; ++j)
      for (int i = 0; i < 3; ++i) s.pts.push_back({i + 0.2 * j, 0.9 * j - 0.1 * i});
    for (idx j = 0; j < 2; ++j)
      for (idx i = 0; i < 2; ++i) s.cells.push_back({{3 * j + i, 3 * j + i + 1, 3 * j + i + 4, 3 * j + i + 3}, v % 2 ? kPara : kO1});
    const Spec b = s;
    s.cells[v % 4].n = dihedral(s.cells[v % 4].n)[v];
    s.name += std::to_string(v);
    J.push_back({0, s, s});
    J.push_back({1, s, b});
    J.push_back({2, s, s});
    for (auto& c : s.cells) c.geo = kO1;
    s.name = "grid" + std::to_string(v);
    s.cells.erase(s.cells.begin() + 3);
    s.cells.push_back({{4, 5, 8}, kO1});
    s.cells.push_back({{8, 7, 4}, kO1});
    J.push_back({0, s, s});
  }
  // large meshes of triangles and rectangles
  for (auto& d : largeDims(mc::thorough ? 150 : 75)) {
    if (d.kind > 2 || d.nx * d.ny < 15) continue;
    for (int v : {0, 4, 10}) {
      Spec s = large(d.nx, d.ny, d.kind, v);
      for (auto& p : s.pts) p *= 3. / std::max(d.nx, d.ny);
      for (auto& c : s.cells) c.geo = kO1;
      J.push_back({0, s, s});
      Spec b = s;
      b.edges.clear();
      for (auto& c : b.cells) std::rotate(c.n.begin(), c.n.begin() + 1, c.n.end());
      J.push_back({1, s, b});
    }
  }
  return J.size();
}
void item(long it) {
  const Job& j = J[it];
  mc::sample(j.s.str());
  if (j.what == 1) return invariance(j.s, j.base);
  if (j.what == 2) return levels(j.s, j.s.cells.size() <= 2 || mc::thorough);
  std::shared_ptr<const Mesh> m = buildMesh(j.s);
  for (auto& ns : spaces(m, mc::thorough)) reproduce(j.s, m, ns, j.s.cells.size() == 1 || mc::thorough);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
