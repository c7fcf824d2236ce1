// R04: transferring a function from a coarse to a finer mesh of a hierarchy
// leaves its point values unchanged; prolongation of finite element functions
// reproduces them (exactly when the spaces are nested, nodally otherwise).
#include <lf/fe/fe.h>
#include <lf/uscalfe/uscalfe.h>

#include "hier.h"
using namespace hr;
namespace {
using Mat = Eigen::MatrixXd;
using lf::mesh::Entity;
using C = std::complex<double>;
struct Where {  // value type: where was the function evaluated
  unsigned codim, idx;
  Eigen::VectorXd loc;
};
struct MFWhere {
  std::shared_ptr<const lf::mesh::Mesh> m;
  std::vector<Where> operator()(const Entity& e, const Mat& x) const {
    std::vector<Where> r;
    for (int i = 0; i < x.cols(); ++i) r.push_back({(unsigned)e.Codim(), (unsigned)m->Index(e), x.col(i)});
    return r;
  }
  std::shared_ptr<const lf::mesh::Mesh> getMesh() const { return m; }
};
Mat pts(RefEl r, int n) {
  if (r == RefEl::kPoint()) return Mat(0, 1);
  std::vector<Eigen::VectorXd> v;
  if (r == RefEl::kSegment())
    for (int i = 0; i <= n; ++i) v.push_back(Eigen::VectorXd::Constant(1, i / (double)n));
  else
    for (int i = 0; i <= n; ++i)
      for (int j = 0; j <= (r == RefEl::kTria() ? n - i : n); ++j) v.push_back(Eigen::Vector2d(i / (double)n, j / (double)n));
  Mat m(r.Dimension(), v.size());
  for (size_t i = 0; i < v.size(); ++i) m.col(i) = v[i];
  return m;
}
bool allTria(const MeshHierarchy& h, unsigned l) { return h.getMesh(l)->NumEntities(RefEl::kQuad()) == 0; }
// the physical mapping of a fine entity is the restriction of the coarse one
bool nestedOn(const MeshHierarchy& h, const Spec& s, unsigned lc, unsigned lf, const Entity& e) {
  const Entity* p = &e;
  for (unsigned l = lf; l > lc; --l) {
    const Entity* q = h.ParentEntity(l, *p);
    if (q->RefEl() == RefEl::kQuad()) {
      if (q->Geometry()->isAffine()) { p = q; continue; }
      const auto n = p->RefEl() == RefEl::kPoint() ? Mat(0, 1) : Mat(p->RefEl().NodeCoords());
      const Mat lc_ = h.GeometryInParent(l, *p)->Global(n);
      bool ok = p->RefEl() != RefEl::kTria();
      const int k = lc_.cols();
      if (k == 2) ok = std::abs(lc_(0, 0) - lc_(0, 1)) < 1e-12 || std::abs(lc_(1, 0) - lc_(1, 1)) < 1e-12;
      if (k == 4) ok = (lc_.col(0) + lc_.col(2) - lc_.col(1) - lc_.col(3)).norm() < 1e-12;
      for (int j = 0; ok && k == 4 && j < 4; ++j) ok = std::abs(lc_(0, j) - lc_(0, (j + 1) % 4)) < 1e-12 || std::abs(lc_(1, j) - lc_(1, (j + 1) % 4)) < 1e-12;
      if (!ok) return false;
    }
    p = q;
  }
  (void)s;
  return true;
}
void transfer(const Spec& s, MeshHierarchy& h, unsigned lc, unsigned lf) {
  const std::string tag = mc::current() + " levels " + std::to_string(lc) + "->" + std::to_string(lf);
  const auto mc_ = std::const_pointer_cast<const lf::mesh::Mesh>(h.getMesh(lc));
  const auto mf_ = h.getMesh(lf);
  MFWhere w{mc_};
  lf::refinement::MeshFunctionTransfer t(h, w, lc, lf);
  MC_CHECK(t.getMesh() == mf_, "transfer-mesh", tag);
  auto g = [](const Eigen::VectorXd& x) { return 1.5 + x[0] * x[0] - 2 * x[0] * x[1] + 0.3 * x[1] + (x.size() > 2 ? x[2] * x[0] : 0.); };
  lf::mesh::utils::MeshFunctionGlobal mg(g);
  lf::refinement::MeshFunctionTransfer tg(h, mg, lc, lf);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (const auto* e : mf_->Entities(cd)) {
      const Mat x = pts(e->RefEl(), 3);
      auto v = t(*e, x);
      auto vg = tg(*e, x);
      mc::transitions(2);
      MC_CHECK((long)v.size() == x.cols() && (long)vg.size() == x.cols(), "transfer-count", tag);
      if ((long)v.size() != x.cols() || (long)vg.size() != x.cols()) continue;
      {  // other points, as many, on the same entity; one point
        const auto r = t(*e, Mat(x.rowwise().reverse())), o = t(*e, Mat(x.rightCols(1)));
        const auto rg = tg(*e, Mat(x.rowwise().reverse()));
        mc::transitions(3);
        const size_t n = x.cols();
        MC_CHECK(r.size() == n && rg.size() == n && o.size() == 1, "transfer-count", tag);
        if (r.size() != n || rg.size() != n || o.size() != 1) continue;
        bool ok = (o[0].loc - v[n - 1].loc).norm() < 1e-12;
        for (size_t i = 0; i < n; ++i) ok = ok && (r[i].loc - v[n - 1 - i].loc).norm() < 1e-12 && r[i].idx == v[0].idx && std::abs(rg[i] - vg[n - 1 - i]) < 1e-10;
        MC_CHECK(ok, "transfer-repeat", tag << " fine codim " << cd << " idx " << mf_->Index(*e));
      }
      const Mat X = e->Geometry()->Global(x);
      const bool full = nestedOn(h, s, lc, lf, *e);
      // the recorded positions, level by level (also where the geometries are not nested)
      Mat want = x;
      const Entity* anc = e;
      for (unsigned l = lf; l > lc; --l) {
        want = h.GeometryInParent(l, *anc)->Global(want).cwiseMax(0.0).cwiseMin(1.0);
        anc = h.ParentEntity(l, *anc);
      }
      for (int i = 0; i < x.cols(); ++i) {
        MC_CHECK(v[i].codim == anc->Codim() && v[i].idx == mc_->Index(*anc), "transfer-ancestor", tag << " fine codim " << cd << " idx " << mf_->Index(*e));
        if (v[i].loc.size() == want.rows())
          MC_CHECK((v[i].loc - want.col(i)).norm() < 1e-11, "transfer-local", tag << " fine codim " << cd << " idx " << mf_->Index(*e) << " point " << i << " got " << v[i].loc.transpose() << " want " << want.col(i).transpose());
        MC_CHECK(v[i].codim <= cd && v[i].idx == v[0].idx && v[i].codim == v[0].codim, "transfer-one-parent", tag);
        const Entity* p = mc_->EntityByIndex(v[i].codim, v[i].idx);
        Eigen::MatrixXd loc = v[i].loc;
        MC_CHECK(loc.rows() == p->RefEl().Dimension(), "transfer-dim", tag);
        if (loc.rows() != p->RefEl().Dimension()) continue;
        if (p->Codim() < 2) loc = loc.cwiseMax(0.0).cwiseMin(1.0);
        if (full) {
          const Eigen::VectorXd Y = p->Geometry()->Global(loc).col(0);
          MC_CHECK((Y - X.col(i)).norm() < 1e-11 * (1 + Y.norm()), "transfer-position", tag << " fine codim " << cd << " idx " << mf_->Index(*e) << " point " << i << " at " << X.col(i).transpose() << " evaluated at " << Y.transpose());
          MC_CHECK(std::abs(vg[i] - g(X.col(i))) < 1e-10, "transfer-value", tag << " fine codim " << cd << " idx " << mf_->Index(*e));
        }
      }
    }
}
template <class FC, class FF>
void prolong(const Spec& s, MeshHierarchy& h, unsigned lc, int pc, int pf, std::shared_ptr<FC> c, std::shared_ptr<FF> f, bool cplx) {
  const std::string tag = mc::current() + " prolongation p" + std::to_string(pc) + "->p" + std::to_string(pf) + " level " + std::to_string(lc);
  const unsigned N = c->LocGlobMap().NumDofs();
  const auto mf_ = h.getMesh(lc + 1);
  for (unsigned k = 0; k < N; ++k) {
    Eigen::VectorXd u = Eigen::VectorXd::Unit(N, k);
    Eigen::VectorXd w = lf::fe::prolongate<double>(h, c, f, u, lc);
    mc::transitions();
    MC_CHECK(w.size() == (long)f->LocGlobMap().NumDofs(), "prolong-size", tag);
    if (w.size() != (long)f->LocGlobMap().NumDofs()) continue;
    if (cplx) {  // complex-valued space of the same kind
      auto cc = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<C>>(h.getMesh(lc)), fc = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<C>>(h.getMesh(lc + 1));
      Eigen::VectorXcd uc = C(2, -3) * u;
      Eigen::VectorXcd wc = lf::fe::prolongate<C>(h, cc, fc, uc, lc);
      MC_CHECK(wc.size() == w.size() && (wc - C(2, -3) * w).norm() < 1e-11, "prolong-linear", tag << " dof " << k);
    }
    lf::fe::MeshFunctionFE<double, double> U(c, u), W(f, w);
    for (const auto* e : mf_->Entities(0)) {
      const Entity* p = h.ParentEntity(lc + 1, *e);
      // local polynomial degree of the coarse function pulled back to the fine cell
      const bool nested = pf >= pc && (p->RefEl() == e->RefEl()) &&
                          (p->RefEl() == RefEl::kTria() || nestedOn(h, s, lc, lc + 1, *e)) &&
                          (p->RefEl() == RefEl::kTria() || [&] {  // child quads whose position in the parent is an axis-parallel rectangle
                            const Mat q = h.GeometryInParent(lc + 1, *e)->Global(e->RefEl().NodeCoords());
                            bool ok = true;
                            for (int j = 0; j < 4; ++j) ok = ok && (std::abs(q(0, j) - q(0, (j + 1) % 4)) < 1e-12 || std::abs(q(1, j) - q(1, (j + 1) % 4)) < 1e-12);
                            return ok;
                          }());
      const Mat x = nested ? pts(e->RefEl(), 4) : Mat(f->ShapeFunctionLayout(*e)->EvaluationNodes());
      const auto a = W(*e, x);
      const Mat y = h.GeometryInParent(lc + 1, *e)->Global(x).cwiseMax(0.0).cwiseMin(1.0);
      const auto b = U(*p, y);
      for (int i = 0; i < x.cols(); ++i)
        MC_CHECK(std::abs(a[i] - b[i]) < 1e-10, nested ? "prolong-exact" : "prolong-nodal", tag << " dof " << k << " fine cell " << mf_->Index(*e) << " point " << x.col(i).transpose() << " got " << a[i] << " want " << b[i]);
    }
  }
}
void check(const Spec& s, MeshHierarchy& h, bool curved) {
  using namespace lf::uscalfe;
  const unsigned L = h.NumLevels() - 1;
  for (unsigned lc = 0; lc < L; ++lc) transfer(s, h, lc, L);
  const auto c = h.getMesh(L - 1), f = h.getMesh(L);
  auto c1 = std::make_shared<FeSpaceLagrangeO1<double>>(c), f1 = std::make_shared<FeSpaceLagrangeO1<double>>(f);
  auto c2 = std::make_shared<FeSpaceLagrangeO2<double>>(c), f2 = std::make_shared<FeSpaceLagrangeO2<double>>(f);
  auto c3 = std::make_shared<FeSpaceLagrangeO3<double>>(c), f3 = std::make_shared<FeSpaceLagrangeO3<double>>(f);
  prolong(s, h, L - 1, 1, 1, c1, f1, true);
  prolong(s, h, L - 1, 2, 2, c2, f2, false);
  prolong(s, h, L - 1, 3, 3, c3, f3, false);
  prolong(s, h, L - 1, 1, 2, c1, f2, false);
  prolong(s, h, L - 1, 1, 3, c1, f3, false);
  prolong(s, h, L - 1, 2, 3, c2, f3, false);
  prolong(s, h, L - 1, 2, 1, c2, f1, false);
  prolong(s, h, L - 1, 3, 1, c3, f1, false);
  // hierarchic spaces (only the conforming nested case is an exact statement)
  if (allTria(h, L) && allTria(h, L - 1)) {
    for (unsigned p = 1; p <= 4; ++p) {
      auto ch = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(c, p), fh = std::make_shared<lf::fe::HierarchicScalarFESpace<double>>(f, p);
      prolong(s, h, L - 1, p, p, ch, fh, false);
    }
  }
}
struct Job {
  Spec s;
  std::vector<int> rich;
  std::vector<Step> firsts;
};
std::vector<Job> jobs;
std::vector<std::pair<int, int>> items;
// several levels: base mesh x word over the pattern letters
struct Long {
  Spec s;
  std::vector<int> word;
  unsigned steps;
};
std::vector<Long> longs;
long count() {
  for (int g : {kO1, kO2})
    for (auto& s : bases({0, 1, 3, 5}, false, {g}))
      for (int a = 0; a < kLetters; ++a)
        for (int b = 0; b < kLetters; ++b)
          if (g == kO1 || (a + b) % 2 == 0 || mc::thorough) longs.push_back({s, {a, b}, mc::thorough ? 5u : 4u});
  for (auto& s : largeSpecs(mc::thorough ? 300 : 30, mc::thorough ? 3 : 1))
    for (int a = 0; a < kLetters; ++a) longs.push_back({s, {a}, 1});
  auto add = [&](const std::vector<Spec>& b, std::vector<int> rich) {
    for (auto& s : b) {
      const unsigned ne = cellEdges(s).size();
      Job j{s, rich, alphabet(ne, rich[0] == 3 && ne > 10 ? 2 : rich[0])};
      for (int k = 0; k < (int)j.firsts.size(); ++k) items.push_back({(int)jobs.size(), k});
      jobs.push_back(std::move(j));
    }
  };
  const bool T = mc::thorough;
  auto para = bases({1}, true, {kPara});
  for (auto& s : para) s.pts[3] = s.pts[0] + s.pts[2] - s.pts[1];
  add(bases({0}, true, {kO1, kO2}), T ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 1});
  add(bases({1}, true, {kO1, kO2}), T ? std::vector<int>{3, 1} : std::vector<int>{3});
  add(bases({1}, false, {kO1, kO2}), T ? std::vector<int>{3, 1, 1} : std::vector<int>{3, 1});
  add(para, T ? std::vector<int>{3, 2} : std::vector<int>{3, 1});
  add(bases({2, 3, 4}, true, {kNone, kO2}), T ? std::vector<int>{3, 1} : std::vector<int>{2});
  add(bases({5, 6, 7, 8, 9}, false, {kO1, kO2}), T ? std::vector<int>{3} : std::vector<int>{1});
  add(bases({0, 1, 3}, false, {kO1, kO2}, 3), T ? std::vector<int>{3, 1} : std::vector<int>{3});
  return items.size() + longs.size();
}
void item(long it) {
  if (it >= (long)items.size()) {
    auto& l = longs[it - items.size()];
    mc::sample(l.s.str());
    const bool cv = l.s.cells[0].geo == kO2;
    return longHistory(l.s, l.word, l.steps, std::max<unsigned>(mc::thorough ? 150 : 40, l.s.cells.size() * 5), [&](MeshHierarchy& h, const std::vector<Step>&) { check(l.s, h, cv); });
  }
  auto& j = jobs[items[it].first];
  bool curved = false;
  for (auto& c : j.s.cells) curved = curved || c.geo == kO2;
  Explorer ex{j.s, j.rich, [&](MeshHierarchy& h, const std::vector<Step>&) { check(j.s, h, curved); }};
  mc::sample(j.s.str() + " :: " + j.firsts[items[it].second].str());
  ex.run(j.firsts[items[it].second]);
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
