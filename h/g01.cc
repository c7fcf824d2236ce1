// G01: mapping, Jacobian, inverse Gramian, integration element, volume, corners
// of every shape kind agree with the interpolation definition, at every
// reference point, for every batching of the evaluation points.
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "geo.h"
using namespace gm;
namespace {
constexpr int PARTS = 6;
constexpr int DEG = 16;
long count() { return NK * PARTS + DEG; }

bool curved(int k) { return k == S2 || k == T2 || k == Q1 || k == Q2; }

long checked = 0;
void checkShape(int k, const Mat& c) {
  const std::string tag = str(k, c);
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  auto g = make(k, c);
  const int D = c.rows(), l = ldim(k);
  MC_CHECK((int)g->DimLocal() == l && (int)g->DimGlobal() == D && g->RefEl() == refel(k), "dims", tag);
  double scale = 0, diam = 0;
  for (int i = 0; i < c.cols(); ++i) {
    scale = std::max(scale, c.col(i).cwiseAbs().maxCoeff());
    for (int j = 0; j < i; ++j) diam = std::max(diam, (c.col(i) - c.col(j)).norm());
  }
  Mat cor = lf::geometry::Corners(*g);
  MC_CHECK(cor.rows() == D && cor.cols() == (int)refel(k).NumNodes() && (cor - c.leftCols(refel(k).NumNodes())).cwiseAbs().maxCoeff() <= 1e-12 * (scale + diam), "corners", tag);
  if (k == Pt) {
    Mat p = g->Global(Mat(0, 1));
    MC_CHECK(p.rows() == D && p.cols() == 1 && p == c, "point-global", tag);
    MC_CHECK(lf::geometry::Volume(*g) == 1.0, "point-volume", tag);
    mc::transitions(2);
    mc::traces();
    return;
  }
  auto pts = refpts(k, 4);
  pts.push_back(l == 1 ? Eigen::VectorXd((Eigen::VectorXd(1) << 0.3).finished()) : Eigen::VectorXd(Eigen::Vector2d(0.13, 0.71)));
  pts.push_back(l == 1 ? Eigen::VectorXd((Eigen::VectorXd(1) << 0.9).finished()) : Eigen::VectorXd(Eigen::Vector2d(0.61, 0.07)));
  const int n = pts.size();
  // rounding error of the coordinates themselves
  const double noise = 4e-15 * (scale + diam) / diam;
  auto compare = [&](const std::vector<int>& sel, const char* mode) {
    Mat x(l, sel.size());
    for (size_t q = 0; q < sel.size(); ++q) x.col(q) = pts[sel[q]];
    const Mat G = g->Global(x), J = g->Jacobian(x), R = g->JacobianInverseGramian(x);
    const Eigen::VectorXd I = g->IntegrationElement(x);
    mc::transitions(4 * sel.size());
    const int m = sel.size();
    MC_CHECK(G.rows() == D && G.cols() == m, "global-shape", tag << mode);
    MC_CHECK(J.rows() == D && J.cols() == m * l, "jacobian-shape", tag << mode);
    MC_CHECK(R.rows() == D && R.cols() == m * l, "jig-shape", tag << mode);
    MC_CHECK(I.size() == m, "ie-shape", tag << mode);
    if (G.rows() != D || G.cols() != m || J.rows() != D || J.cols() != m * l || R.rows() != D || R.cols() != m * l || I.size() != m) return;
    for (int q = 0; q < m; ++q) {
      ld xx[2] = {x(0, q), l > 1 ? x(1, q) : 0};
      const Eval e = eval(k, c, xx);
      const double tc = (1e-11 + 10 * noise) * (double)e.cond;
      bool g1 = true, j1 = true, r1 = true;
      for (int d = 0; d < D; ++d) {
        g1 &= std::abs((double)(G(d, q) - e.x[d])) <= 1e-12 * (scale + diam);
        for (int a = 0; a < l; ++a) {
          j1 &= std::abs((double)(J(d, q * l + a) - e.J[d][a])) <= 1e-12 * (scale + diam);
          r1 &= std::abs((double)(R(d, q * l + a) - e.jig[d][a])) <= 10 * tc * (double)e.cond / diam * 10;
        }
      }
      MC_CHECK(g1, "global", tag << mode << " at " << x.col(q).transpose() << " got " << G.col(q).transpose());
      MC_CHECK(j1, "jacobian", tag << mode << " at " << x.col(q).transpose() << " got " << J.middleCols(q * l, l));
      MC_CHECK(r1, "jig", tag << mode << " at " << x.col(q).transpose() << " got " << R.middleCols(q * l, l) << " want " << (double)e.jig[0][0] << " " << (double)e.jig[1][0]);
      MC_CHECK(std::abs((double)(I[q] - e.ie)) <= tc * (double)e.ie * 10, "integration-element", tag << mode << " at " << x.col(q).transpose() << " got " << I[q] << " want " << (double)e.ie);
    }
    mc::traces();
  };
  std::vector<int> all(n), rev(n);
  for (int i = 0; i < n; ++i) all[i] = i, rev[i] = n - 1 - i;
  compare(all, " [all points]");
  compare(rev, " [reversed]");
  for (int i = 0; i < n; ++i) compare({i}, " [single]");
  for (int i = 0; i + 1 < n; i += 3) compare({i, i + 1}, " [pair]");
  compare({0, 0, n - 1}, " [repeated]");
  if (checked++ % 7 == 0) {
    std::vector<int> many(150);
    for (int i = 0; i < 150; ++i) many[i] = (5 * i + i / 7) % n;
    compare(many, " [150 points]");
  }
  // affine claim
  if (g->isAffine()) {
    Mat J = g->Jacobian(stack(pts));
    bool cst = true;
    for (int q = 1; q < n; ++q) cst &= (J.middleCols(q * l, l) - J.leftCols(l)).cwiseAbs().maxCoeff() <= 1e-11 * (scale + diam);
    MC_CHECK(cst, "affine-claim", tag << " claims to be affine");
  }
  // volume: exact for affine shapes and planar bilinear ones
  const bool exact = k == S1 || k == T1 || k == Pa || (k == Q1 && D == 2);
  if (exact) {
    ld v = 0;
    if (k == S1) v = (c.col(1) - c.col(0)).norm();
    else {
      auto area = [&](int a, int b, int d) {
        Eigen::Vector3d u = Eigen::Vector3d::Zero(), w = u;
        u.head(D) = c.col(b) - c.col(a);
        w.head(D) = c.col(d) - c.col(a);
        return 0.5 * u.cross(w).norm();
      };
      v = k == T1 ? area(0, 1, 2) : area(0, 1, 2) + area(0, 2, 3);
    }
    MC_CHECK(std::abs(lf::geometry::Volume(*g) - (double)v) <= (1e-11 + 100 * noise) * diam * (l == 1 ? 1 : diam) * 4, "volume", tag << " got " << lf::geometry::Volume(*g) << " want " << (double)v);
  } else {
    ld x[2] = {refel(k) == RefEl::kTria() ? 1.0L / 3 : 0.5L, refel(k) == RefEl::kTria() ? 1.0L / 3 : 0.5L};
    auto e = eval(k, c, x);
    double w = refel(k) == RefEl::kTria() ? 0.5 : 1.0;
    MC_CHECK(std::abs(lf::geometry::Volume(*g) - w * (double)e.ie) <= (1e-11 + 100 * noise) * (double)e.ie * 10 * (double)e.cond, "volume-onepoint", tag);
  }
  mc::transitions();
}

// does the call end the process (or throw)?
template <class F>
bool refused(F f) {
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    const int z = open("/dev/null", O_WRONLY);
    dup2(z, 1);
    dup2(z, 2);
    rlimit r{0, 0};
    setrlimit(RLIMIT_CORE, &r);
    try {
      f();
    } catch (...) {
      _exit(7);
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
// Degenerate shapes (collapsed edges, no area) are refused, all others accepted,
// in the plane and in space, at every scale.
void degenerate(int part) {
  for (int k : {(int)T1, (int)Q1}) {
    const int n = k == T1 ? 3 : 4, b = mc::thorough ? 3 : 2;
    long tot = 1, cnt = 0;
    for (int i = 0; i < n; ++i) tot *= 3 * b;
    for (long q = 0; q < tot; ++q) {
      Mat c(2, n);
      long r = q;
      for (int i = 0; i < n; ++i, r /= 3 * b) c.col(i) << (r % (3 * b)) % 3, (r % (3 * b)) / 3;
      auto tri = [&](int i, int j, int l) { return std::abs((c(0, j) - c(0, i)) * (c(1, l) - c(1, i)) - (c(1, j) - c(1, i)) * (c(0, l) - c(0, i))); };
      bool bad = n == 3 ? tri(0, 1, 2) == 0 : tri(0, 1, 2) + tri(0, 2, 3) == 0;
      for (int i = 0; i < n; ++i) bad = bad || c.col(i) == c.col((i + 1) % n);
      if (++cnt % DEG != part) continue;
      int mode = 0;
      for (double s : {1., 1e-4, 1e4})
        for (int how : {-1, 1, 3}) {
          if (bad && (cnt / DEG + mode++) % (mc::thorough ? 3 : 9)) continue;  // every refusal is a process
          const Mat e = s * (how < 0 ? c : embed(c, how));
          const std::string tag = "degeneracy of " + str(k, e);
          mc::current(tag);
          if (mc::outcome(tag)) mc::states();
          mc::transitions();
          auto f = [&] {
            return k == T1 ? lf::geometry::assertNonDegenerateTriangle(e) : lf::geometry::assertNonDegenerateQuad(e);
          };
          if (bad) {
            MC_CHECK(refused(f), "degenerate-accepted", tag);
            MC_CHECK(refused([&] { make(k, e); }), "degenerate-constructed", tag);
          } else
            MC_CHECK(f(), "nondegenerate", tag);
        }
    }
  }
}

void item(long it) {
  if (it >= NK * PARTS) return degenerate(it - NK * PARTS);
  const int k = it / PARTS, part = it % PARTS;
  long cnt = 0;
  mc::sample(std::string("kind ") + kname(k) + " part " + std::to_string(part));
  enumerate(k, mc::thorough, [&](const Mat& c) {
    const long id = cnt++;
    // part 0: planar; 1: scaled/shifted planar; 2..: embedded in 3D; 5: 1D (segments)
    if (part == 0) checkShape(k, c);
    else if (part == 1) {
      for (double s : {1e-7, 1e-5, 1e5, 1e7})
        checkShape(k, s * c);
      if (curved(k))
        for (double eps : {1e-1, 1e-2, 1e-4, 1e-6, 1e-9}) {
          const Mat m = nearlyAffine(k, c, eps);
          if (regular(k, m)) checkShape(k, m);
        }
      Mat sh = c;
      sh.row(0).array() += 300;
      sh.row(1).array() -= 170;
      checkShape(k, sh);
    } else if (part == 5) {
      if (ldim(k) == 1 && c.row(1).isZero()) {
        Mat c1 = c.row(0);
        if (regular(k, c1)) checkShape(k, c1);
      }
    } else {
      for (int how = part == 2 ? 0 : part == 3 ? 2 : 4; how <= (part == 2 ? 1 : part == 3 ? 3 : 4); ++how) {
        Mat e = embed(c, how);
        if (k == Pa && how == 4) e.col(2) = e.col(1) + e.col(3) - e.col(0);
        if (regular(k, e, 0.03)) checkShape(k, e);
        if (id % 5 == 0)
          for (double sc : {1e-6, 1e-4, 1e4}) checkShape(k, sc * e);
        if (curved(k) && id % 3 == 0)
          for (double eps : {1e-2, 1e-5}) {
            const Mat m = nearlyAffine(k, e, eps);
            if (regular(k, m, 0.03)) checkShape(k, m);
          }
      }
    }
  });
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
