// G02: reference element topology, traces (sub-geometries), refinement patterns
// (tilings of the reference element) and child geometries.
#include <lf/refinement/refinement.h>

#include "geo.h"
using namespace gm;
using lf::refinement::Hybrid2DRefinementPattern;
using lf::refinement::RefPat;
namespace {
constexpr int PARTS = 4;
long count() { return 1 + NK * PARTS; }
using IMat = Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic>;

struct Pat {
  RefPat p;
  int anchor;  // -1: none
};
std::vector<Pat> patterns(RefEl r) {
  using namespace lf::refinement;
  std::vector<Pat> v;
  auto anch = [&](RefPat p, int n) { for (int a = 0; a < n; ++a) v.push_back({p, a}); };
  if (r == RefEl::kPoint()) v = {{rp_copy, -1}};
  if (r == RefEl::kSegment()) v = {{rp_nil, -1}, {rp_copy, -1}, {rp_split, -1}};
  if (r == RefEl::kTria()) {
    v = {{rp_nil, -1}, {rp_copy, -1}, {rp_regular, -1}, {rp_barycentric, -1}};
    for (auto p : {rp_bisect, rp_trisect, rp_trisect_left, rp_quadsect}) anch(p, 3);
    for (auto p : {rp_copy, rp_regular, rp_barycentric}) anch(p, 3);
  }
  if (r == RefEl::kQuad()) {
    v = {{rp_nil, -1}, {rp_copy, -1}, {rp_regular, -1}, {rp_barycentric, -1}};
    for (auto p : {rp_bisect, rp_split, rp_trisect, rp_quadsect, rp_threeedge}) anch(p, 4);
    for (auto p : {rp_copy, rp_regular, rp_barycentric}) anch(p, 4);
  }
  return v;
}
std::unique_ptr<Hybrid2DRefinementPattern> makePat(RefEl r, const Pat& p) {
  if (p.anchor < 0) return std::make_unique<Hybrid2DRefinementPattern>(r, p.p);
  return std::make_unique<Hybrid2DRefinementPattern>(r, p.p, p.anchor);
}
// edges of the reference element that are split by a pattern (documented)
std::set<int> splitEdges(RefEl r, const Pat& p) {
  using namespace lf::refinement;
  const int a = p.anchor;
  if (r == RefEl::kTria()) switch (p.p) {
      case rp_bisect: return {a};
      case rp_trisect: return {a, (a + 1) % 3};
      case rp_trisect_left: return {a, (a + 2) % 3};
      case rp_quadsect: case rp_regular: case rp_barycentric: return {0, 1, 2};
      default: return {};
    }
  switch (p.p) {
    case rp_bisect: case rp_split: return {a, (a + 2) % 4};
    case rp_trisect: return {a};
    case rp_quadsect: return {a, (a + 1) % 4};
    case rp_threeedge: return {a, (a + 1) % 4, (a + 3) % 4};
    case rp_regular: case rp_barycentric: return {0, 1, 2, 3};
    default: return {};
  }
}
long cross(const Eigen::Vector2i& a, const Eigen::Vector2i& b, const Eigen::Vector2i& c) {
  return (long)(b[0] - a[0]) * (c[1] - a[1]) - (long)(b[1] - a[1]) * (c[0] - a[0]);
}

void checkTopology() {
  mc::current("reference element topology");
  for (auto r : {RefEl::kPoint(), RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()}) {
    const std::string t = r.ToString();
    mc::states();
    mc::outcome(t);
    const int d = r.Dimension();
    const int nn = r == RefEl::kPoint() ? 1 : r == RefEl::kSegment() ? 2 : r == RefEl::kTria() ? 3 : 4;
    MC_CHECK(d == (nn == 1 ? 0 : nn == 2 ? 1 : 2) && (int)r.NumNodes() == nn, "ref-dims", t);
    const Mat& nc = r.NodeCoords();
    MC_CHECK(nc.rows() == d && nc.cols() == nn, "ref-nodecoords", t);
    Mat want(d, nn);
    if (nn == 2) want << 0, 1;
    if (nn == 3) want << 0, 1, 0, 0, 0, 1;
    if (nn == 4) want << 0, 1, 1, 0, 0, 0, 1, 1;
    MC_CHECK(d == 0 || nc == want, "ref-nodecoords", t);
    for (int cd = 0; cd <= d; ++cd) {
      const int ns = cd == 0 ? 1 : cd == d ? nn : nn;
      MC_CHECK((int)r.NumSubEntities(cd) == ns, "ref-numsub", t << " codim " << cd);
      for (int i = 0; i < ns; ++i) {
        const RefEl st = r.SubType(cd, i);
        MC_CHECK((int)st.Dimension() == d - cd && (cd != 0 || st == r), "ref-subtype", t << " codim " << cd << " i " << i);
        for (int sc = 0; sc <= d - cd; ++sc)
          for (int j = 0; j < (int)st.NumSubEntities(sc); ++j) {
            const int g = r.SubSubEntity2SubEntity(cd, i, sc, j);
            mc::transitions();
            int exp = -1;
            if (cd == 0) exp = j;
            else if (sc == 0) exp = i;
            else exp = (i + j) % nn;  // endpoints of edge i
            MC_CHECK(g == exp, "ref-subsub", t << " (" << cd << "," << i << "," << sc << "," << j << ") -> " << g);
          }
      }
    }
  }
  MC_CHECK(RefEl::kSegment() != RefEl::kTria() && RefEl::kQuad() == RefEl::kQuad(), "ref-eq", "");
  // patterns as exact tilings, on several lattice resolutions (only 6 is fixed by the constructor)
  for (auto r : {RefEl::kSegment(), RefEl::kTria(), RefEl::kQuad()})
    for (auto& p : patterns(r)) {
      auto rp = makePat(r, p);
      std::ostringstream o;
      o << r.ToString() << " pattern " << p.p << " anchor " << p.anchor;
      const std::string t = o.str();
      mc::current(t);
      mc::states();
      mc::outcome(t);
      mc::traces();
      const int N = rp->LatticeConst(), d = r.Dimension();
      MC_CHECK(N % 6 == 0 && N > 0 && rp->RefEl() == r, "pattern-lattice", t);
      std::vector<std::vector<IMat>> poly;
      for (int cd = 0; cd <= d; ++cd) {
        poly.push_back(rp->ChildPolygons(cd));
        mc::transitions();
        MC_CHECK(poly[cd].size() == rp->NumChildren(cd), "pattern-count", t << " codim " << cd);
        for (auto& q : poly[cd]) {
          MC_CHECK(q.rows() == d && ((cd == d && q.cols() == 1) || (cd == d - 1 && q.cols() == 2) || (d == 2 && cd == 0 && (q.cols() == 3 || q.cols() == 4))), "pattern-shape", t << " codim " << cd);
          for (int c = 0; c < q.cols(); ++c)
            MC_CHECK(q.col(c).minCoeff() >= 0 && q.col(c).maxCoeff() <= N && (r != RefEl::kTria() || q.col(c).sum() <= N), "pattern-range", t << " codim " << cd);
        }
      }
      if (p.p == lf::refinement::rp_nil) {
        MC_CHECK(poly[0].empty(), "pattern-nil", t);
        continue;
      }
      if (d == 1) {
        // consecutive intervals covering [0,N]
        long len = 0;
        std::set<int> pts{0, N}, ip;
        for (auto& q : poly[0]) {
          len += q(0, 1) - q(0, 0);
          MC_CHECK(q(0, 1) > q(0, 0), "segment-orientation", t);
          pts.insert(q(0, 0));
          pts.insert(q(0, 1));
        }
        for (auto& q : poly[1]) ip.insert(q(0, 0));
        MC_CHECK(len == N && pts.size() == poly[0].size() + 1 && ip.size() + 2 == pts.size() && (ip.empty() || (ip.size() == 1 && *ip.begin() == N / 2)), "segment-tiling", t);
        continue;
      }
      // area
      long area2 = 0;
      std::map<std::pair<std::pair<int, int>, std::pair<int, int>>, int> edges;
      std::set<std::pair<int, int>> verts;
      auto key = [](const Eigen::Vector2i& a) { return std::make_pair(a[0], a[1]); };
      for (auto& q : poly[0]) {
        long a = 0;
        const int n = q.cols();
        long s0 = 0;
        for (int c = 0; c < n; ++c) {
          long cr = cross(q.col(c), q.col((c + 1) % n), q.col((c + 2) % n));
          MC_CHECK(cr != 0 && (s0 == 0 || (cr > 0) == (s0 > 0)), "child-convex", t);
          s0 = cr;
          a += (long)q(0, c) * q(1, (c + 1) % n) - (long)q(1, c) * q(0, (c + 1) % n);
          auto u = key(q.col(c)), v = key(q.col((c + 1) % n));
          if (v < u) std::swap(u, v);
          edges[{u, v}]++;
          verts.insert(key(q.col(c)));
        }
        area2 += std::abs(a);
      }
      const long tot = (r == RefEl::kTria() ? 1 : 2) * (long)N * N;
      MC_CHECK(area2 == tot, "tiling-area", t << " area " << area2);
      // every generic point in exactly one child
      const int F = 4;
      for (int i = 0; i < N * F; ++i)
        for (int j = 0; j < N * F; ++j) {
          // sub-lattice point shifted off all lattice lines
          const double x = (i + 0.37) / F, y = (j + 0.41) / F;
          if (r == RefEl::kTria() && x + y > N - 1e-9) continue;
          int hit = 0;
          for (auto& q : poly[0]) {
            const int n = q.cols();
            int pos = 0, neg = 0;
            for (int c = 0; c < n; ++c) {
              const double cr = (q(0, (c + 1) % n) - q(0, c)) * (y - q(1, c)) - (q(1, (c + 1) % n) - q(1, c)) * (x - q(0, c));
              (cr > 0 ? pos : neg)++;
            }
            if (pos == 0 || neg == 0) ++hit;
          }
          MC_CHECK(hit == 1, "tiling-cover", t << " point " << x << "," << y << " in " << hit << " children");
        }
      // interior edges = child edges used twice; boundary edges used once and
      // split exactly where the pattern says
      std::set<std::pair<std::pair<int, int>, std::pair<int, int>>> inner, declared;
      for (auto& e : edges) {
        MC_CHECK(e.second <= 2, "edge-shared", t);
        if (e.second == 2) inner.insert(e.first);
      }
      for (auto& q : poly[1]) {
        auto u = key(q.col(0)), v = key(q.col(1));
        if (v < u) std::swap(u, v);
        MC_CHECK(declared.insert({u, v}).second, "interior-edge-dup", t);
      }
      MC_CHECK(inner == declared, "interior-edges", t << " " << inner.size() << " vs " << declared.size());
      std::set<std::pair<int, int>> ipts;
      for (auto& q : poly[2]) ipts.insert(key(q.col(0)));
      // expected vertex set
      std::set<std::pair<int, int>> exp = ipts;
      const int nn = r.NumNodes();
      Eigen::MatrixXi nc = (N * r.NodeCoords()).cast<int>();
      for (int c = 0; c < nn; ++c) exp.insert(key(nc.col(c)));
      for (int e : splitEdges(r, p)) exp.insert(key((nc.col(e) + nc.col((e + 1) % nn)) / 2));
      for (auto& q : ipts) {
        MC_CHECK(q.first > 0 && q.second > 0 && (r == RefEl::kTria() ? q.first + q.second < N : (q.first < N && q.second < N)), "interior-point", t);
      }
      MC_CHECK(exp == verts, "pattern-vertices", t);
    }
}

void checkShape(int k, const Mat& c) {
  const std::string tag = str(k, c);
  mc::current(tag);
  if (mc::outcome(tag)) mc::states();
  auto g = make(k, c);
  const RefEl r = refel(k);
  const int d = ldim(k), D = c.rows(), nn = r.NumNodes();
  double scale = c.cwiseAbs().maxCoeff() + 1e-300;
  const double tol = 1e-11 * scale;
  // --- traces
  for (int cd = 0; cd <= d; ++cd)
    for (int i = 0; i < (int)r.NumSubEntities(cd); ++i) {
      auto s = g->SubGeometry(cd, i);
      mc::transitions();
      MC_CHECK(s && s->RefEl() == r.SubType(cd, i) && (int)s->DimGlobal() == D && (int)s->DimLocal() == d - cd, "sub-type", tag << " codim " << cd << " i " << i);
      if (!s) continue;
      Mat x, y;
      if (d - cd == 0) {
        x = Mat(0, 1);
        y = r.NodeCoords().col(i);
        if (d == 0) y = Mat(0, 1);
      } else if (cd == 0) {
        x = y = stack(refpts(k, 3));
      } else {
        x = stack(refpts(S1, 5));
        y = r.NodeCoords().col(i) * (Mat::Ones(1, x.cols()) - x) + r.NodeCoords().col((i + 1) % nn) * x;
      }
      Mat a = s->Global(x), b = g->Global(y);
      MC_CHECK(a.rows() == D && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= tol, "sub-trace", tag << " codim " << cd << " i " << i << " got " << a << " want " << b);
      if (cd > 0 && d - cd == 1) {
        Mat ja = s->Jacobian(x), jb = g->Jacobian(y);
        bool ok = ja.cols() == x.cols();
        const Eigen::Vector2d tdir = r.NodeCoords().col((i + 1) % nn) - r.NodeCoords().col(i);
        for (int q = 0; ok && q < x.cols(); ++q) ok = (ja.col(q) - jb.middleCols(2 * q, 2) * tdir).cwiseAbs().maxCoeff() <= 10 * tol;
        MC_CHECK(ok, "sub-trace-derivative", tag << " codim " << cd << " i " << i);
      }
    }
  mc::traces();
  // --- children
  for (auto& p : patterns(r)) {
    auto rp = makePat(r, p);
    const double h = 1.0 / rp->LatticeConst();
    for (int cd = 0; cd <= d; ++cd) {
      auto ch = g->ChildGeometry(*rp, cd);
      auto poly = rp->ChildPolygons(cd);
      mc::transitions(ch.size() + 1);
      MC_CHECK(ch.size() == rp->NumChildren(cd) && ch.size() == poly.size(), "child-count", tag << " pat " << p.p << " anchor " << p.anchor << " codim " << cd);
      if (ch.size() != poly.size()) continue;
      for (size_t i = 0; i < ch.size(); ++i) {
        if (d == 0) {
          MC_CHECK((ch[i]->Global(Mat(0, 1)) - c).cwiseAbs().maxCoeff() <= tol, "child-corner", tag);
          continue;
        }
        const Mat lc = h * poly[i].cast<double>();
        const int n = lc.cols();
        const RefEl cr = n == 1 ? RefEl::kPoint() : n == 2 ? RefEl::kSegment() : n == 3 ? RefEl::kTria() : RefEl::kQuad();
        MC_CHECK(ch[i] && ch[i]->RefEl() == cr && (int)ch[i]->DimGlobal() == D, "child-type", tag << " pat " << p.p << " codim " << cd << " child " << i);
        if (!ch[i] || ch[i]->RefEl() != cr) continue;
        auto cmp = [&](const Mat& x, const Mat& y, const char* key) {
          Mat a = ch[i]->Global(x), b = g->Global(y);
          MC_CHECK(a.rows() == D && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= tol, key, tag << " pat " << p.p << " anchor " << p.anchor << " codim " << cd << " child " << i << " got " << a << " want " << b);
        };
        if (n == 1) {
          cmp(Mat(0, 1), lc, "child-corner");
          continue;
        }
        cmp(cr.NodeCoords(), lc, "child-corner");
        // pointwise nestedness where the polynomial degrees allow it
        const bool second = k == S2 || k == T2 || k == Q2;
        const bool affineParent = k == S1 || k == T1 || k == Pa;
        // axis-parallel sub-rectangle of the unit square?
        bool para = n == 4 && (lc.col(0) + lc.col(2) - lc.col(1) - lc.col(3)).norm() < 1e-12;
        bool axis = para;
        for (int q = 0; axis && q < 4; ++q) axis = std::abs(lc(0, q) - lc(0, (q + 1) % 4)) < 1e-12 || std::abs(lc(1, q) - lc(1, (q + 1) % 4)) < 1e-12;
        const bool axisEdge = n == 2 && d == 2 && (std::abs(lc(0, 0) - lc(0, 1)) < 1e-12 || std::abs(lc(1, 0) - lc(1, 1)) < 1e-12);
        bool full = affineParent || k == S2 || k == T2;
        if ((k == Q1 || k == Q2) && (axis || axisEdge)) full = true;
        if (affineParent && n == 4 && !para) full = true;  // bilinear child of affine parent: compare with bilinear reference map
        auto lmap = [&](const Mat& x) {
          Mat y(d, x.cols());
          for (int q = 0; q < x.cols(); ++q) {
            if (n == 2) y.col(q) = lc.col(0) * (1 - x(0, q)) + lc.col(1) * x(0, q);
            else if (n == 3) y.col(q) = lc.col(0) * (1 - x(0, q) - x(1, q)) + lc.col(1) * x(0, q) + lc.col(2) * x(1, q);
            else y.col(q) = lc.col(0) * (1 - x(0, q)) * (1 - x(1, q)) + lc.col(1) * x(0, q) * (1 - x(1, q)) + lc.col(2) * x(0, q) * x(1, q) + lc.col(3) * (1 - x(0, q)) * x(1, q);
          }
          return y;
        };
        auto clamp = [](Mat m) { return Mat(m.cwiseMax(0.0).cwiseMin(1.0)); };
        if (full) {
          Mat x = stack(refpts(n == 2 ? S1 : n == 3 ? T1 : Q1, 4));
          cmp(x, clamp(lmap(x)), "child-nested");
        } else if (second) {
          // at least the edge midpoints of a curved child lie on the parent
          Mat x(cr.Dimension(), n == 2 ? 1 : n);
          if (n == 2) x << 0.5;
          else
            for (int q = 0; q < n; ++q) x.col(q) = 0.5 * (cr.NodeCoords().col(q) + cr.NodeCoords().col((q + 1) % n));
          cmp(x, clamp(lmap(x)), "child-midpoint");
        }
      }
      mc::traces();
    }
  }
}

// every lattice polygon with up to 5 corners: the parallelogram predicate
void checkParallelograms() {
  const int n = mc::thorough ? 6 : 4;
  for (int len = 1; len <= 5; ++len) {
    const int b = len == 4 ? n : 2;  // coordinates 0..b-1
    long tot = 1;
    for (int i = 0; i < 2 * len; ++i) tot *= b;
    for (long c = 0; c < tot; ++c) {
      Eigen::Matrix<int, Eigen::Dynamic, Eigen::Dynamic> p(2, len);
      long r = c;
      for (int i = 0; i < 2 * len; ++i, r /= b) p(i % 2, i / 2) = r % b;
      bool want = len == 4;
      for (int k = 0; want && k < 2; ++k) want = p(k, 1) - p(k, 0) == p(k, 2) - p(k, 3);
      MC_CHECK(lf::geometry::isParallelogram(p) == want, "parallelogram", "polygon\n" << p);
      mc::states();
    }
  }
}

void item(long it) {
  if (it == 0) return checkParallelograms(), checkTopology();
  --it;
  const int k = it / PARTS, part = it % PARTS;
  long cnt = 0;
  mc::sample(std::string("kind ") + kname(k));
  enumerate(k, mc::thorough, [&](const Mat& c) {
    const long id = cnt++;
    if (part == 0) checkShape(k, c);
    if (part == 1) {
      checkShape(k, 1e-3 * c), checkShape(k, 1e-7 * c), checkShape(k, 1e6 * c), checkShape(k, (100 * c).array() + 700);
      if (k == S2 || k == T2 || k == Q1 || k == Q2)
        for (double eps : {1e-2, 1e-4, 1e-7}) {
          const Mat m = nearlyAffine(k, c, eps);
          if (regular(k, m)) checkShape(k, m);
        }
    }
    if (part == 2 || part == 3)
      for (int how = part == 2 ? 1 : 3; how <= (part == 2 ? 1 : 4); ++how) {
        Mat e = embed(c, how);
        if (k == Pa) e.col(2) = e.col(1) + e.col(3) - e.col(0);
        if (regular(k, e, 0.03)) checkShape(k, e);
      }
  });
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
