// P02: projects/ipdg_stokes: mesh builder, element matrices, systems, offset function, post processing.
#include <annulus_triag_mesh_builder.h>
#include <build_system_matrix.h>
#include <mesh_function_velocity.h>
#include <norms.h>
#include <offset_function.h>
#include <piecewise_const_element_matrix_provider.h>
#include <piecewise_const_element_vector_provider.h>
#include <solution_to_mesh_data_set.h>
#include <utils.h>

#include "fe.h"
using namespace fh;
namespace st = projects::ipdg_stokes;
namespace mu = lf::mesh::utils;
namespace {
using Vec2 = Eigen::Vector2d;
std::vector<Spec> M;
Vec2 corner(const Entity& c, int i) { return pos(*c.SubEntities(c.RefEl().Dimension())[i]); }
double cross(const Vec2& a, const Vec2& b) { return a[0] * b[1] - a[1] * b[0]; }
// curl of the hat function of corner i: tangent of the opposite edge / twice the signed area
Vec2 curlHat(const Entity& c, int i) {
  const Vec2 a = corner(c, i), b = corner(c, (i + 1) % 3), d = corner(c, (i + 2) % 3);
  const double det = cross(b - a, d - a);
  // grad = rot90(d-b)/det with value 1 at a, so curl (g_y,-g_x) is parallel to d-b
  const Vec2 g(-(d - b)[1] / det, (d - b)[0] / det);
  return {g[1], -g[0]};
}
Vec2 outNormal(const Entity& c, int e) {
  const Vec2 a = corner(c, e), b = corner(c, (e + 1) % 3), d = corner(c, (e + 2) % 3);
  Vec2 n((b - a)[1], -(b - a)[0]);
  n.normalize();
  return n.dot(d - a) > 0 ? Vec2(-n) : n;
}
Vec2 tang(const Entity& c, int e) {
  const Vec2 n = outNormal(c, e);
  return {-n[1], n[0]};
}
double area(const Entity& c) { return std::abs(cross(corner(c, 1) - corner(c, 0), corner(c, 2) - corner(c, 0))) / 2; }
double len(const Entity& e) { return (corner(e, 1) - corner(e, 0)).norm(); }

// ---- 1. annuli
void annulus(long q) {
  const int na = 3 + q % 6, nr = 1 + q / 6;
  const double rad[][2] = {{0.25, 1}, {1, 2}, {0.01, 5}, {3, 3.25}}, cen[][2] = {{0, 0}, {1, 0}, {0, -2}, {-3.5, 7.25}};
  for (int a = -1; a < 4; ++a)
    for (int b = -1; b < 4; ++b)
      for (int ord = 0; ord < 2; ++ord) {
        st::mesh::AnnulusTriagMeshBuilder B(std::make_unique<lf::mesh::hybrid2d::MeshFactory>(2));
        const double r = rad[std::max(a, 0)][0], R = rad[std::max(a, 0)][1], cx = cen[std::max(b, 0)][0], cy = cen[std::max(b, 0)][1];
        auto sizes = [&] {
          if (a >= 0) B.setInnerRadius(r), B.setOuterRadius(R);
          if (b >= 0) B.setCenterPoint(cx, cy);
        };
        if (ord == 0) sizes();
        if (na != 4 || ord) B.setNumAngularCells(na);
        if (nr != 1 || ord) B.setNumRadialCells(nr);
        if (ord == 1) sizes();
        std::ostringstream o;
        o << "annulus " << na << "x" << nr << " r=" << r << " R=" << R << " center " << cx << "," << cy << " order " << ord << (a < 0 ? " default radii" : "") << (b < 0 ? " default center" : "");
        const std::string tag = o.str();
        mc::current(tag);
        if (mc::outcome(tag)) mc::states();
        mc::transitions();
        auto m = B.Build();
        MC_CHECK((int)m->NumEntities(2) == na * (nr + 1) && (int)m->NumEntities(0) == 2 * na * nr && (int)m->NumEntities(1) == na * (3 * nr + 1), "annulus-counts", tag);
        // every prescribed position carries exactly one node
        for (int i = 0; i <= nr; ++i)
          for (int j = 0; j < na; ++j) {
            const double rr = r + (R - r) * i / nr, ph = 2 * M_PI * j / na;
            const Vec2 x(cx + rr * std::cos(ph), cy + rr * std::sin(ph));
            int hit = 0;
            for (const Entity* n : m->Entities(2)) hit += (pos(*n) - x).norm() < 1e-10 * (1 + R);
            MC_CHECK(hit == 1, "annulus-nodes", tag << " node (" << i << "," << j << ") found " << hit << " times");
          }
        double sum = 0;
        for (const Entity* c : m->Entities(0)) {
          MC_CHECK(c->RefEl() == RefEl::kTria(), "annulus-cells", tag);
          sum += area(*c);
          for (int i = 0; i < 3; ++i) MC_CHECK((at(*c, i == 1, i == 2) - corner(*c, i)).norm() < 1e-10 * (1 + R), "annulus-geometry", tag << " cell " << m->Index(*c));
          MC_CHECK(area(*c) > 1e-8, "annulus-degenerate", tag);
          // the centre of the cell lies in its sector of the ring
          const Vec2 g = (corner(*c, 0) + corner(*c, 1) + corner(*c, 2)) / 3 - Vec2(cx, cy);
          MC_CHECK(g.norm() < R, "annulus-position", tag);
        }
        const double want = na / 2. * std::sin(2 * M_PI / na) * (R * R - r * r);
        MC_CHECK(std::abs(sum - want) < 1e-10 * (1 + want), "annulus-area", tag << " " << sum << " want " << want);
        auto cnt = mu::CountNumSuperEntities(m, 1, 1);
        int bd = 0;
        for (const Entity* e : m->Entities(1)) {
          const double d0 = (corner(*e, 0) - Vec2(cx, cy)).norm(), d1 = (corner(*e, 1) - Vec2(cx, cy)).norm();
          const bool inner = std::abs(d0 - r) < 1e-9 * R && std::abs(d1 - r) < 1e-9 * R, outer = std::abs(d0 - R) < 1e-9 * R && std::abs(d1 - R) < 1e-9 * R;
          MC_CHECK(cnt(*e) == (inner || outer ? 1u : 2u), "annulus-boundary", tag << " edge " << m->Index(*e));
          bd += cnt(*e) == 1;
        }
        MC_CHECK(bd == 2 * na, "annulus-boundary", tag);
      }
}
// ---- 2. normals of all lattice triangles
void normals(long part) {
  for (int k = part; k < 16 * 16 * 16; k += 4) {
    const int p[3] = {k % 16, k / 16 % 16, k / 256};
    Eigen::Matrix<double, 2, 3> X;
    for (int i = 0; i < 3; ++i) X.col(i) << p[i] % 4 * 0.7 - 1, p[i] / 4 * 1.3 + 0.2;
    if (std::abs(cross(X.col(1) - X.col(0), X.col(2) - X.col(0))) < 1e-9) continue;
    for (int sc = 0; sc < 3; ++sc) {
      const Eigen::Matrix<double, 2, 3> Y = X * (sc == 0 ? 1. : sc == 1 ? 1e-4 : 1e3);
      Spec s;
      s.name = "t";
      for (int i = 0; i < 3; ++i) s.pts.push_back(Y.col(i));
      s.cells.push_back({{0, 1, 2}, kNone});
      std::ostringstream o;
      o << "triangle " << p[0] << " " << p[1] << " " << p[2] << " scale " << sc;
      mc::current(o.str());
      if (mc::outcome(o.str())) mc::states();
      mc::transitions();
      auto m = buildMesh(s);
      const Entity& c = **m->Entities(0).begin();
      auto n = st::mesh::computeOutwardNormals(c), t = st::mesh::computeTangentials(c);
      for (int e = 0; e < 3; ++e) {
        MC_CHECK((n.col(e) - outNormal(c, e)).norm() < 1e-10, "normal", o.str() << " edge " << e);
        MC_CHECK((t.col(e) - tang(c, e)).norm() < 1e-10, "tangential", o.str() << " edge " << e);
      }
    }
  }
}
// ---- 3. systems
using Field = std::function<Vec2(const Vec2&)>;
// independent model of the penalty method: unknowns (nodal potentials, edge multipliers)
struct Model {
  Mat K;  // potentials to tangential jumps, weighted normal equations
  Vec b;
};
lf::assemble::UniformFEDofHandler handler(const std::shared_ptr<const Mesh>& m) { return {m, {{RefEl::kPoint(), 1}, {RefEl::kSegment(), 1}, {RefEl::kTria(), 0}, {RefEl::kQuad(), 0}}}; }

void systems(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const idx nn = m->NumEntities(2), ne = m->NumEntities(1);
  auto cnt = mu::CountNumSuperEntities(m, 1, 1);
  std::vector<bool> be(ne), bn(nn);
  for (const Entity* e : m->Entities(1))
    if ((be[m->Index(*e)] = cnt(*e) == 1))
      for (const Entity* n : e->SubEntities(1)) bn[m->Index(*n)] = true;
  // a single closed boundary curve?
  bool simple = true;
  {
    std::vector<std::vector<idx>> adj(nn);
    idx nb = 0;
    for (const Entity* e : m->Entities(1))
      if (be[m->Index(*e)]) {
        const idx a = m->Index(*e->SubEntities(1)[0]), b = m->Index(*e->SubEntities(1)[1]);
        adj[a].push_back(b), adj[b].push_back(a);
        ++nb;
      }
    idx start = 0, len = 0;
    while (!bn[start]) ++start;
    idx prev = start, cur = start;
    for (auto& a : adj) simple = simple && (a.empty() || a.size() == 2);
    if (simple) {
      do {
        const idx nx = adj[cur][0] == prev && len > 0 ? adj[cur][1] : adj[cur][0];
        prev = cur, cur = nx;
        ++len;
      } while (cur != start && len <= nb);
      simple = len == nb;
    }
  }
  const lf::assemble::UniformFEDofHandler d = handler(m);
  const std::vector<std::pair<std::string, Field>> forces{{"0", [](const Vec2&) -> Vec2 { return Vec2::Zero(); }}, {"const", [](const Vec2&) -> Vec2 { return {1.5, -0.5}; }}, {"lin", [](const Vec2& x) -> Vec2 { return {1 + x[1], x[0] - 2 * x[1]}; }}};
  auto data = [](int kind, const Entity& e) -> Vec2 {
    const Vec2 x = (corner(e, 0) + corner(e, 1)) / 2;
    return kind == 0 ? Vec2(0, 0) : kind == 1 ? Vec2(1, -2) : Vec2(-x[1], x[0]) + Vec2(0.5, 0);  // constant, rigid rotation: no net flow
  };
  auto bflag = mu::flagEntitiesOnBoundary(m);
  for (const Entity* e : m->Entities(1)) MC_CHECK(bflag(*e) == be[m->Index(*e)], "boundary", tag0);
  for (double sigma : {1., 10., 0.25})
    for (int mod = 0; mod < 2; ++mod) {
      // element matrices
      const st::assemble::PiecewiseConstElementMatrixProvider mp(sigma, bflag, mod);
      Mat A = Mat::Zero(nn + ne, nn + ne);
      for (const Entity* c : m->Entities(0)) {
        const std::string tag = tag0 + " cell " + std::to_string(m->Index(*c)) + " sigma " + std::to_string(sigma) + (mod ? " modified" : "");
        mc::current(tag);
        if (mc::outcome(tag)) mc::states();
        mc::transitions();
        Mat w = Mat::Zero(6, 6);
        for (int e = 0; e < 3; ++e) {
          const Entity& ed = *c->SubEntities(1)[e];
          for (int i = 0; i < 3; ++i) w(3 + e, i) = w(i, 3 + e) = curlHat(*c, i).dot(tang(*c, e));
          w(3 + e, 3 + e) = -1 / sigma / (mod ? len(ed) : 1) / (be[m->Index(ed)] ? 1 : 2);
        }
        const Mat got = mp.Eval(*c);
        MC_CHECK(mp.isActive(*c) && got.rows() == 6 && got.cols() == 6 && (got - w).cwiseAbs().maxCoeff() < 1e-9 * (1 + w.cwiseAbs().maxCoeff()), "element-matrix", tag << " got\n" << got << "\nwant\n" << w);
        for (int i = 0; i < 6; ++i)
          for (int j = 0; j < 6; ++j) {
            auto gi = [&](int k) { return k < 3 ? m->Index(*c->SubEntities(2)[k]) : nn + m->Index(*c->SubEntities(1)[k - 3]); };
            A(gi(i), gi(j)) += w(i, j);
          }
      }
      for (auto& [fn, f] : forces)
        for (int kind = 0; kind < 3; ++kind)
          for (int qr = 0; qr < 2; ++qr) {
            const auto quad = qr ? lf::quad::make_QuadRule(RefEl::kTria(), 3) : lf::quad::make_TriaQR_MidpointRule();
            std::ostringstream o;
            o << tag0 << " f=" << fn << " data " << kind << " sigma " << sigma << (mod ? " modified" : "") << " rule " << qr;
            const std::string tag = o.str();
            mc::current(tag);
            if (mc::outcome(tag)) mc::states();
            mc::transitions();
            auto dir = [&](const Entity& e) -> Vec2 { return data(kind, e); };
            mu::CodimMeshDataSet<Vec2> dds(m, 1);
            for (const Entity* e : m->Entities(1)) dds(*e) = dir(*e);
            const st::assemble::PiecewiseConstElementVectorProvider vp(sigma, f, quad, bflag, dds);
            Vec b = Vec::Zero(nn + ne);
            for (const Entity* c : m->Entities(0)) {
              const Vec2 mid = (corner(*c, 0) + corner(*c, 1) + corner(*c, 2)) / 3;
              Vec w = Vec::Zero(6);  // f is affine: one-point rule is exact
              for (int i = 0; i < 3; ++i) w[i] = area(*c) * f(mid).dot(curlHat(*c, i));
              for (int e = 0; e < 3; ++e) {
                const Entity& ed = *c->SubEntities(1)[e];
                if (be[m->Index(ed)]) w[3 + e] = dir(ed).dot(tang(*c, e));
              }
              const Vec got = vp.Eval(*c);
              MC_CHECK(vp.isActive(*c) && got.size() == 6 && (got - w).cwiseAbs().maxCoeff() < 1e-9 * (1 + w.cwiseAbs().maxCoeff()), "element-vector", tag << " cell " << m->Index(*c));
              for (int i = 0; i < 3; ++i) b[m->Index(*c->SubEntities(2)[i])] += w[i], b[nn + m->Index(*c->SubEntities(1)[i])] += w[3 + i];
            }
            // boundary potentials u_b given: solve the remaining equations
            auto reference = [&](const Vec& ub) {
              Mat K = A;
              Vec r = b - A.leftCols(nn) * ub;
              for (idx i = 0; i < nn; ++i)
                if (bn[i]) {
                  K.row(i).setZero();
                  K.col(i).setZero();
                  K(i, i) = 1;
                  r[i] = 0;
                }
              Vec x = K.fullPivLu().solve(r);
              x.head(nn) += ub;
              return x;
            };
            const Vec w0 = reference(Vec::Zero(nn));
            auto [C0, r0] = st::assemble::buildSystemMatrixNoFlow(m, d, f, dir, sigma, quad, mod);
            const Vec x0 = C0.makeDense().fullPivLu().solve(r0);
            MC_CHECK(x0.size() == nn + ne && (x0 - w0).cwiseAbs().maxCoeff() < 1e-8 * (1 + w0.cwiseAbs().maxCoeff()), "no-flow", tag << " got " << x0.transpose() << " want " << w0.transpose());
            mc::traces();
            if (!simple) continue;
            auto [C1, r1, off] = st::assemble::buildSystemMatrixInOutFlow(m, d, f, dir, sigma, quad, mod);
            MC_CHECK(off.size() == nn + ne, "offset-size", tag);
            // offset: lives on the boundary, zero sum, normal velocity on boundary edges as prescribed, jumps as edge unknowns
            double sum = 0;
            for (idx i = 0; i < nn; ++i) {
              if (!bn[i]) MC_CHECK(off[i] == 0, "offset-interior", tag << " node " << i);
              sum += off[i];
            }
            MC_CHECK(std::abs(sum) < 1e-9, "offset-mean", tag << " sum " << sum);
            for (const Entity* c : m->Entities(0))
              for (int e = 0; e < 3; ++e) {
                const Entity& ed = *c->SubEntities(1)[e];
                if (!be[m->Index(ed)]) continue;
                Vec2 v(0, 0);
                for (int i = 0; i < 3; ++i) v += off[m->Index(*c->SubEntities(2)[i])] * curlHat(*c, i);
                MC_CHECK(std::abs((v - dir(ed)).dot(outNormal(*c, e))) < 1e-8, "offset-flow", tag << " edge " << m->Index(ed) << " normal flow " << v.dot(outNormal(*c, e)) << " want " << dir(ed).dot(outNormal(*c, e)));
              }
            const Vec jump = A.block(nn, 0, ne, nn) * off.head(nn);
            MC_CHECK((off.tail(ne) - jump).cwiseAbs().maxCoeff() < 1e-8 * (1 + jump.cwiseAbs().maxCoeff()), "offset-jumps", tag);
            const Vec w1 = reference(off.head(nn));
            Vec x1 = C1.makeDense().fullPivLu().solve(r1);
            x1.head(nn) += off.head(nn);
            MC_CHECK((x1 - w1).cwiseAbs().maxCoeff() < 1e-8 * (1 + w1.cwiseAbs().maxCoeff()), "in-out-flow", tag << " got " << x1.transpose() << " want " << w1.transpose());
            auto vel = st::post_processing::extractVelocity(m, d, x1);
            auto pot = st::post_processing::extractBasisFunctionCoefficients(m, d, x1);
            for (const Entity* n : m->Entities(2)) MC_CHECK(pot(*n) == x1[m->Index(*n)], "coefficients", tag);
            if (kind == 1 && fn == "0")  // constant flow is reproduced exactly
              for (const Entity* c : m->Entities(0)) MC_CHECK((vel(*c) - Vec2(1, -2)).norm() < 1e-7, "constant-flow", tag << " cell " << m->Index(*c) << " velocity " << vel(*c).transpose());
          }
    }
}
// ---- 4. velocities and norms
// vector field that is affine on each cell
struct CellAffine {
  const Mesh* m;
  int k;
  double s = 1;
  Vec2 val(const Entity& c, const Vec2& x) const {
    const double i = m->Index(c) + 1;
    return s * (k == 0 ? Vec2(1, -2) : k == 1 ? Vec2(1 + 2 * x[0] - x[1], x[0]) : k == 2 ? Vec2(i, 1. / i) : Vec2(i + x[0] * i, x[1] - i * x[0]));
  }
  Eigen::Matrix2d grad(const Entity& c) const {
    const double i = m->Index(c) + 1;
    Eigen::Matrix2d g = Eigen::Matrix2d::Zero();
    if (k == 1) g << 2, -1, 1, 0;
    if (k == 3) g << i, 0, -i, 1;
    return s * g;
  }
  std::vector<Vec2> operator()(const Entity& e, const Mat& loc) const {
    const Mat X = e.Geometry()->Global(loc);
    std::vector<Vec2> r;
    for (long i = 0; i < X.cols(); ++i) r.push_back(val(e, X.col(i)));
    return r;
  }
};
struct CellGrad {
  CellAffine f;
  std::vector<Eigen::Matrix2d> operator()(const Entity& e, const Mat& loc) const { return std::vector<Eigen::Matrix2d>(loc.cols(), f.grad(e)); }
};
void post(const std::shared_ptr<const Mesh>& m, const std::string& tag0) {
  const idx nn = m->NumEntities(2), ne = m->NumEntities(1);
  const lf::assemble::UniformFEDofHandler d = handler(m);
  auto fes = std::make_shared<const lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
  // all unit vectors of the solution space and one dense vector
  for (idx u = 0; u <= nn + ne; ++u) {
    Vec x = u < nn + ne ? Vec(Vec::Unit(nn + ne, u)) : Vec(nn + ne);
    if (u == nn + ne)
      for (idx i = 0; i < nn + ne; ++i) x[i] = std::sin(1. + 2 * i);
    const std::string tag = tag0 + " velocity of vector " + std::to_string(u);
    mc::current(tag);
    if (mc::outcome(tag)) mc::states();
    mc::transitions();
    auto vel = st::post_processing::extractVelocity(m, d, x);
    auto pot = st::post_processing::extractBasisFunctionCoefficients(m, d, x);
    Vec xn = x.head(nn);
    st::post_processing::MeshFunctionVelocity<double, double> mf(fes, xn);
    for (const Entity* n : m->Entities(2)) MC_CHECK(pot(*n) == x[m->Index(*n)], "coefficients", tag);
    for (const Entity* c : m->Entities(0)) {
      Vec2 w(0, 0);
      for (int i = 0; i < 3; ++i) w += x[m->Index(*c->SubEntities(2)[i])] * curlHat(*c, i);
      MC_CHECK((vel(*c) - w).norm() < 1e-10 * (1 + w.norm()), "velocity", tag << " cell " << m->Index(*c));
      for (int n = 1; n <= 3; ++n) {
        const Mat P = pts(RefEl::kTria(), n);
        auto v = mf(*c, P);
        MC_CHECK((long)v.size() == P.cols(), "velocity-mf-size", tag);
        for (auto& y : v) MC_CHECK((y - w).norm() < 1e-10 * (1 + w.norm()), "velocity-mf", tag << " cell " << m->Index(*c));
      }
    }
  }
  auto cnt = mu::CountNumSuperEntities(m, 1, 1);
  Vec g, gw;
  gauss(4, g, gw);
  for (int k = 0; k < 4; ++k)
    for (double s : {1., 0., -3.}) {
      const CellAffine f{m.get(), k, s};
      double l2 = 0, dg = 0;
      const RefQuad q = refQuad(RefEl::kTria(), 4);
      std::vector<std::vector<std::pair<const Entity*, int>>> at(ne);
      for (const Entity* c : m->Entities(0)) {
        for (long i = 0; i < q.w.size(); ++i) {
          const Vec2 x = corner(*c, 0) + q.x(0, i) * (corner(*c, 1) - corner(*c, 0)) + q.x(1, i) * (corner(*c, 2) - corner(*c, 0));
          l2 += 2 * area(*c) * q.w[i] * f.val(*c, x).squaredNorm();
        }
        dg += area(*c) * f.grad(*c).squaredNorm();
        for (int e = 0; e < 3; ++e) at[m->Index(*c->SubEntities(1)[e])].push_back({c, e});
      }
      for (const Entity* e : m->Entities(1)) {
        auto& a = at[m->Index(*e)];
        if (a.size() != 2) continue;
        for (int i = 0; i < 4; ++i) {
          const Vec2 x = corner(*e, 0) + g[i] * (corner(*e, 1) - corner(*e, 0));
          Eigen::Matrix2d j = f.val(*a[0].first, x) * outNormal(*a[0].first, a[0].second).transpose() + f.val(*a[1].first, x) * outNormal(*a[1].first, a[1].second).transpose();
          dg += gw[i] * j.squaredNorm();
        }
      }
      for (unsigned deg = 0; deg <= 7; ++deg) {
        const std::string tag = tag0 + " norm of field " + std::to_string(k) + " scaled " + std::to_string(s) + " rule of degree " + std::to_string(deg);
        // the integrands are quadratic polynomials (constant for fields 0 and 2)
        if (deg < 2 && (k == 1 || k == 3)) continue;
        mc::current(tag);
        if (mc::outcome(tag)) mc::states();
        mc::transitions();
        // 6 and 7: rules on the edges whose points are not placed symmetrically
        auto qs = [deg](const Entity& e) {
          if (deg < 6 || e.RefEl() != RefEl::kSegment()) return lf::quad::make_QuadRule(e.RefEl(), deg);
          Mat p(1, 2);
          p << 1. / 3, 1;
          Vec w(2);
          w << .75, .25;
          if (deg == 7) p = 1 - p.array();
          return lf::quad::QuadRule(RefEl::kSegment(), p, w, 2);
        };
        const double a = st::post_processing::L2norm(m, f, qs);
        MC_CHECK(std::abs(a - std::sqrt(l2)) < 1e-9 * (1 + a), "l2-norm", tag << " got " << a << " want " << std::sqrt(l2));
        const double b = st::post_processing::DGnorm(m, f, CellGrad{f}, qs);
        MC_CHECK(std::abs(b - std::sqrt(dg)) < 1e-9 * (1 + b), "dg-norm", tag << " got " << b << " want " << std::sqrt(dg));
      }
    }
}
constexpr int NA = 24, NN = 4;
long count() {
  auto add = [](const Spec& s) {
    bool ok = s.dim == 2;
    for (auto& c : s.cells) ok = ok && c.n.size() == 3;
    if (ok) M.push_back(s);
  };
  for (auto& d : largeDims(mc::thorough ? 160 : 80))
    if (d.kind == 0 || d.kind == 3)
      for (int v : {0, 1, 3, 7, 9, 10}) add(large(d.nx, d.ny, d.kind, v));
  for (auto& s : meshes(mc::thorough, {kO1})) add(s);
  // a patch with interior nodes: 3x3 grid of squares cut into triangles in both directions, renumbered
  for (int n = 2; n <= 3; ++n)
    for (int cut = 0; cut < 2; ++cut) {
      Spec s;
      s.name = "grid" + std::to_string(n) + (cut ? "b" : "a");
      for (int j = 0; j <= n; ++j)
        for (int i = 0; i <= n; ++i) s.pts.push_back({i + 0.1 * ((i * 2 + j) % 3), j * 0.9 + 0.07 * ((i + 2 * j) % 3)});
      for (int j = 0; j < n; ++j)
        for (int i = 0; i < n; ++i) {
          const idx a = j * (n + 1) + i, b = a + 1, c = a + n + 2, d = a + n + 1;
          if ((i + j + cut) % 2) s.cells.push_back({{a, b, c}, kO1}), s.cells.push_back({{c, d, a}, kO1});
          else s.cells.push_back({{b, a, d}, kO1}), s.cells.push_back({{d, c, b}, kO1});
        }
      auto ps = perms(s.pts.size(), 0);
      for (size_t k = 0; k < ps.size(); k += mc::thorough ? 1 : n == 2 ? 5 : 24) {
        Spec r = permuteNodes(s, ps[k]);
        r.name += "~" + std::to_string(k);
        add(r);
      }
    }
  return NA + NN + M.size();
}
void item(long it) {
  if (it < NA) return annulus(it);
  if (it < NA + NN) return normals(it - NA);
  const Spec& s = M[it - NA - NN];
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  systems(m, s.str());
  post(m, s.str());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
