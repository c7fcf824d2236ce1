// I04: VTK output: cells, points and data sets in the file are those of the
// mesh and of the functions written, for every mesh, order, codimension, format
// and every sequence of calls.
#include "fe.h"
#include "vtk.h"
using namespace fh;
namespace {
std::vector<Spec> M;
struct Tmp {
  std::string n;
  void set() { n = "vt_" + std::to_string(getpid()) + ".vtk"; }
} F;
using lf::mesh::utils::MeshFunctionGlobal;
using V3 = Eigen::Vector3d;
V3 pad(const Vec& x) {
  V3 r = V3::Zero();
  r.head(x.size()) = x;
  return r;
}
// tolerances: 32 bit in binary files, three decimals in text files
bool near(double got, double want, bool bin, bool exact) {
  if (exact) return got == want;
  return std::abs(got - want) <= (bin ? 2e-6 : 6e-4) * (1 + std::abs(want));
}
double fv(const Vec& x) { return 3 + 2 * x[0] - 1.5 * x[1] + 0.7 * x[0] * x[1] + (x.size() > 2 ? 0.9 * x[2] : 0); }
Eigen::Vector2d fv2(const Vec& x) { return {x[0] * x[1] - 2, 1 + x[1]}; }
V3 fv3(const Vec& x) { return {x[1], 2 - x[0], x[0] * x[0]}; }
void compare(const std::string& tag, const std::string& key, const vk::Arr& a, const std::string& kind, const std::string& name, const std::string& type, const std::vector<double>& want, bool bin) {
  MC_CHECK(a.kind == kind && a.name == name && a.type == type, key, tag << ": found " << a.kind << " " << a.name << " " << a.type << ", written " << kind << " " << name << " " << type);
  MC_CHECK(a.v.size() == want.size(), key, tag << " " << name << ": " << a.v.size() << " values instead of " << want.size());
  if (a.v.size() != want.size()) return;
  const bool exact = type != "float" && (type != "double" || bin);
  for (size_t i = 0; i < want.size(); ++i)
    MC_CHECK(exact && type == "double" ? std::abs(a.v[i] - want[i]) <= 1e-12 * (1 + std::abs(want[i])) : near(a.v[i], want[i], bin, exact), key,
             tag << " " << name << " value " << i << " is " << a.v[i] << ", want " << want[i]);
}
// geometry of the file; returns for each point of the file its position
bool grid(const std::string& tag, const vk::File& f, const Mesh& m, int codim, int order, bool bin) {
  MC_CHECK(f.err.empty(), "syntax", tag << ": " << f.err);
  if (!f.err.empty()) return false;
  MC_CHECK(f.binary == bin, "format", tag);
  const long nn = m.NumEntities(2);
  long np = nn;
  if (order > 1) {
    np += (long)m.NumEntities(1) * (order - 1);
    if (codim == 0) np += (long)m.NumEntities(RefEl::kTria()) * (order - 1) * (order - 2) / 2 + (long)m.NumEntities(RefEl::kQuad()) * (order - 1) * (order - 1);
  }
  MC_CHECK((long)f.pts.size() == np, "num-points", tag << " got " << f.pts.size() << " want " << np);
  MC_CHECK(f.cells.size() == m.NumEntities(codim) && f.types.size() == m.NumEntities(codim), "num-cells", tag);
  if ((long)f.pts.size() != np || f.cells.size() != m.NumEntities(codim) || f.types.size() != f.cells.size()) return false;
  bool ok = true;
  auto at = [&](long i, const Vec& x) {
    const V3 w = pad(x);
    for (int k = 0; k < 3; ++k)
      if (!near(f.pts[i][k], w[k], bin, false)) return false;
    return true;
  };
  for (const Entity* n : m.Entities(2)) MC_CHECK(at(m.Index(*n), n->Geometry()->Global(Mat(0, 1))), "node", tag << " node " << m.Index(*n) << " at " << f.pts[m.Index(*n)].transpose());
  std::vector<int> used(np, 0);
  for (const Entity* e : m.Entities(codim)) {
    const long c = m.Index(*e);
    const int nv = e->RefEl().NumNodes();
    const int t1[] = {0, 0, 3, 5, 9}, t2[] = {0, 0, 68, 69, 70};
    MC_CHECK(f.types[c] == (order == 1 ? t1 : t2)[nv], "cell-type", tag << " cell " << c << " type " << f.types[c]);
    const vk::L l = nv == 2 ? vk::curve(order) : nv == 3 ? vk::tria(order) : vk::quad(order);
    MC_CHECK(f.cells[c].size() == l.size(), "cell-size", tag << " cell " << c << " has " << f.cells[c].size() << " points");
    if (f.cells[c].size() != l.size()) {
      ok = false;
      continue;
    }
    Mat x(e->RefEl().Dimension(), l.size());
    for (size_t i = 0; i < l.size(); ++i) {
      x(0, i) = l[i].first / (double)order;
      if (nv > 2) x(1, i) = l[i].second / (double)order;
    }
    const Mat X = e->Geometry()->Global(x);
    std::set<long> seen;
    for (size_t i = 0; i < l.size(); ++i) {
      const long k = f.cells[c][i];
      MC_CHECK(k >= 0 && k < np && seen.insert(k).second, "cell-point", tag << " cell " << c << " point " << i << " is number " << k);
      if (k < 0 || k >= np) {
        ok = false;
        continue;
      }
      ++used[k];
      if (i < (size_t)nv) MC_CHECK(k == (long)m.Index(*e->SubEntities(2 - codim)[i]), "corner", tag << " cell " << c << " corner " << i);
      MC_CHECK(at(k, X.col(i)), "position", tag << " cell " << c << " point " << i << " at " << f.pts[k].transpose() << " want " << X.col(i).transpose());
    }
  }
  for (long k = nn; k < np; ++k) MC_CHECK(used[k] > 0, "unused-point", tag << " point " << k);
  return ok;
}
// expected values of a function at all points of the file, found by the cells
template <class FU>
std::vector<double> atPoints(const vk::File& f, const Mesh& m, int codim, int order, int comp, FU fu) {
  std::vector<double> r(f.pts.size() * comp, 0);
  auto put = [&](long k, const Vec& x) {
    const auto v = fu(x);
    for (int i = 0; i < comp; ++i) r[k * comp + i] = v[i];
  };
  for (const Entity* n : m.Entities(2)) put(m.Index(*n), n->Geometry()->Global(Mat(0, 1)));
  for (const Entity* e : m.Entities(codim)) {
    const int nv = e->RefEl().NumNodes();
    const vk::L l = nv == 2 ? vk::curve(order) : nv == 3 ? vk::tria(order) : vk::quad(order);
    for (size_t i = nv; i < l.size(); ++i) {
      Mat x(e->RefEl().Dimension(), 1);
      x(0, 0) = l[i].first / (double)order;
      if (nv > 2) x(1, 0) = l[i].second / (double)order;
      put(f.cells[m.Index(*e)][i], e->Geometry()->Global(x));
    }
  }
  return r;
}
template <class FU>
std::vector<double> atCells(const Mesh& m, int codim, int comp, FU fu) {
  std::vector<double> r(m.NumEntities(codim) * comp, 0);
  for (const Entity* e : m.Entities(codim)) {
    const Mat rc = e->RefEl().NodeCoords();
    const Mat b = rc.rowwise().mean();
    const auto v = fu(Vec(e->Geometry()->Global(b)));
    for (int i = 0; i < comp; ++i) r[m.Index(*e) * comp + i] = v[i];
  }
  return r;
}
// ---- A: meshes x codimension x order x format
void shapes(const Spec& s) {
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  const bool huge = m->NumEntities(0) > 10000;
  for (int codim = 0; codim <= 1; ++codim)
    for (int order = 1; order <= (huge ? 1 : m->NumEntities(0) > 200 ? 2 : m->NumEntities(0) > 60 ? 4 : 10); ++order)
      for (int bin = 0; bin <= 1; ++bin) {
        const std::string tag = s.str() + " codim " + std::to_string(codim) + " order " + std::to_string(order) + (bin ? " binary" : " text");
        mc::current(tag);
        {
          lf::io::VtkWriter w(m, F.n, codim, order);
          w.setBinary(bin);
          w.WritePointData("pf", MeshFunctionGlobal([](const Vec& x) { return fv(x); }));
          w.WriteCellData("cf", MeshFunctionGlobal([](const Vec& x) { return fv(x); }));
          w.WritePointData("pv", MeshFunctionGlobal([](const Vec& x) { return fv2(x); }));
          w.WriteCellData("cv", MeshFunctionGlobal([](const Vec& x) { return fv3(x); }));
          w.WritePointData("pi", MeshFunctionGlobal([](const Vec& x) { return (int)std::floor(10 * fv(x) + 0.4567); }));
        }
        if (mc::outcome(tag)) mc::states();
        mc::transitions();
        const auto f = vk::read(F.n);
        if (!grid(tag, f, *m, codim, order, bin)) continue;
        mc::traces();
        MC_CHECK(f.field.empty() && f.point.size() == 3 && f.cell.size() == 2, "num-data", tag);
        if (f.point.size() != 3 || f.cell.size() != 2) continue;
        auto d1 = [](const Vec& x) { return std::array<double, 1>{fv(x)}; };
        auto d2 = [](const Vec& x) { return pad(fv2(x)); };
        auto di = [](const Vec& x) { return std::array<double, 1>{std::floor(10 * fv(x) + 0.4567)}; };
        compare(tag, "point-scalar", f.point[0], "SCALARS", "pf", "double", atPoints(f, *m, codim, order, 1, d1), bin);
        compare(tag, "point-vector", f.point[1], "VECTORS", "pv", "double", atPoints(f, *m, codim, order, 3, d2), bin);
        // integer valued function: compare with a tolerance of one step at
        // points computed in a different order of operations
        const auto wi = atPoints(f, *m, codim, order, 1, di);
        MC_CHECK(f.point[2].kind == "SCALARS" && f.point[2].type == "int" && f.point[2].v.size() == wi.size(), "point-int", tag);
        for (size_t i = 0; i < std::min(wi.size(), f.point[2].v.size()); ++i) MC_CHECK(std::abs(f.point[2].v[i] - wi[i]) <= 1, "point-int", tag << " point " << i);
        compare(tag, "cell-scalar", f.cell[0], "SCALARS", "cf", "double", atCells(*m, codim, 1, d1), bin);
        compare(tag, "cell-vector", f.cell[1], "VECTORS", "cv", "double", atCells(*m, codim, 3, fv3), bin);
      }
}
// ---- B: sequences of calls
// a data set that is defined on some entities only
template <class T>
struct Part : lf::mesh::utils::MeshDataSet<T> {
  const Mesh* m;
  int codim;
  unsigned mask;
  std::function<T(long)> fu;
  mutable T cur;
  const T& operator()(const Entity& e) const override { return cur = fu(m->Index(e)); }
  bool DefinedOn(const Entity& e) const override { return (int)e.Codim() == codim && (mask >> m->Index(e) & 1); }
};
struct Want {
  std::string kind, name, type;
  std::vector<double> v;
};
struct Model {
  bool bin = false;
  std::vector<Want> field, point, cell;
};
struct Ctx {
  std::shared_ptr<const Mesh> m;
  int codim;
  lf::io::VtkWriter* w;
  Model* mod;
  std::string name;
  unsigned mask;
  std::string tag;
};
bool bad(const std::vector<Want>& l, const std::string& n) {
  if (n.find(' ') != std::string::npos) return true;
  for (auto& x : l)
    if (x.name == n) return true;
  return false;
}
template <class CALL>
void attempt(const Ctx& c, bool expectThrow, CALL call) {
  bool thrown = false;
  try {
    call();
  } catch (const lf::base::LfException&) {
    thrown = true;
  }
  MC_CHECK(thrown == expectThrow, "name-check", c.tag << ": name '" << c.name << "' " << (thrown ? "rejected" : "accepted"));
}
template <class T>
std::vector<double> comps(const T& v) {
  if constexpr (std::is_arithmetic_v<T>)
    return {(double)v};
  else {
    std::vector<double> r(3, 0.);
    for (int i = 0; i < std::min<int>(3, v.size()); ++i) r[i] = v[i];
    return r;
  }
}
template <class T>
void dataset(const Ctx& c, bool cellData, const std::string& type, bool vec, std::function<T(long)> fu, T undef) {
  const int cd = cellData ? c.codim : 2;
  Part<T> d;
  d.m = c.m.get();
  d.codim = cd;
  d.mask = c.mask;
  d.fu = fu;
  auto& l = cellData ? c.mod->cell : c.mod->point;
  const bool no = bad(l, c.name);
  attempt(c, no, [&] {
    if (cellData)
      c.w->WriteCellData(c.name, d, undef);
    else
      c.w->WritePointData(c.name, d, undef);
  });
  if (no) return;
  Want w{vec ? "VECTORS" : "SCALARS", c.name, type, {}};
  for (long i = 0; i < (long)c.m->NumEntities(cd); ++i)
    for (double x : comps<T>(c.mask >> i & 1 ? fu(i) : undef)) w.v.push_back(x);
  l.push_back(w);
}
template <class T>
void meshfun(const Ctx& c, bool cellData, const std::string& type, bool vec, std::function<T(const Vec&)> fu) {
  auto& l = cellData ? c.mod->cell : c.mod->point;
  const bool no = bad(l, c.name);
  MeshFunctionGlobal mf(fu);
  attempt(c, no, [&] {
    if (cellData)
      c.w->WriteCellData(c.name, mf);
    else
      c.w->WritePointData(c.name, mf);
  });
  if (no) return;
  Want w{vec ? "VECTORS" : "SCALARS", c.name, type, {}};
  const int cd = cellData ? c.codim : 2;
  for (long i = 0; i < (long)c.m->NumEntities(cd); ++i) {
    const Entity* e = c.m->EntityByIndex(cd, i);
    const Mat rc = e->RefEl().NodeCoords();
    for (double x : comps<T>(fu(Vec(e->Geometry()->Global(cd == 2 ? Mat(0, 1) : Mat(rc.rowwise().mean())))))) w.v.push_back(x);
  }
  l.push_back(w);
}
template <class T>
void global(const Ctx& c, const std::string& type, std::vector<T> d) {
  const bool no = bad(c.mod->field, c.name);
  attempt(c, no, [&] { c.w->WriteGlobalData(c.name, d); });
  if (!no) c.mod->field.push_back({"FIELD", c.name, type, std::vector<double>(d.begin(), d.end())});
}
using Op = std::function<void(const Ctx&)>;
std::vector<std::pair<std::string, Op>> ops() {
  std::vector<std::pair<std::string, Op>> r;
  for (int cell = 0; cell <= 1; ++cell) {
    const bool cd = cell;
    const std::string p = cell ? "cell-" : "point-";
    r.push_back({p + "uchar", [cd](const Ctx& c) { dataset<unsigned char>(c, cd, "unsigned_char", false, [](long i) -> unsigned char { return 255 - 60 * i; }, (unsigned char)199); }});
    r.push_back({p + "char", [cd](const Ctx& c) { dataset<char>(c, cd, "char", false, [](long i) -> char { return (char)(-128 + 63 * i); }, (char)-1); }});
    r.push_back({p + "uint", [cd](const Ctx& c) { dataset<unsigned>(c, cd, "unsigned_int", false, [](long i) -> unsigned { return 4294967295u - 1717986918u * i; }, 3000000000u); }});
    r.push_back({p + "int", [cd](const Ctx& c) { dataset<int>(c, cd, "int", false, [](long i) -> int { return i % 2 ? -2147483647 - 1 + (int)i - 1 : 2147483647 - 256 * (int)i; }, -77777); }});
    r.push_back({p + "float", [cd](const Ctx& c) { dataset<float>(c, cd, "float", false, [](long i) -> float { return i % 3 == 0 ? 1e-7f * (i + 1) : i % 3 == 1 ? -123.25f : 3.5e12f; }, -0.5f); }});
    r.push_back({p + "double", [cd](const Ctx& c) { dataset<double>(c, cd, "double", false, [](long i) -> double { return i % 3 == 0 ? -1. / 3 : i % 3 == 1 ? 98765.4321 : 2.5e-200; }, 1e300); }});
    r.push_back({p + "v2d", [cd](const Ctx& c) { dataset<Eigen::Vector2d>(c, cd, "double", true, [](long i) -> Eigen::Vector2d { return {i + 0.25, -i}; }, Eigen::Vector2d(7, 8)); }});
    r.push_back({p + "v2f", [cd](const Ctx& c) { dataset<Eigen::Vector2f>(c, cd, "float", true, [](long i) -> Eigen::Vector2f { return {i + 0.25f, -2.f * i}; }, Eigen::Vector2f(7, 8)); }});
    r.push_back({p + "v3d", [cd](const Ctx& c) { dataset<Eigen::Vector3d>(c, cd, "double", true, [](long i) -> Eigen::Vector3d { return {i + 0.25, -i, 1. / (1 + i)}; }, Eigen::Vector3d(7, 8, 9)); }});
    r.push_back({p + "v3f", [cd](const Ctx& c) { dataset<Eigen::Vector3f>(c, cd, "float", true, [](long i) -> Eigen::Vector3f { return {i + 0.25f, -2.f * i, 5.f}; }, Eigen::Vector3f(7, 8, 9)); }});
    r.push_back({p + "vXd", [cd](const Ctx& c) { dataset<Vec>(c, cd, "double", true, [](long i) -> Vec { return i % 2 ? Vec(Eigen::Vector2d(i, 2)) : Vec(Eigen::Vector3d(i, 3, 4)); }, Vec(Eigen::Vector2d(7, 8))); }});
    r.push_back({p + "vXf", [cd](const Ctx& c) { dataset<Eigen::VectorXf>(c, cd, "float", true, [](long i) -> Eigen::VectorXf { return i % 2 ? Eigen::VectorXf(Eigen::Vector2f(i, 2)) : Eigen::VectorXf(Eigen::Vector3f(i, 3, 4)); }, Eigen::VectorXf(Eigen::Vector3f(7, 8, 9))); }});
    r.push_back({p + "mf-uchar", [cd](const Ctx& c) { meshfun<unsigned char>(c, cd, "unsigned_char", false, [](const Vec& x) -> unsigned char { return (unsigned char)(150 + 30 * x[0]); }); }});
    r.push_back({p + "mf-char", [cd](const Ctx& c) { meshfun<char>(c, cd, "char", false, [](const Vec& x) -> char { return (char)(-50 + 30 * x[1]); }); }});
    r.push_back({p + "mf-uint", [cd](const Ctx& c) { meshfun<unsigned>(c, cd, "unsigned_int", false, [](const Vec& x) -> unsigned { return 4000000000u + (unsigned)(1000 * (x[0] + 1)); }); }});
    r.push_back({p + "mf-int", [cd](const Ctx& c) { meshfun<int>(c, cd, "int", false, [](const Vec& x) -> int { return (int)(-1e6 * x[0]); }); }});
    r.push_back({p + "mf-float", [cd](const Ctx& c) { meshfun<float>(c, cd, "float", false, [](const Vec& x) -> float { return x[0] - x[1]; }); }});
    r.push_back({p + "mf-double", [cd](const Ctx& c) { meshfun<double>(c, cd, "double", false, [](const Vec& x) { return fv(x); }); }});
    r.push_back({p + "mf-v2f", [cd](const Ctx& c) { meshfun<Eigen::Vector2f>(c, cd, "float", true, [](const Vec& x) -> Eigen::Vector2f { return {x[0], x[1]}; }); }});
    r.push_back({p + "mf-v3d", [cd](const Ctx& c) { meshfun<Eigen::Vector3d>(c, cd, "double", true, [](const Vec& x) { return fv3(x); }); }});
    r.push_back({p + "mf-vXd", [cd](const Ctx& c) { meshfun<Vec>(c, cd, "double", true, [](const Vec& x) { return Vec(fv2(x)); }); }});
  }
  r.push_back({"g-int", [](const Ctx& c) { global<int>(c, "int", {-5, 2147483647, 0}); }});
  r.push_back({"g-float", [](const Ctx& c) { global<float>(c, "float", {1.5f, -1e-6f}); }});
  r.push_back({"g-double", [](const Ctx& c) { global<double>(c, "double", {0.125}); }});
  r.push_back({"g-long", [](const Ctx& c) {
                 std::vector<double> v;
                 for (int i = 0; i < 300; ++i) v.push_back(i * i * 0.5 - 1000);
                 global<double>(c, "double", v);
               }});
  r.push_back({"g-empty", [](const Ctx& c) { global<double>(c, "double", {}); }});
  r.push_back({"g-iempty", [](const Ctx& c) { global<int>(c, "int", {}); }});
  r.push_back({"g-fempty", [](const Ctx& c) { global<float>(c, "float", {}); }});
  r.push_back({"binary", [](const Ctx& c) {
                 c.w->setBinary(true);
                 c.mod->bin = true;
               }});
  r.push_back({"text", [](const Ctx& c) {
                 c.w->setBinary(false);
                 c.mod->bin = false;
               }});
  return r;
}
std::vector<std::pair<std::string, Op>> O;
struct Step {
  int op, name;
};
const char* NAMES[] = {"a", "b", "a_long-name.1", "a b"};
void sequence(const Spec& s, const std::shared_ptr<const Mesh>& m, int codim, const std::vector<Step>& st, unsigned mask, bool startBin, bool withOrder = true) {
  std::string tag = s.name + " codim " + std::to_string(codim) + " mask " + std::to_string(mask) + (startBin ? " bin" : " txt");
  for (auto& x : st) tag += " " + O[x.op].first + "(" + NAMES[x.name] + ")";
  mc::current(tag);
  Model mod;
  {
    lf::io::VtkWriter w(m, F.n, codim);
    if (startBin) w.setBinary(mod.bin = true);
    for (auto& x : st) {
      O[x.op].second(Ctx{m, codim, &w, &mod, NAMES[x.name], mask, tag});
      mc::transitions();
    }
  }
  if (mc::outcome(tag)) mc::states();
  mc::traces();
  const auto f = vk::read(F.n);
  if (!grid(tag, f, *m, codim, 1, mod.bin)) return;
  auto cmp = [&](const std::vector<vk::Arr>& a, const std::vector<Want>& w, const std::string& key) {
    MC_CHECK(a.size() == w.size(), key + "-count", tag << " got " << a.size() << " want " << w.size());
    for (size_t i = 0; i < std::min(a.size(), w.size()); ++i) compare(tag, key, a[i], w[i].kind, w[i].name, w[i].type, w[i].v, mod.bin);
  };
  cmp(f.field, mod.field, "field-data");
  cmp(f.point, mod.point, "point-data");
  cmp(f.cell, mod.cell, "cell-data");
}
// items: meshes of part A, then for part B (mesh, codim, first operation)
std::vector<Spec> B;
struct ItemB {
  int mesh, codim, op;
};
std::vector<ItemB> IB;
long count() {
  M = meshes(mc::thorough);
  for (auto& s : largeSpecs(mc::thorough ? 4000 : 1100, mc::thorough ? 4 : 1)) M.push_back(s);
  for (int k = 0; k < 3; ++k) M.push_back(huge(k));
  O = ops();
  auto T = topologies();
  for (auto& t : T)
    if (t.name == "tria" || t.name == "tria+quad") B.push_back(t);
  for (size_t b = 0; b < B.size(); ++b)
    for (int cd = 0; cd <= 1; ++cd)
      for (size_t o = 0; o < O.size(); ++o) IB.push_back({(int)b, cd, (int)o});
  return IB.size() + M.size();
}
void item0(long it) {
  if (it >= (long)IB.size()) return shapes(M[it - IB.size()]);
  const auto& ib = IB[it];
  const Spec& s = B[ib.mesh];
  std::shared_ptr<const Mesh> m = buildMesh(s);
  // single calls: every subset of defined entities, every name, both formats
  const int n = std::max(m->NumEntities(2), m->NumEntities(1));
  for (unsigned mask = 0; mask < (1u << n); ++mask)
    for (int bin = 0; bin <= 1; ++bin) sequence(s, m, ib.codim, {{ib.op, 0}}, mask, bin);
  const unsigned mask = 0x35;
  // pairs of calls x names
  for (size_t o = 0; o < O.size(); ++o)
    for (int n1 = 0; n1 < 4; ++n1)
      for (int n2 = 0; n2 < 4; ++n2)
        for (int bin = 0; bin <= 1; ++bin) sequence(s, m, ib.codim, {{ib.op, n1}, {(int)o, n2}}, mask, bin);
  if (ib.mesh == 0 || mc::thorough)
    for (size_t o = 0; o < O.size(); ++o)
      for (size_t q = 0; q < O.size(); ++q) {
        // third call: new name, name of the first, name of the second
        for (int n3 = 0; n3 <= (mc::thorough ? 3 : 2); ++n3)
          for (int bin = 0; bin <= (mc::thorough ? 1 : 0); ++bin) sequence(s, m, ib.codim, {{ib.op, 0}, {(int)o, 1}, {(int)q, n3}}, mask, bin);
      }
}
void item(long it) {
  F.set();
  item0(it);
  std::remove(F.n.c_str());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
