// I05: MATLAB, matplotlib and TikZ exports describe exactly the given mesh (or
// the selected part of it) and go to the file that was asked for.
#include <dirent.h>
#include <lf/io/io.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

#include "fe.h"
#include "hier.h"
#include <lf/refinement/refutils.h>
using namespace fh;
using hr::MeshHierarchy;
namespace {
std::string D;  // scratch directory of this process
std::set<std::string> files() {
  std::set<std::string> r;
  if (DIR* d = opendir(".")) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") r.insert(n);
    }
    closedir(d);
  }
  return r;
}
void wipe() {
  for (auto& f : files()) std::remove(f.c_str());
}
std::string slurp(const std::string& n) {
  std::ifstream in(n, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(in), {});
}
std::vector<std::string> lines(const std::string& t) {
  std::vector<std::string> r;
  std::istringstream i(t);
  for (std::string l; std::getline(i, l);) r.push_back(l);
  return r;
}
bool near(double a, double b) { return std::abs(a - b) <= 2e-5 * (1 + std::abs(b)); }
std::string squeeze(const std::string& s) {
  std::string r;
  for (char c : s)
    if (!isspace((unsigned char)c)) r += c;
  return r;
}
std::vector<double> nums(const std::string& s, bool& ok) {
  std::vector<double> r;
  std::string t;
  std::istringstream i(s);
  while (std::getline(i, t, ',')) {
    if (t.empty()) continue;
    char* e;
    r.push_back(std::strtod(t.c_str(), &e));
    if (*e) ok = false;
  }
  return r;
}
// a tiny interpreter for the generated MATLAB functions
struct Matlab {
  std::string err, fun;
  std::map<std::string, std::map<long, std::vector<double>>> var;  // rows
  std::map<std::string, std::vector<long>> zeros;
};
Matlab matlab(const std::string& text) {
  Matlab m;
  bool first = true;
  for (auto& l0 : lines(text)) {
    const std::string l = squeeze(l0);
    if (l.empty() || l[0] == '%') continue;
    if (first) {
      first = false;
      const size_t e = l.find("]=");
      if (l.rfind("function[", 0) || e == std::string::npos || l.substr(l.size() - 2) != "()") m.err = "function header " + l0;
      else
        m.fun = l.substr(e + 2, l.size() - e - 4);
      continue;
    }
    std::string st;
    std::istringstream is(l);
    while (std::getline(is, st, ';')) {
      const size_t q = st.find('=');
      if (q == std::string::npos) {
        m.err = "statement " + st;
        continue;
      }
      std::string lhs = st.substr(0, q), rhs = st.substr(q + 1);
      bool ok = true;
      const size_t b = lhs.find('(');
      if (b == std::string::npos) {
        if (rhs == "[]") m.zeros[lhs] = {0, 0};
        else if (rhs.rfind("zeros(", 0) == 0 && rhs.back() == ')') {
          auto v = nums(rhs.substr(6, rhs.size() - 7), ok);
          m.zeros[lhs] = std::vector<long>(v.begin(), v.end());
        } else
          ok = false;
      } else {
        const std::string name = lhs.substr(0, b);
        std::string ix = lhs.substr(b + 1, lhs.size() - b - 2);
        if (ix.size() > 2 && ix.substr(ix.size() - 2) == ",:") ix = ix.substr(0, ix.size() - 2);
        if (rhs.size() > 1 && rhs[0] == '[' && rhs.back() == ']') rhs = rhs.substr(1, rhs.size() - 2);
        char* e;
        const long k = std::strtol(ix.c_str(), &e, 10);
        if (*e || k < 1 || m.var[name].count(k)) ok = false;
        m.var[name][k] = nums(rhs, ok);
      }
      if (!ok) m.err = "statement " + st;
    }
  }
  return m;
}
void checkMatlab(const std::string& tag, const std::string& text, const Mesh& m, const std::string& fun) {
  Matlab f = matlab(text);
  MC_CHECK(f.err.empty(), "matlab-syntax", tag << ": " << f.err);
  MC_CHECK(f.fun == fun, "matlab-function-name", tag << ": " << f.fun);
  const long nn = m.NumEntities(2), ne = m.NumEntities(1);
  MC_CHECK((long)f.var["x"].size() == nn && (long)f.var["y"].size() == nn && (long)f.var["EDS"].size() == ne, "matlab-size", tag);
  for (const Entity* n : m.Entities(2)) {
    const Vec p = n->Geometry()->Global(Mat(0, 1));
    const auto &x = f.var["x"][m.Index(*n) + 1], &y = f.var["y"][m.Index(*n) + 1];
    MC_CHECK(x.size() == 1 && y.size() == 1 && near(x[0], p[0]) && near(y[0], p[1]), "matlab-node", tag << " node " << m.Index(*n));
  }
  for (const Entity* e : m.Entities(1)) {
    const auto& r = f.var["EDS"][m.Index(*e) + 1];
    const auto s = e->SubEntities(1);
    MC_CHECK((r == std::vector<double>{m.Index(*s[0]) + 1., m.Index(*s[1]) + 1.}), "matlab-edge", tag << " edge " << m.Index(*e));
  }
  MC_CHECK(f.var["TRI"].size() == m.NumEntities(RefEl::kTria()) && f.var["QUAD"].size() == m.NumEntities(RefEl::kQuad()), "matlab-size", tag);
  std::map<long, std::vector<double>> byCell;
  for (const char* v : {"TRI", "QUAD"}) {
    long k = 1;
    for (auto& r : f.var[v]) {
      MC_CHECK(r.first == k++ && r.second.size() == (v[0] == 'T' ? 4u : 5u), "matlab-row", tag << " " << v << " row " << r.first);
      if (!r.second.empty()) byCell[(long)r.second.back()] = r.second;
    }
  }
  MC_CHECK(byCell.size() == m.NumEntities(0), "matlab-cells", tag);
  for (const Entity* c : m.Entities(0)) {
    std::vector<double> w;
    for (const Entity* n : c->SubEntities(2)) w.push_back(m.Index(*n) + 1.);
    w.push_back(m.Index(*c));
    MC_CHECK(byCell[m.Index(*c)] == w, "matlab-cell", tag << " cell " << m.Index(*c));
  }
}
void checkCsv(const std::string& tag, const std::string& text, const Mesh& m) {
  std::map<std::pair<int, long>, std::vector<double>> row;
  for (auto& l : lines(text)) {
    bool ok = true;
    const auto v = nums(l, ok);
    MC_CHECK(ok && v.size() >= 3 && !row.count({(int)v[0], (long)v[1]}), "csv-syntax", tag << ": " << l);
    if (v.size() >= 3) row[{(int)v[0], (long)v[1]}] = {v.begin() + 2, v.end()};
  }
  MC_CHECK(row.size() == m.NumEntities(0) + m.NumEntities(1) + m.NumEntities(2), "csv-size", tag);
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m.Entities(cd)) {
      const auto& r = row[{cd, (long)m.Index(*e)}];
      if (cd == 2) {
        const Vec p = e->Geometry()->Global(Mat(0, 1));
        MC_CHECK(r.size() >= 2 && near(r[0], p[0]) && near(r[1], p[1]), "csv-node", tag << " node " << m.Index(*e));
      } else {
        std::vector<double> w;
        for (const Entity* s : e->SubEntities(1)) w.push_back(m.Index(*s));
        MC_CHECK(r == w, "csv-sub-entities", tag << " codim " << cd << " index " << m.Index(*e));
      }
    }
}
// ---- TikZ
struct Draw {
  std::string opt;
  std::vector<std::array<double, 2>> xy;
  std::vector<std::string> label;  // after point i ("" if none)
  std::string mid;                 // label on the way between the points
  bool cycle = false, used = false;
};
bool parseDraw(const std::string& l, Draw& d) {
  if (l.rfind("\\draw[", 0)) return false;
  size_t p = l.find(']');
  d.opt = l.substr(6, p - 6);
  ++p;
  bool way = false;
  while (p < l.size()) {
    if (l[p] == ' ') ++p;
    else if (l[p] == ';')
      return p + 1 == l.size();
    else if (l.compare(p, 2, "--") == 0)
      way = true, p += 2;
    else if (l.compare(p, 5, "cycle") == 0)
      d.cycle = true, p += 5;
    else if (l.compare(p, 5, "node[") == 0) {
      const size_t a = l.find('{', p), b = l.find('}', p);
      if (a == std::string::npos || b == std::string::npos) return false;
      const std::string t = l.substr(a + 1, b - a - 1);
      if (way) d.mid = t;
      else if (!d.label.empty())
        d.label.back() = t;
      p = b + 1;
    } else if (l[p] == '(') {
      const size_t e = l.find(')', p);
      bool ok = e != std::string::npos;
      if (!ok) return false;
      const auto v = nums(l.substr(p + 1, e - p - 1), ok);
      if (!ok || v.size() != 2) return false;
      d.xy.push_back({v[0], v[1]});
      d.label.push_back("");
      way = false;
      p = e + 1;
    } else
      return false;
  }
  return false;
}
// points of the statement are corners shrunk towards the centre by one factor
bool shrunk(const Draw& d, const Mat& v, bool full) {
  if ((long)d.xy.size() != v.cols()) return false;
  const Eigen::Vector2d c = v.topRows(2).rowwise().mean();
  double s = 0, w = 0;
  for (int i = 0; i < v.cols(); ++i) {
    const Eigen::Vector2d a = v.col(i).head(2) - c, b = Eigen::Vector2d(d.xy[i][0], d.xy[i][1]) - c;
    s += a.dot(b), w += a.squaredNorm();
  }
  s /= w;
  if (s < 0.3 || s > 1 + 1e-4 || (full && s < 1 - 1e-4)) return false;
  for (int i = 0; i < v.cols(); ++i)
    for (int k = 0; k < 2; ++k)
      if (!near(d.xy[i][k], c[k] + s * (v(k, i) - c[k]))) return false;
  return true;
}
void checkTikz(const std::string& tag, const std::string& text, const Mesh& m, unsigned fl, const std::function<bool(const Entity&)>& sel) {
  std::vector<Draw> dr;
  int begin = 0, end = 0, doc = 0;
  for (auto& l : lines(text)) {
    if (l.rfind("\\draw", 0) == 0) {
      Draw d;
      MC_CHECK(parseDraw(l, d), "tikz-syntax", tag << ": " << l);
      MC_CHECK(begin == 1 && end == 0, "tikz-outside", tag);
      dr.push_back(d);
    }
    if (l.find("\\begin{tikzpicture}") != std::string::npos) ++begin;
    if (l.find("\\end{tikzpicture}") != std::string::npos) ++end;
    if (l.find("\\documentclass") != std::string::npos || l.find("\\begin{document}") != std::string::npos || l.find("\\end{document}") != std::string::npos) ++doc;
  }
  MC_CHECK(begin == 1 && end == 1 && doc == (fl & 64 ? 3 : 0), "tikz-frame", tag << " " << begin << end << doc);
  auto take = [&](const std::function<bool(const Draw&)>& f) {
    for (auto& d : dr)
      if (!d.used && f(d)) return d.used = true;
    return false;
  };
  size_t want = 0;
  for (int cd = 0; cd <= 2; ++cd)
    for (const Entity* e : m.Entities(cd)) {
      if (!sel(*e)) continue;
      const std::string id = std::to_string(m.Index(*e));
      const Mat v = e->Geometry()->Global(e->RefEl().NodeCoords());
      const std::string te = tag + " codim " + std::to_string(cd) + " index " + id;
      if (cd == 2) {
        ++want;
        MC_CHECK(take([&](const Draw& d) { return d.xy.size() == 1 && d.label[0] == (fl & 8 ? id : "*") && d.opt.find("red") != std::string::npos && near(d.xy[0][0], v(0, 0)) && near(d.xy[0][1], v(1, 0)); }), "tikz-node", te);
      } else if (cd == 1) {
        ++want;
        MC_CHECK(take([&](const Draw& d) {
                   return d.xy.size() == 2 && !d.cycle && d.mid == (fl & 16 ? id : "") && (d.opt.find("->") != std::string::npos) == bool(fl & 32) && shrunk(d, v, !(fl & 32));
                 }),
                 "tikz-edge", te);
      } else if (fl & 1) {
        const long n = v.cols();
        ++want;
        MC_CHECK(take([&](const Draw& d) {
                   if ((long)d.xy.size() != n || !d.cycle || !d.mid.empty() || !shrunk(d, v, false)) return false;
                   for (long i = 0; i < n; ++i)
                     if (d.label[i] != (fl & 4 ? std::to_string(i) : "")) return false;
                   return true;
                 }),
                 "tikz-cell", te);
        if (fl & 2) {
          ++want;
          const Vec c = v.rowwise().mean();
          MC_CHECK(take([&](const Draw& d) { return d.xy.size() == 1 && d.label[0] == id && d.opt.find("red") == std::string::npos && near(d.xy[0][0], c[0]) && near(d.xy[0][1], c[1]); }), "tikz-cell-number", te);
        }
      }
    }
  MC_CHECK(dr.size() == want, "tikz-extra", tag << " " << dr.size() << " drawings, want " << want);
}
void tikz(const std::string& tag, const Mesh& m, unsigned fl, const std::function<bool(const Entity&)>& sel) {
  mc::current(tag);
  auto s = sel;
  MC_CHECK(lf::io::writeTikZ(m, "t.tex", std::move(s), static_cast<lf::io::TikzOutputCtrl>(fl)), "tikz-result", tag);
  if (mc::outcome(tag)) mc::states();
  mc::transitions();
  checkTikz(tag, slurp("t.tex"), m, fl, sel);
}
// output meant for a stream must not appear elsewhere
struct Silence {
  std::ostringstream o;
  std::streambuf *a, *b;
  Silence() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {}
  ~Silence() {
    std::cout.rdbuf(a);
    std::cerr.rdbuf(b);
  }
};
void mesh(const Spec& s) {
  std::shared_ptr<const Mesh> m = buildMesh(s);
  mc::sample(s.str());
  mc::current(s.str());
  Silence sl;
  lf::io::writeMatlab(*m, "mm.m");
  checkMatlab(s.str(), slurp("mm.m"), *m, "mm");
  lf::io::writeMatplotlib(*m, "mm.csv");
  checkCsv(s.str(), slurp("mm.csv"), *m);
  mc::transitions(2);
  mc::traces(2);
  if (mc::outcome(s.str())) mc::states();
  auto all = [](const Entity&) { return true; };
  const bool lg = m->NumEntities(0) > 12;
  for (unsigned fl = 0; fl < 128; fl += lg ? 21 : 1) {
    tikz(s.str() + " flags " + std::to_string(fl), *m, fl, all);
    for (int cd = 0; cd <= 2; ++cd)
      tikz(s.str() + " flags " + std::to_string(fl) + " codim " + std::to_string(cd), *m, fl, [cd](const Entity& e) { return (int)e.Codim() == cd; });
  }
  MC_CHECK(lf::io::writeTikZ(*m, "t.tex"), "tikz-result", s.str());
  checkTikz(s.str() + " default flags", slurp("t.tex"), *m, 1, all);
  MC_CHECK(lf::io::writeTikZ(*m, "t.tex", lf::io::TikzOutputCtrl::NodeNumbering | lf::io::TikzOutputCtrl::ArrowTips), "tikz-result", s.str());
  checkTikz(s.str() + " or-ed flags", slurp("t.tex"), *m, 40, all);
  MC_CHECK(!lf::io::writeTikZ(*m, "no-such-directory/t.tex"), "tikz-result", s.str() << " unwritable file reported as written");
  // all subsets of entities
  const unsigned n0 = m->NumEntities(0), n1 = m->NumEntities(1), n2 = m->NumEntities(2), n = n0 + n1 + n2;
  if (n <= (mc::thorough ? 12u : 9u))
    for (unsigned b = 0; b < (1u << n); ++b) {
      const Mesh* mp = m.get();
      tikz(s.str() + " subset " + std::to_string(b), *m, 31, [=](const Entity& e) {
        const unsigned k = (e.Codim() == 0 ? 0 : e.Codim() == 1 ? n0 : n0 + n1) + mp->Index(e);
        return b >> k & 1;
      });
    }
  MC_CHECK(sl.o.str().empty(), "stray-output", s.str() << ": " << sl.o.str());
}
// ---- file names
void names(int which) {
  std::shared_ptr<const Mesh> m = buildMesh(topologies()[0]);
  auto h = hr::makeHier(topologies()[0]);
  const std::string al = which == 1 ? ".csva" : ".mab";
  const size_t len = which == 1 ? (mc::thorough ? 7 : 6) : 4;
  const std::string suf = which == 1 ? ".csv" : ".m";
  wipe();
  std::vector<std::string> todo{""};
  for (size_t l = 1; l <= len; ++l) {
    std::vector<std::string> next;
    for (auto& t : todo)
      for (char c : al) next.push_back(t + c);
    for (auto& n : next) {
      const std::string tag = (which == 0 ? "writeMatlab " : which == 1 ? "writeMatplotlib " : "WriteMatlabLevel ") + n;
      mc::current(tag);
      if (mc::outcome(tag)) mc::states();
      mc::transitions();
      mc::traces();
      const bool has = n.size() >= suf.size() && n.compare(n.size() - suf.size(), suf.size(), suf) == 0;
      const std::string want = has ? n : n + suf;
      try {
        if (which == 0) lf::io::writeMatlab(*m, n);
        if (which == 1) lf::io::writeMatplotlib(*m, n);
        if (which == 2) lf::refinement::WriteMatlabLevel(*h, 0, n);
      } catch (const std::exception& e) {
        MC_CHECK(false, "file-name-exception", tag << ": " << e.what());
      }
      std::string got;
      for (auto& f : files()) got += f + " ";
      MC_CHECK(got == want + " ", "file-name", tag << ": wrote " << got);
      if (got == want + " ") {
        if (which == 0) checkMatlab(tag, slurp(want), *m, want.substr(0, want.size() - 2));
        if (which == 1) checkCsv(tag, slurp(want), *m);
        if (which == 2) MC_CHECK(matlab(slurp(want)).fun == want.substr(0, want.size() - 2), "matlab-function-name", tag << ": " << matlab(slurp(want)).fun);
      }
      wipe();
    }
    todo = next;
  }
}
// ---- hierarchies
void hierarchy(MeshHierarchy& h, const std::string& tag) {
  wipe();
  Silence sl;
  lf::refinement::WriteMatlab(h, "hh");
  std::set<std::string> want;
  for (unsigned L = 0; L < h.NumLevels(); ++L) {
    const std::string b = "hh_L" + std::to_string(L);
    want.insert(b + ".m");
    want.insert(b + "_pi.m");
    const auto m = h.getMesh(L);
    checkMatlab(tag + " level " + std::to_string(L), slurp(b + ".m"), *m, b);
    Matlab f = matlab(slurp(b + "_pi.m"));
    MC_CHECK(f.err.empty() && f.fun == b + "_pi", "hier-syntax", tag << " " << f.err << " " << f.fun);
    auto id = [](unsigned i) { return i == lf::base::kIdxNil ? -1. : (double)i; };
    const char* nm[] = {"CELLPAR", "EDPAR", "PTPAR"};
    for (int cd = 0; cd <= 2; ++cd) {
      MC_CHECK(f.var[nm[cd]].size() == m->NumEntities(cd), "hier-size", tag << " " << nm[cd]);
      for (unsigned k = 0; k < m->NumEntities(cd); ++k) {
        const auto& pi = h.ParentInfos(L, cd)[k];
        std::vector<double> w{id(pi.parent_index), id(pi.child_number)};
        if (cd == 0) w.push_back(id(h.RefinementEdges(L)[k]));
        MC_CHECK(f.var[nm[cd]][k + 1] == w, "hier-parent", tag << " level " << L << " codim " << cd << " index " << k);
      }
    }
  }
  MC_CHECK(files() == want, "hier-files", tag);
  MC_CHECK(sl.o.str().empty(), "stray-output", tag);
}
// ---- listing of a factory goes to the given stream
void factory(const Spec& s) {
  lf::mesh::hybrid2d::MeshFactory f(s.dim);
  for (auto& p : s.pts) f.AddPoint(lift(p, s.dim));
  for (auto& e : s.edges) {
    std::array<idx, 2> n{e.a, e.b};
    f.AddEntity(RefEl::kSegment(), n, makeEdgeGeo(s.pts[e.a], s.pts[e.b], e.geo, s.dim));
  }
  for (auto& c : s.cells) {
    std::vector<V2> co;
    for (auto k : c.n) co.push_back(s.pts[k]);
    f.AddEntity(c.n.size() == 3 ? RefEl::kTria() : RefEl::kQuad(), c.n, makeCellGeo(co, c.geo, s.dim));
  }
  Silence sl;
  std::ostringstream o;
  f.PrintLists(o);
  MC_CHECK(sl.o.str().empty(), "stray-output", s.str() << " PrintLists: " << sl.o.str());
  for (auto& t : {std::to_string(s.pts.size()) + " nodes", std::to_string(s.edges.size()) + " edges", std::to_string(s.cells.size()) + " cells"})
    MC_CHECK(o.str().find(t) != std::string::npos, "factory-list", s.str() << " PrintLists lacks " << t);
  auto m = f.Build();
  std::ostringstream q;
  for (int c : {0, 11, 51, 91, 101}) {
    lf::mesh::utils::PrintInfo(q, *m, c);
    for (int cd = 0; cd <= 2; ++cd)
      for (const Entity* e : m->Entities(cd)) lf::mesh::utils::PrintInfo(q, *e, c);
  }
  MC_CHECK(sl.o.str().empty() && !q.str().empty(), "stray-output", s.str() << " PrintInfo");
  mc::transitions(2);
}
std::vector<Spec> M, HB;
std::vector<std::pair<int, hr::Step>> HI;
long count() {
  M = meshes(mc::thorough);
  for (auto& s : largeSpecs(mc::thorough ? 1100 : 300, mc::thorough ? 4 : 1)) {
    if (s.name.find("k5") != std::string::npos && s.pts.size() > 60) continue;  // cells too small for six digits
    double x = 3;
    for (auto& p : s.pts) x = std::max(x, p.cwiseAbs().maxCoeff());
    M.push_back(s);
    for (auto& p : M.back().pts) p *= 3 / x;
  }
  HB = hr::bases({0, 1, 2, 3}, false, {kO1});
  for (size_t b = 0; b < HB.size(); ++b) {
    const auto m = buildMesh(HB[b]);
    for (auto& st : hr::alphabet(m->NumEntities(1), 3)) HI.push_back({(int)b, st});
  }
  return 3 + HI.size() + M.size();
}
void item(long it) {
  D = "io_" + std::to_string(getpid());
  char old[4096];
  if (!getcwd(old, sizeof old) || (mkdir(D.c_str(), 0700) && errno != EEXIST) || chdir(D.c_str())) {
    MC_CHECK(false, "scratch", "no scratch directory");
    return;
  }
  if (it < 3) names(it);
  else if (it < 3 + (long)HI.size()) {
    const auto& x = HI[it - 3];
    hr::Explorer ex{HB[x.first], mc::thorough ? std::vector<int>{3, 2, 1} : std::vector<int>{3, 1}, [&](MeshHierarchy& h, const std::vector<hr::Step>& st) {
                      std::string t = HB[x.first].str();
                      for (auto& s : st) t += " " + s.str();
                      hierarchy(h, t);
                    }};
    ex.run(x.second);
  } else {
    mesh(M[it - 3 - HI.size()]);
    factory(M[it - 3 - HI.size()]);
  }
  wipe();
  if (chdir(old) == 0) rmdir(D.c_str());
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
