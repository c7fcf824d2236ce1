// Independent reader of legacy VTK files (unstructured grids, ASCII and big
// endian binary) and the point order of Lagrange cells as defined by VTK.
#pragma once
#include <lf/io/io.h>
#include <unistd.h>

#include <cstring>
#include <fstream>

#include "mc.h"
namespace vk {
struct Arr {
  std::string kind, name, type;  // kind: SCALARS, VECTORS, FIELD
  int comp = 1;
  std::vector<double> v;
  bool exact = false;  // integers or binary doubles
};
struct File {
  std::string err;
  std::string title;
  bool binary = false;
  std::vector<Eigen::Vector3d> pts;
  std::vector<std::vector<long>> cells;
  std::vector<int> types;
  std::vector<Arr> field, point, cell;
};
struct Parser {
  std::string s;
  size_t p = 0;
  bool bin = false;
  std::string err;
  bool line(std::string& o) {
    if (p >= s.size()) return fail("unexpected end");
    const size_t e = s.find('\n', p);
    if (e == std::string::npos) return fail("line without end");
    o = s.substr(p, e - p);
    p = e + 1;
    return true;
  }
  bool fail(const std::string& m) {
    if (err.empty()) err = m + " at byte " + std::to_string(p);
    return false;
  }
  void ws() {
    while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t')) ++p;
  }
  std::string tok() {
    ws();
    const size_t b = p;
    while (p < s.size() && s[p] != ' ' && s[p] != '\n' && s[p] != '\t') ++p;
    if (b == p) fail("token expected");
    return s.substr(b, p - b);
  }
  long num() {
    const std::string t = tok();
    char* e;
    const long r = std::strtol(t.c_str(), &e, 10);
    if (t.empty() || *e) fail("integer expected, found '" + t + "'");
    return r;
  }
  // the rest of the line has to be blank
  void eol() {
    while (p < s.size() && s[p] == ' ') ++p;
    if (p >= s.size() || s[p] != '\n') {
      fail("end of line expected");
      return;
    }
    ++p;
  }
  static int size(const std::string& t) {
    if (t == "char" || t == "unsigned_char") return 1;
    if (t == "short" || t == "unsigned_short") return 2;
    if (t == "int" || t == "unsigned_int" || t == "float") return 4;
    if (t == "long" || t == "unsigned_long" || t == "double") return 8;
    return 0;
  }
  double one(const std::string& t) {
    if (bin) {
      const int n = size(t);
      if (!n || p + n > s.size()) {
        fail("binary data of type " + t + " missing");
        return 0;
      }
      unsigned long u = 0;
      for (int i = 0; i < n; ++i) u = u << 8 | (unsigned char)s[p + i];
      p += n;
      if (t == "float") {
        const uint32_t w = u;
        float f;
        std::memcpy(&f, &w, 4);
        return f;
      }
      if (t == "double") {
        double f;
        std::memcpy(&f, &u, 8);
        return f;
      }
      if (t[0] == 'u') return (double)u;
      if (n < 8 && u >> (8 * n - 1)) return (double)((long)u - (1L << (8 * n)));
      return (double)(long)u;
    }
    const std::string x = tok();
    char* e;
    const double r = std::strtod(x.c_str(), &e);
    if (x.empty() || *e) fail("number expected, found '" + x + "'");
    if (t != "float" && t != "double" && x.find_first_of(".e") != std::string::npos) fail("integer expected, found '" + x + "'");
    return r;
  }
  std::vector<double> many(const std::string& t, long n) {
    std::vector<double> r;
    for (long i = 0; i < n && err.empty(); ++i) r.push_back(one(t));
    return r;
  }
};
inline File read(const std::string& name) {
  File f;
  Parser q;
  {
    std::ifstream in(name, std::ios::binary);
    if (!in) {
      f.err = "no file";
      return f;
    }
    q.s.assign(std::istreambuf_iterator<char>(in), {});
  }
  std::string l;
  if (!q.line(l) || l.rfind("# vtk DataFile Version ", 0) != 0) q.fail("signature");
  q.line(f.title);
  if (f.title.size() > 256) q.fail("title too long");
  q.line(l);
  if (l != "ASCII" && l != "BINARY") q.fail("format");
  q.bin = f.binary = l == "BINARY";
  q.line(l);
  if (l != "DATASET UNSTRUCTURED_GRID") q.fail("dataset");
  long np = -1, nc = -1;
  int section = 0;  // 1: point data, 2: cell data
  auto add = [&](Arr a) {
    if (section == 0) q.fail("attribute outside of POINT_DATA/CELL_DATA");
    (section == 1 ? f.point : f.cell).push_back(std::move(a));
  };
  while (q.err.empty()) {
    q.ws();
    if (q.p >= q.s.size()) break;
    const std::string k = q.tok();
    if (k == "POINTS") {
      np = q.num();
      const std::string t = q.tok();
      q.eol();
      const auto v = q.many(t, 3 * np);
      if (!q.err.empty()) break;
      for (long i = 0; i < np; ++i) f.pts.emplace_back(v[3 * i], v[3 * i + 1], v[3 * i + 2]);
    } else if (k == "CELLS") {
      nc = q.num();
      long total = q.num();
      q.eol();
      for (long i = 0; i < nc && q.err.empty(); ++i) {
        const long n = (long)q.one("int");
        total -= n + 1;
        if (n < 0 || total < 0) {
          q.fail("size of cell list");
          break;
        }
        const auto v = q.many("int", n);
        f.cells.emplace_back(v.begin(), v.end());
      }
      if (total != 0) q.fail("total size of cell list");
    } else if (k == "CELL_TYPES") {
      const long n = q.num();
      q.eol();
      const auto v = q.many("int", n);
      f.types.assign(v.begin(), v.end());
    } else if (k == "FIELD") {
      q.tok();
      const long n = q.num();
      q.eol();
      for (long i = 0; i < n && q.err.empty(); ++i) {
        Arr a;
        a.kind = k;
        a.name = q.tok();
        a.comp = q.num();
        const long m = q.num();
        a.type = q.tok();
        q.eol();
        a.v = q.many(a.type, m * a.comp);
        f.field.push_back(a);
      }
    } else if (k == "POINT_DATA" || k == "CELL_DATA") {
      section = k == "POINT_DATA" ? 1 : 2;
      const long n = q.num();
      q.eol();
      if (n != (section == 1 ? np : nc)) q.fail(k + " has the wrong number");
    } else if (k == "SCALARS" || k == "VECTORS") {
      Arr a;
      a.kind = k;
      a.name = q.tok();
      a.type = q.tok();
      if (k == "SCALARS") {
        a.comp = q.num();
        q.eol();
        if (q.tok() != "LOOKUP_TABLE") q.fail("lookup table");
        if (q.tok() != "default") q.fail("lookup table name");
        q.eol();
      } else {
        a.comp = 3;
        q.eol();
      }
      a.v = q.many(a.type, (section == 1 ? np : nc) * a.comp);
      add(std::move(a));
    } else
      q.fail("unknown keyword '" + k + "'");
  }
  f.err = q.err;
  return f;
}
// ---- points of Lagrange cells, in units of 1/n, in the order defined by VTK
using L = std::vector<std::pair<int, int>>;
inline L curve(int n) {
  L r{{0, 0}, {n, 0}};
  for (int i = 1; i < n; ++i) r.push_back({i, 0});
  return r;
}
inline L tria(int n) {
  if (n == 0) return {{0, 0}};
  L r{{0, 0}, {n, 0}, {0, n}};
  for (int i = 1; i < n; ++i) r.push_back({i, 0});
  for (int i = 1; i < n; ++i) r.push_back({n - i, i});
  for (int i = 1; i < n; ++i) r.push_back({0, n - i});
  if (n >= 3)
    for (auto& x : tria(n - 3)) r.push_back({x.first + 1, x.second + 1});
  return r;
}
inline L quad(int n) {
  L r{{0, 0}, {n, 0}, {n, n}, {0, n}};
  for (int i = 1; i < n; ++i) r.push_back({i, 0});
  for (int i = 1; i < n; ++i) r.push_back({n, i});
  for (int i = 1; i < n; ++i) r.push_back({i, n});
  for (int i = 1; i < n; ++i) r.push_back({0, i});
  for (int j = 1; j < n; ++j)
    for (int i = 1; i < n; ++i) r.push_back({i, j});
  return r;
}
}  // namespace vk
