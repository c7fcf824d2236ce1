// A02: triplet matrix under every sequence of operations up to a depth bound,
// against a dense accumulator.
#include <lf/assemble/assemble.h>

#include <complex>

#include "mc.h"
using C = std::complex<double>;
template <class S>
using COO = lf::assemble::COOMatrix<S>;
namespace {
double SC = 1;  // some items work with tiny values
template <class S>
S val(int k) {
  return S(k);
}
template <>
double val<double>(int k) {
  return k * SC;
}
template <>
C val<C>(int k) {
  return C(k * SC, (3 - 2 * k) * SC);
}
using LD = long double;
template <>
LD val<LD>(int k) {
  return k * (1 + 0x1p-54L);  // not a double
}
template <>
float val<float>(int k) {
  return k * 1.5f;  // not an int
}
// components of the vectors the matrix is multiplied with: all sums of
// products are exact
template <class S>
S comp(int k) {
  return S(2 + 7 * k + k * k);
}
template <>
C comp<C>(int k) {
  return C(2 + 7 * k + k * k, -1 - 14 * k);
}
template <>
LD comp<LD>(int k) {
  return k % 3 == 2 ? -1 : 1 + k % 3;
}
template <class S>
std::string tname() {
  return std::is_same_v<S, C> ? "complex " : std::is_same_v<S, double> ? "real " : std::is_same_v<S, LD> ? "long double " : std::is_same_v<S, float> ? "float " : "int ";
}
struct Op {
  char k;  // 'a' add, 'z' clear, 'p' clear by predicate, 'c' copy, 'm' move, 't' change the last triplet, 'd' drop the first triplet
  unsigned i = 0, j = 0;
  int v = 0;
  std::string str() const { return std::string(1, k) + (k == 'a' ? "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(v) + ")" : k == 'p' ? std::to_string(i) : ""); }
};
bool pred(unsigned which, unsigned i, unsigned j) {
  switch (which) {
    case 0: return i == j;
    case 1: return i == 0;
    case 2: return j >= 1;
    case 3: return true;
    case 4: return false;
    default: return (i + 2 * j) % 3 == 1;
  }
}
std::vector<Op> alphabet() {
  std::vector<Op> r;
  for (unsigned i : {0u, 1u, 3u})
    for (unsigned j : {0u, 1u, 2u})
      for (int v : {2, -5}) r.push_back({'a', i, j, v});
  r.push_back({'a', 0, 1, 0});
  for (char c : {'z', 'c', 'm', 't', 'd'}) r.push_back({c});
  for (unsigned p = 0; p < 6; ++p) r.push_back({'p', p});
  return r;
}
struct Ent {
  unsigned i, j;
  int v;
};
struct St {  // reference
  unsigned r, c;
  std::vector<Ent> e;
};
void step(St& s, const Op& o) {
  if (o.k == 'a') {
    s.r = std::max(s.r, o.i + 1);
    s.c = std::max(s.c, o.j + 1);
    s.e.push_back({o.i, o.j, o.v});
  }
  if (o.k == 'z') s.e.clear();
  if (o.k == 't' && !s.e.empty()) s.e.back() = {s.e.back().i, 0, s.e.back().v + 11};
  if (o.k == 'd' && !s.e.empty()) s.e.erase(s.e.begin());
  if (o.k == 'p') s.e.erase(std::remove_if(s.e.begin(), s.e.end(), [&](const Ent& t) { return pred(o.i, t.i, t.j); }), s.e.end());
}
template <class S>
void step(COO<S>& m, const Op& o) {
  mc::transitions();
  if (o.k == 'a') m.AddToEntry(o.i, o.j, val<S>(o.v));
  if (o.k == 'z') m.setZero();
  if (o.k == 'p') m.setZero([&](unsigned i, unsigned j) { return pred(o.i, i, j); });
  if (o.k == 't' && !m.triplets().empty()) {
    auto& t = m.triplets().back();
    t = Eigen::Triplet<S>(t.row(), 0, t.value() + val<S>(11) - val<S>(0));
  }
  if (o.k == 'd' && !m.triplets().empty()) m.triplets().erase(m.triplets().begin());
  if (o.k == 'c') {
    COO<S> t(m);
    COO<S> u(1, 1);
    u.AddToEntry(5, 5, val<S>(1));
    u = t;
    t.AddToEntry(0, 0, val<S>(1));  // must not affect u
    m = u;
  }
  if (o.k == 'm') {
    COO<S> t(std::move(m));
    m = std::move(t);
  }
}
template <class S>
using Mx = Eigen::Matrix<S, -1, -1>;
template <class S>
using Vx = Eigen::Matrix<S, -1, 1>;
template <class S>
void check(const COO<S>& m, const St& s) {
  const std::string& tag = mc::current();
  MC_CHECK((unsigned)m.rows() == s.r && (unsigned)m.cols() == s.c, "size", tag << " got " << m.rows() << "x" << m.cols());
  if ((unsigned)m.rows() != s.r || (unsigned)m.cols() != s.c) return;
  Mx<S> D = Mx<S>::Zero(s.r, s.c);
  for (auto& e : s.e) D(e.i, e.j) += val<S>(e.v);
  const Mx<S> A = m.makeDense();
  MC_CHECK(A.rows() == D.rows() && A.cols() == D.cols() && A == D, "dense", tag);
  if (s.r > 0 && s.c > 0) {
    const Eigen::SparseMatrix<S> sp = m.makeSparse();
    MC_CHECK(sp.rows() == D.rows() && sp.cols() == D.cols() && Mx<S>(sp) == D, "sparse", tag);
  }
  MC_CHECK(m.triplets().size() == s.e.size(), "triplets", tag << " " << m.triplets().size());
  for (unsigned extra : {0u, 2u})
    for (int al : {1, -3}) {
      Vx<S> x(s.c + extra);
      for (unsigned k = 0; k < x.size(); ++k) x[k] = comp<S>(k);
      const Vx<S> w = S(al) * D * x.head(s.c);
      const Vx<S> y = m.MatVecMult(val<S>(0) * S(0) + S(al), x);
      MC_CHECK(y.size() == w.size() && y == w, "matvec", tag << " alpha " << al);
      Vx<S> z(s.r + extra);
      for (unsigned k = 0; k < z.size(); ++k) z[k] = val<S>(-1 - (int)k);
      Vx<S> zz = z;
      zz.head(s.r) += w;
      m.MatVecMult(S(al), x, z);
      MC_CHECK(z == zz, "matvec-add", tag << " alpha " << al);
    }
  std::ostringstream o, p;
  o << m;
  m.PrintInfo(p);
  MC_CHECK(o.str() == p.str() && o.str().rfind(std::to_string(s.r) + " x " + std::to_string(s.c), 0) == 0, "print", tag);
  const std::string pt = o.str();
  MC_CHECK((size_t)std::count(pt.begin(), pt.end(), '\n') == 1 + s.e.size(), "print", tag);
}
template <class S>
void rec(const COO<S>& m, const St& s, int depth, const std::string& tag) {
  static const auto al = alphabet();
  for (auto& o : al) {
    COO<S> n(m);
    St t = s;
    const std::string tg = tag + " " + o.str();
    mc::current(tg);
    step(n, o);
    step(t, o);
    mc::current(tg);
    check(n, t);
    std::string k = std::to_string(t.r) + "," + std::to_string(t.c);
    for (auto& e : t.e) k += ";" + std::to_string(e.i) + "," + std::to_string(e.j) + "," + std::to_string(e.v);
    if (mc::outcome(k + tname<S>()[0])) mc::states();
    // two operations without a look at the matrix in between
    if (depth > 1 && n.rows() <= 4)
      for (auto& o2 : al)
        if (o.k != 'a' || o2.k != 'a' || o.v == o2.v) {
          COO<S> n2(m);
          St t2 = s;
          const Op both[2] = {o, o2};
          for (auto& q : both) step(n2, q), step(t2, q);
          mc::current(tg + " " + o2.str() + " at once");
          check(n2, t2);
        }
    if (depth > 1) rec(n, t, depth - 1, tg);
  }
}
const std::vector<std::pair<unsigned, unsigned>> SZ = {{0, 0}, {1, 1}, {2, 3}, {4, 3}};
// long histories: periodic words over the operations with growing matrices,
// checked after every `every` operations
struct Long {
  unsigned r, c, n, rows, cols, every;
};
const std::vector<Long> LG = {{0, 0, 70, 1, 1, 7},      {0, 0, 300, 5, 3, 25},       {2, 2, 700, 40, 17, 100},    {130, 3, 1500, 130, 260, 300},
                              {1, 1, 1500, 700, 1, 300}, {1, 1, 3000, 300, 301, 1000}, {5, 5, 70000, 90, 80, 35000}, {1, 70000, 50, 3, 70001, 50}};
template <class S>
void longWord(const Long& l, unsigned kind) {
  const std::string tag = tname<S>() + "long word of " + std::to_string(l.n) + " operations on " + std::to_string(l.rows) + "x" + std::to_string(l.cols) + " kind " + std::to_string(kind);
  mc::current(tag);
  mc::sample(tag);
  if (mc::outcome(tag)) mc::states();
  COO<S> m(l.r, l.c);
  St s{l.r, l.c, {}};
  for (unsigned i = 0; i < l.n; ++i) {
    const unsigned long b = i, x = kind == 0 ? b : b * (b + kind) * 5 + 3 * b, y = kind == 0 ? b / l.rows : 7 * b + b / l.rows;
    Op o{'a', (unsigned)(x % l.rows), (unsigned)(y % l.cols), (int)(i % 11) - 5};
    if (kind == 2 && i % 97 == 96) o = Op{"cmp"[i / 97 % 3], i / 291 % 6};
    step(m, o);
    step(s, o);
    if (i % l.every == l.every - 1 || i + 1 == l.n) check(m, s);
  }
  Op o{'p', 5};
  step(m, o);
  step(s, o);
  check(m, s);
}
const unsigned NL = 6, NT = 5;
long count() { return SZ.size() * alphabet().size() * NT + NL * LG.size(); }
template <class S>
void go(std::pair<unsigned, unsigned> z, const Op& o) {
  COO<S> m(z.first, z.second);
  St s{z.first, z.second, {}};
  std::string tag = tname<S>() + std::to_string(z.first) + "x" + std::to_string(z.second);
  mc::current(tag);
  check(m, s);
  step(m, o);
  step(s, o);
  mc::current(tag + " " + o.str());
  check(m, s);
  mc::sample(mc::current());
  rec(m, s, (mc::thorough ? 3 : 2) + (std::is_same_v<S, double> ? 1 : 0) - (std::is_same_v<S, double> || std::is_same_v<S, C> ? 0 : 1), tag + " " + o.str());
}
void item(long it) {
  SC = it / 3 % 2 ? 0x1p-80 : 1;
  const auto al = alphabet();
  if ((size_t)it >= SZ.size() * al.size() * NT) {
    it -= SZ.size() * al.size() * NT;
    const Long& l = LG[it / NL];
    if (it % NL % 2)
      longWord<C>(l, it % NL / 2);
    else
      longWord<double>(l, it % NL / 2);
    return;
  }
  const auto& o = al[it % al.size()];
  it /= al.size();
  const auto z = SZ[it / NT];
  switch (it % NT) {
    case 0: return go<double>(z, o);
    case 1: return go<C>(z, o);
    case 2: return go<LD>(z, o);
    case 3: return go<float>(z, o);
    default: return go<int>(z, o);
  }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
