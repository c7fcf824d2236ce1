// A01: local-to-global numbering of degrees of freedom.
#include "asm.h"
using namespace as;
namespace {
std::vector<unsigned> vec(std::span<const gdof_idx_t> s) { return {s.begin(), s.end()}; }
std::string txt(const std::vector<unsigned>& v) {
  std::string r;
  for (auto x : v) r += std::to_string(x) + " ";
  return r;
}
void check(const DofHandler& d, const std::shared_ptr<const Mesh>& mp, const Layout& l, bool orient) {
  const Mesh& m = *mp;
  const Model r = model(m, l, orient);
  const std::string tag = mc::current();
  mc::transitions();
  mc::states();
  if (r.N < 40) mc::outcome(txt(r.all[0][0]) + txt(r.all[0].back()) + std::to_string(r.N));
  MC_CHECK(d.Mesh() == mp, "mesh", tag);
  MC_CHECK(d.NumDofs() == r.N, "num-dofs", tag << " got " << d.NumDofs() << " want " << r.N);
  if (d.NumDofs() != r.N) return;
  std::vector<int> used(r.N, 0), own(r.N, 0);
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (unsigned i = 0; i < m.NumEntities(cd); ++i) {
      const Entity& e = *m.EntityByIndex(cd, i);
      const auto a = vec(d.GlobalDofIndices(e)), b = vec(d.InteriorGlobalDofIndices(e));
      MC_CHECK(d.NumLocalDofs(e) == a.size() && d.NumInteriorDofs(e) == b.size(), "num-local", tag << " codim " << cd << " idx " << i);
      // --- intrinsic facts, independent of the documented order
      MC_CHECK(b.size() == l(e), "num-interior", tag << " codim " << cd << " idx " << i);
      std::set<unsigned> want, got(a.begin(), a.end());
      for (unsigned sc = 0; sc + cd <= 2; ++sc)
        for (const Entity* s : e.SubEntities(sc))
          for (auto k : d.InteriorGlobalDofIndices(*s)) want.insert(k);
      MC_CHECK(got == want && got.size() == a.size(), "cover", tag << " codim " << cd << " idx " << i << ": " << txt(a));
      for (auto k : b) {
        MC_CHECK(k < r.N, "range", tag);
        if (k >= r.N) continue;
        own[k]++;
        MC_CHECK(&d.Entity(k) == &e, "entity", tag << " dof " << k);
      }
      for (auto k : a)
        if (k < r.N) used[k]++;
      // --- the documented order
      MC_CHECK(a == r.all[cd][i], "order", tag << " codim " << cd << " idx " << i << " got " << txt(a) << " want " << txt(r.all[cd][i]));
      MC_CHECK(b == r.interior[cd][i], "interior-order", tag << " codim " << cd << " idx " << i << " got " << txt(b));
    }
  for (unsigned k = 0; k < r.N; ++k) MC_CHECK(own[k] == 1, "one-owner", tag << " dof " << k << " owned by " << own[k]);
  // neighbouring cells see the dofs of a common edge in opposite/equal order
  // according to the direction in which they run through it
  if (orient)
    for (const Entity* c : m.Entities(0)) {
      const auto a = vec(d.GlobalDofIndices(*c));
      size_t off = 0;
      for (const Entity* n : c->SubEntities(2)) off += d.NumInteriorDofs(*n);
      int j = 0;
      for (const Entity* ed : c->SubEntities(1)) {
        auto q = vec(d.InteriorGlobalDofIndices(*ed));
        if (m.Index(*ed->SubEntities(1)[0]) != m.Index(*c->SubEntities(2)[j])) std::reverse(q.begin(), q.end());
        for (size_t k = 0; k < q.size(); ++k) MC_CHECK(off + k < a.size() && a[off + k] == q[k], "edge-direction", tag << " cell " << m.Index(*c) << " edge " << j);
        off += q.size();
        ++j;
      }
    }
  std::ostringstream o;
  for (unsigned ctrl : {0u, 1u, 2u, 3u, 10u, 30u}) PrintInfo(o, d, ctrl);
  MC_CHECK(o.str().find("DofHandler(" + std::to_string(r.N) + " dofs)") != std::string::npos, "print", tag);
}
std::vector<Spec> M;
std::vector<std::array<unsigned, 4>> L;
size_t nsmall = 0;
long count() {
  M = meshes(mc::thorough);
  const unsigned top = mc::thorough ? 3 : 2;
  for (unsigned a = 0; a <= top; ++a)
    for (unsigned b = 0; b <= 3; ++b)
      for (unsigned c = 0; c <= top; ++c)
        for (unsigned e = 0; e <= top; ++e) L.push_back({a, b, c, e});
  // one or two entity types with many dofs (high-order layouts)
  for (unsigned k = 4; k <= (mc::thorough ? 9u : 6u); ++k)
    for (unsigned o = 0; o <= 1; ++o) {
      for (unsigned q = 0; q < 4; ++q) {
        std::array<unsigned, 4> x{o, o, o, o};
        x[q] = k;
        L.push_back(x);
      }
      L.push_back({1, k, k * (k - 1) / 2, k * k * o});
    }
  nsmall = M.size();
  for (auto& s : largeSpecs(mc::thorough ? 4000 : 1100, mc::thorough ? 6 : 3)) M.push_back(s);
  return M.size() + 3;
}
// meshes far beyond the small topologies, few layouts
void largeMesh(const Spec& s, const std::shared_ptr<const Mesh>& mesh) {
  for (auto l : std::vector<std::array<unsigned, 4>>{{1, 0, 0, 0}, {1, 1, 0, 1}, {1, 2, 1, 4}, {0, 0, 3, 2}, {2, 5, 0, 7}, {1, 9, 36, 81}}) {
    const auto lay = uniformLayout(l);
    mc::current("uniform " + s.str() + " layout " + std::to_string(l[1]));
    for (bool orient : {true, false}) check(lf::assemble::UniformFEDofHandler(mesh, dofMap(l), orient), mesh, lay, orient);
    mc::current("dynamic " + s.str() + " layout " + std::to_string(l[1]));
    check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
  }
  for (unsigned mod : {2, 5, 13}) {
    Layout lay = [&](const Entity& e) { return (mesh->Index(e) * 3 + e.Codim()) % mod; };
    mc::current("dynamic " + s.str() + " variable " + std::to_string(mod));
    check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
  }
}
// more than 65536 entities and degrees of freedom
void hugeMesh(int k) {
  const Spec s = huge(k);
  const auto mesh = std::shared_ptr<const Mesh>(buildMesh(s));
  const std::array<unsigned, 4> l{1, k == 1 ? 0u : 2u, k == 2 ? 3u : 0u, k == 2 ? 1u : 0u};
  const auto lay = uniformLayout(l);
  mc::current("uniform " + s.name);
  check(lf::assemble::UniformFEDofHandler(mesh, dofMap(l), true), mesh, lay, true);
  mc::current("dynamic " + s.name);
  check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
}
void item(long it) {
  if (it < 3) return hugeMesh(it);  // (take longest)
  it -= 3;
  const Spec& s = M[it];
  auto mesh = std::shared_ptr<const Mesh>(buildMesh(s));
  mc::sample(s.str());
  if ((size_t)it >= nsmall) return largeMesh(s, mesh);
  for (auto& l : L) {
    const auto lay = uniformLayout(l);
    const std::string nm = s.str() + " layout " + std::to_string(l[0]) + "," + std::to_string(l[1]) + "," + std::to_string(l[2]) + "," + std::to_string(l[3]);
    for (bool orient : {true, false})
      for (bool sparse : {false, true}) {
        mc::current("uniform " + nm + (orient ? " oriented" : "") + (sparse ? " sparse-map" : ""));
        lf::assemble::UniformFEDofHandler d(mesh, dofMap(l, sparse), orient);
        check(d, mesh, lay, orient);
      }
    {
      mc::current("moved " + nm);
      auto u = std::make_unique<lf::assemble::UniformFEDofHandler>(mesh, dofMap(l), true);
      lf::assemble::UniformFEDofHandler u2(std::move(*u)), u3(mesh, dofMap({1, 0, 0, 1}), false);
      u.reset();
      check(u2, mesh, lay, true);
      u3 = std::move(u2);
      check(u3, mesh, lay, true);
      auto d = std::make_unique<lf::assemble::DynamicFEDofHandler>(mesh, lay);
      lf::assemble::DynamicFEDofHandler d2(std::move(*d)), d3(mesh, [](const Entity&) { return 1u; });
      d.reset();
      check(d2, mesh, lay, true);
      d3 = std::move(d2);
      check(d3, mesh, lay, true);
    }
    mc::current("default " + nm);
    check(lf::assemble::UniformFEDofHandler(mesh, dofMap(l)), mesh, lay, true);
    mc::current("dynamic " + nm);
    check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
  }
  // variable numbers of dofs: every assignment that differs from entity to
  // entity by index pattern (base-b digits), enumerated completely
  for (unsigned mod = 1; mod <= 4; ++mod)
    for (unsigned mul = 0; mul < 4; ++mul)
      for (unsigned sh = 0; sh < 4; ++sh) {
        Layout lay = [&](const Entity& e) { return (mesh->Index(e) * mul + e.Codim() * sh) % mod; };
        mc::current("dynamic " + s.str() + " variable " + std::to_string(mod) + std::to_string(mul) + std::to_string(sh));
        check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
      }
  // one single entity carries dofs
  for (unsigned cd = 0; cd <= 2; ++cd)
    for (unsigned i = 0; i < mesh->NumEntities(cd); ++i)
      for (unsigned k = 1; k <= 6; ++k) {
        Layout lay = [&](const Entity& e) { return e.Codim() == cd && mesh->Index(e) == i ? k : 0u; };
        mc::current("dynamic " + s.str() + " single " + std::to_string(cd) + "," + std::to_string(i) + "," + std::to_string(k));
        check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
      }
  // every subset of entities carrying one / two dofs on small meshes
  const unsigned n0 = mesh->NumEntities(0), n1 = mesh->NumEntities(1), n2 = mesh->NumEntities(2), n = n0 + n1 + n2;
  if (n <= (mc::thorough ? 12u : 9u))
    for (unsigned b = 0; b < (1u << n); ++b) {
      Layout lay = [&](const Entity& e) {
        const unsigned id = mesh->Index(e) + (e.Codim() > 0 ? n0 : 0) + (e.Codim() > 1 ? n1 : 0);
        return b >> id & 1 ? (e.Codim() == 1 ? 2u : 1u) : 0u;
      };
      mc::current("dynamic " + s.str() + " subset " + std::to_string(b));
      check(lf::assemble::DynamicFEDofHandler(mesh, lay), mesh, lay, true);
    }
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
