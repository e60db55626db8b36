// Quasi-static runs of the application, the assembled tangent, and the sparse linear algebra they rest on.
#include "runbase.h"
#include "fe.h"
#include "nimble_block.h"
#include "nimble_linear_solver.h"
#include "nimble_material_factory.h"
#include "nimble_mesh_utils.h"
#include "nimble_model_data.h"
using namespace nimble;
using namespace runbase;
namespace Kokkos {
void
initialize(int& argc, char* argv[])
{
  static int kk = 0;
  if (kk++) return;
  typedef void (*F)(int&, char**);
  F f = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
  f(argc, argv);
}
void finalize() {}
}  // namespace Kokkos
namespace {
const char* XYZ[3] = {"x", "y", "z"};
const char* SY[6] = {"xx", "yy", "zz", "xy", "yz", "zx"};
const int   SYI[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
const char* FU[9] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
const int   FUI[9][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}, {1, 0}, {2, 1}, {0, 2}};
typedef std::vector<double> V;
// a bar of n elements along z; block of each element given; wob: displaced nodes
struct Bar
{
  Hex              h;
  fe::Model        m;
  std::vector<int> ids;
  std::map<int, std::vector<int>> of;  // elements of a block
  Bar(const std::vector<int>& blocks, double wob)
  {
    int L = (int)blocks.size();
    m.nn = 0;
    for (int k = 0; k <= L; ++k)
      for (int j = 0; j < 2; ++j)
        for (int i = 0; i < 2; ++i) {
          int    id = m.nn++;
          double x[3] = {1.0 * i + wob * std::sin(1.0 + 5 * id), 1.0 * j + wob * std::sin(2.0 + 7 * id), 1.0 * k + wob * std::sin(3.0 + 11 * id)};
          h.node(x[0], x[1], x[2]);
          for (double v : x) m.X.push_back(v);
        }
    for (int b : blocks) if (!of.count(b)) { ids.push_back(b); h.block(b); of[b]; }
    for (int b : ids)
      for (int e = 0; e < L; ++e)
        if (blocks[e] == b) {
          std::vector<int> c = {4 * e, 4 * e + 1, 4 * e + 3, 4 * e + 2, 4 * e + 4, 4 * e + 5, 4 * e + 7, 4 * e + 6};
          h.elem(b, c);
          fe::Elem E;
          E.block = b;
          for (int a = 0; a < 8; ++a) E.n[a] = c[a];
          of[b].push_back((int)m.el.size());
          m.el.push_back(E);
        }
  }
};
// the fields stored at output s against the reference model at the stored displacements
V
stored(exosim::File& o, Bar& b, int s, const V* forced = nullptr)
{
  int N = b.m.nn;
  V   u(3 * N, 0.0);
  for (int c = 0; c < 3; ++c) {
    auto* p = o.nodal(s, std::string("displacement_") + XYZ[c]);
    se::truth("displacements are stored", p && (int)p->size() == N);
    if (!p || (int)p->size() != N) return V();
    for (int i = 0; i < N; ++i) u[3 * i + c] = (*p)[i];
  }
  V f = b.m.force(u);
  for (int c = 0; c < 3; ++c) {
    auto* p = o.nodal(s, std::string("internal_force_") + XYZ[c]);
    se::truth("internal forces are stored", p && (int)p->size() == N);
    if (p) for (int i = 0; i < N; ++i) se::eq(se::nm("internal force", s, i, c), (*p)[i], f[3 * i + c]);
  }
  for (int id : b.ids)
    for (size_t j = 0; j < b.of[id].size(); ++j) {
      int  e = b.of[id][j];
      auto el = [&](const std::string& name) {
        auto* p = o.elem(s, name, id);
        se::truth(("output of " + name).c_str(), p && p->size() == b.of[id].size());
        return p ? (*p)[j] : 0.0;
      };
      se::eq(se::nm("volume", s, e), el("volume"), b.m.vol[e]);
      for (int k = 0; k < 6; ++k) {
        double a = 0;
        for (auto& p : b.m.pts[e]) a += p.w * p.S[SYI[k][0]][SYI[k][1]];
        se::eq((std::string("volume average of stress ") + SY[k] + se::nm("", s, e)).c_str(), el(std::string("stress_") + SY[k]) * b.m.vol[e], a);
        se::eq((std::string("stress at point 3 ") + SY[k] + se::nm("", s, e)).c_str(), el(std::string("ipt03_stress_") + SY[k]), b.m.pts[e][2].S[SYI[k][0]][SYI[k][1]]);
      }
      for (int k = 0; k < 9; ++k) {
        double a = 0;
        for (auto& p : b.m.pts[e]) a += p.w * p.F[FUI[k][0]][FUI[k][1]];
        se::eq((std::string("volume average of F ") + FU[k] + se::nm("", s, e)).c_str(), el(std::string("deformation_gradient_") + FU[k]) * b.m.vol[e], a);
        se::eq((std::string("F at point 6 ") + FU[k] + se::nm("", s, e)).c_str(), el(std::string("ipt06_deformation_gradient_") + FU[k]), b.m.pts[e][5].F[FUI[k][0]][FUI[k][1]]);
      }
    }
  return u;
}
Deck
base(int steps, double tend)
{
  Deck d;
  d("genesis input file", "m.g")("exodus output file", "o.e")("time integration scheme", "quasistatic")("final time", tend).num("number of load steps", steps);
  d("output fields", "volume displacement velocity internal_force deformation_gradient stress ipt03_stress ipt06_deformation_gradient");
  return d;
}
void
materials(Deck& d, Bar& b, bool sym, double scale = 1)
{
  int k = 0;
  for (int id : b.ids) {
    fe::Mat& m = b.m.mat[id];
    m.rho = 1.2 + 0.3 * k;
    m.K   = sym ? se::real(se::nm("K", id), 1, 3, 2.1 - 0.4 * k) : 2.1 - 0.4 * k;
    m.G   = sym ? se::real(se::nm("G", id), 0.3, 1.5, 0.8) : 0.8 + 0.1 * k;
    if (scale != 1) { m.K *= scale; m.G *= scale; }
    d("material parameters", "mat" + std::to_string(id) + " elastic density " + se::text(m.rho) + " bulk_modulus " + se::text(m.K) + " shear_modulus " + se::text(m.G));
    d("element block", "block_" + std::to_string(id) + " mat" + std::to_string(id));
    ++k;
  }
}
int
go(Bar& b, Deck& d)
{
  exosim::file("m.g") = b.h.f;
  NimbleApplication app;
  Quiet q;
  return run(app, d.file());
}
// every node moves as prescribed: no equilibrium to find, all stored fields follow from the prescription
void
prescribed(int nsym, bool two)
{
  exosim::reset();
  Bar    b(two ? std::vector<int>{4, 9} : std::vector<int>{4}, 0.12);
  int    N = b.m.nn;
  double dt = 0.5;
  Deck   d = base(2, 2 * dt);
  materials(d, b, !two);
  V a(3 * N);
  for (int i = 0; i < N; ++i) {
    b.h.nset(100 + i, "", {i});
    for (int c = 0; c < 3; ++c) {
      int  q = 3 * i + c;
      bool sym = (q * 7 + 3) % (3 * N) < nsym;
      a[q] = sym ? se::real(se::nm("a", i, c), -0.2, 0.2, 0.1 * std::sin(1.0 + q)) : 0.1 * std::cos(2.0 * q);
      std::string to = " nodelist_" + std::to_string(100 + i) + " " + XYZ[c] + " ";
      // displacement a t; for every third unknown as a velocity
      if (q % 3 == 1) d("boundary condition", "prescribed_velocity" + to + se::text(a[q]));
      else d("boundary condition", "prescribed_displacement" + to + "\"t * " + se::text(a[q]) + "\"");
    }
  }
  int rc = go(b, d);
  se::truth("the run ends normally", rc == 0);
  exosim::File& o = exosim::file("o.out.e");
  se::truth("one output per step and one at the start", o.times.size() == 3);
  if (rc || o.times.size() != 3) return;
  for (int s = 1; s < 3; ++s) {
    se::eq("time", o.times[s + 1], s * dt, 1e-12);
    V u = stored(o, b, s);
    for (size_t q = 0; q < u.size(); ++q) se::eq(se::nm("displacement", s, (int)q), u[q], a[q] * s * dt, 1e-12);
    for (int c = 0; c < 3; ++c) {
      auto* v = o.nodal(s, std::string("velocity_") + XYZ[c]);
      se::truth("velocities are stored", v && (int)v->size() == N);
      if (v) for (int i = 0; i < N; ++i) se::eq(se::nm("velocity", s, i, c), (*v)[i], a[3 * i + c], 1e-12);
    }
  }
  for (int c = 0; c < 3; ++c) {
    auto* p = o.nodal(0, std::string("displacement_") + XYZ[c]);
    se::truth("the start is stored", p);
    if (p) for (double x : *p) se::eq("nothing has moved at the start", x, 0.0);
  }
  se::reach("prescribed");
}
// forces, stresses and the like at the displacements u with the element and material of the code (their own correctness: E02, E03, E05, M01)
struct Lib
{
  V f;
  std::map<int, std::vector<double>> F, S;  // of element e: 8x9, 8x6
};
Lib
by_code(Bar& b, const V& u)
{
  Lib r;
  r.f.assign(3 * b.m.nn, 0.0);
  HexElement h;
  for (size_t e = 0; e < b.m.el.size(); ++e) {
    double X[24], x[24], F0[72], S0[48] = {0}, fo[24];
    auto&  E = b.m.el[e];
    for (int a = 0; a < 8; ++a) for (int c = 0; c < 3; ++c) { X[3 * a + c] = b.m.X[3 * E.n[a] + c]; x[3 * a + c] = b.m.X[3 * E.n[a] + c] + u[3 * E.n[a] + c]; }
    auto& F = r.F[(int)e]; auto& S = r.S[(int)e];
    F.resize(72); S.resize(48);
    h.ComputeDeformationGradients(X, x, F.data());
    MaterialParameters p("elastic", {}, {{"bulk_modulus", b.m.mat[E.block].K}, {"shear_modulus", b.m.mat[E.block].G}, {"density", b.m.mat[E.block].rho}});
    ElasticMaterial    m(p);
    m.GetStress(0, 8, 0.0, 1.0, F0, F.data(), S0, S.data(), nullptr, nullptr, *(DataManager*)nullptr, false);
    h.ComputeNodalForces(x, S.data(), fo);
    for (int a = 0; a < 8; ++a) for (int c = 0; c < 3; ++c) r.f[3 * E.n[a] + c] += fo[3 * a + c];
  }
  return r;
}
// a skew bar pulled at one end: some unknowns are free
void
pulled(int nfree, double tol, int maxit, bool two, double lo = 0.1, double hi = 0.12, double scale = 1)
{
  exosim::reset();
  Bar  b(two ? std::vector<int>{4, 9} : std::vector<int>{4}, 0.12);
  int  N = b.m.nn;
  Deck d = base(1, 1.0);
  d("nonlinear solver relative tolerance", tol).num("nonlinear solver maximum iterations", maxit);
  materials(d, b, false, scale);
  double len = se::real("d", lo, hi, lo + 0.65 * (hi - lo));
  // free unknowns: nodes 4.., z first
  std::vector<int> free;
  for (int c : {2, 0, 1}) for (int i = 4; i < 8 && (int)free.size() < nfree; ++i) free.push_back(3 * i + c);
  std::vector<bool> fr(3 * N, false);
  for (int q : free) fr[q] = true;
  V a(3 * N, 0.0);
  for (int i = 0; i < N; ++i) {
    b.h.nset(100 + i, "", {i});
    for (int c = 0; c < 3; ++c)
      if (!fr[3 * i + c]) {
        bool pull = i >= N - 4 && c == 2;
        if (pull) a[3 * i + c] = len;
        d("boundary condition", "prescribed_displacement nodelist_" + std::to_string(100 + i) + " " + XYZ[c] + " " + (pull ? se::text(len) : "0.0"));
      }
  }
  int rc = go(b, d);
  exosim::File& o = exosim::file("o.out.e");
  if (rc) {
    se::truth("no state is stored for a step that failed", o.times.size() == 1);
    se::reach("failed");
    return;
  }
  se::truth("one output per step and one at the start", o.times.size() == 2);
  if (o.times.size() != 2) return;
  V u(3 * N);
  for (int c = 0; c < 3; ++c) {
    auto* p = o.nodal(1, std::string("displacement_") + XYZ[c]);
    se::truth("displacements are stored", p && (int)p->size() == N);
    if (!p || (int)p->size() != N) return;
    for (int i = 0; i < N; ++i) u[3 * i + c] = (*p)[i];
  }
  Lib now = by_code(b, u);
  for (int c = 0; c < 3; ++c) {
    auto* p = o.nodal(1, std::string("internal_force_") + XYZ[c]);
    se::truth("internal forces are stored", p && (int)p->size() == N);
    if (p) for (int i = 0; i < N; ++i) se::eq(se::nm("internal force at the stored displacements", i, c), (*p)[i], now.f[3 * i + c], 1e-12 * scale);
  }
  for (int id : b.ids)
    for (size_t j = 0; j < b.of[id].size(); ++j) {
      int e = b.of[id][j];
      for (int k = 0; k < 6; ++k) {
        auto* p = o.elem(1, std::string("ipt03_stress_") + SY[k], id);
        se::truth("stresses are stored", p && j < p->size());
        if (p) se::eq((std::string("stress at the stored displacements ") + SY[k]).c_str(), (*p)[j], now.S[e][12 + k], 1e-12 * scale);
      }
      for (int k = 0; k < 9; ++k) {
        auto* p = o.elem(1, std::string("ipt06_deformation_gradient_") + FU[k], id);
        se::truth("deformation gradients are stored", p && j < p->size());
        if (p) se::eq((std::string("deformation gradient at the stored displacements ") + FU[k]).c_str(), (*p)[j], now.F[e][45 + k], 1e-12);
      }
    }
  for (int q = 0; q < 3 * N; ++q) if (!fr[q]) se::eq(se::nm("prescribed displacement", q), u[q], a[q], 1e-12);
  auto norm = [&](const V& f0) {
    double s = 0, m = 0;
    V f = f0;
    for (double& x : f) x = 0.0 + -1.0 * x;
    for (int q = 0; q < 3 * N; ++q) if (fr[q]) { s += f[q] * f[q]; m = std::max(m, std::abs(f[q])); }
    return std::sqrt(s) + 20 * m;
  };
  double r0 = norm(by_code(b, a).f), r1 = norm(now.f);
  se::le("out-of-balance force is within the tolerance", r1 / r0, tol);
  se::reach("converged");
}
}  // namespace
void
harness(const char* c)
{
  std::string n = c;
  if (n == "prescribed1") prescribed(6, false);
  if (n == "prescribed2") prescribed(6, true);
  if (n == "pulled2") pulled(2, 0.05, 3, false);
  if (n == "pulled2far") pulled(2, 0.9, 2, false, 1.48, 1.52);
  if (n == "pulled2push") pulled(2, 0.05, 3, false, -0.32, -0.3);
  if (n == "pulled3") pulled(3, 0.01, 3, true, 0.2, 0.21);
  if (n == "pulled4") pulled(4, 0.05, 3, true, 0.11, 0.113);
  if (n == "pulled6") pulled(6, 0.05, 3, true, 0.11, 0.111);
  if (n == "pulled2soft") pulled(2, 0.05, 3, false, 0.1, 0.12, 1e-7);
  if (n == "pulled3stiff") pulled(3, 0.01, 3, true, 0.2, 0.21, 1e9);
  if (n == "pulled2fail") pulled(2, 1e-4, 1, false);
}
