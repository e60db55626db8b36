#include "hx.h"
#include "nimble_kokkos_defs.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_material.h"
#include "nimble_material_factory.h"
#include <Kokkos_Core.hpp>
using namespace hx;
using namespace nimble;
static bool is(const char* a, const char* b) { return !strcmp(a, b); }
static double gF[2][9], gV[2][6], gR[2][9];
static int    gcall = 0;
void
se_polar_model(const double* f, double* v, double* r)
{
  // which registered gradient is this?  bitwise comparison of the arguments
  for (int k = 0; k < 2; ++k)
    if (!memcmp(f, gF[k], sizeof gF[k])) {
      ++gcall;
      memcpy(v, gV[k], sizeof gV[k]);
      memcpy(r, gR[k], sizeof gR[k]);
      return;
    }
  se::quit();
}
static MaterialParameters
params(const char* name, double k, double g, double rho)
{
  return MaterialParameters(name, {}, {{"bulk_modulus", k}, {"shear_modulus", g}, {"density", rho}});
}
// every entry point that computes a stress: host, pointwise device, through a device copy
static void
stresses(Material& m, const double* F, double* host, double* dev, int npts)
{
  double Fn[18], Sn[12];
  for (int i = 0; i < 18; ++i) Fn[i] = se::real(se::nm("Fn", i), -5, 5, 0.4 * i - 3);
  for (int i = 0; i < 12; ++i) { Sn[i] = se::real(se::nm("Sn", i), -5, 5, 0.3 * i - 2); host[i] = 77; }
  double tp = se::real("tp", 0, 10, 1), dt = se::real("dt", 0, 10, 1);
  char   dummy[64];
  double sd[2] = {0, 0};
  m.GetStress(7, npts, tp, tp + dt, Fn, F, Sn, host, sd, sd, *(DataManager*)dummy, false);
  nimble_kokkos::DeviceFullTensorIntPtView vn("n", 1), vp("p", 1);
  nimble_kokkos::DeviceSymTensorIntPtView  sn("sn", 1), sp("sp", 1);
  for (int k = 0; k < npts; ++k) {
    for (int i = 0; i < 9; ++i) { vn(0, k, i) = Fn[9 * k + i]; vp(0, k, i) = F[9 * k + i]; }
    for (int i = 0; i < 6; ++i) { sn(0, k, i) = Sn[6 * k + i]; sp(0, k, i) = 55; }
  }
  Material::DeviceElemState a, b;
  for (int k = 0; k < npts; ++k)
    m.GetStress(tp, tp + dt, Kokkos::subview(vn, 0, k, Kokkos::ALL()), Kokkos::subview(vp, 0, k, Kokkos::ALL()), Kokkos::subview(sn, 0, k, Kokkos::ALL()),
                Kokkos::subview(sp, 0, k, Kokkos::ALL()), a, b);
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 6; ++i) dev[6 * k + i] = k < npts ? sp(0, k, i) : 77;
}
static void
moduli(Material& m, double K, double G, double rho)
{
  se::eq("bulk modulus", m.GetBulkModulus(), K, 0);
  se::eq("shear modulus", m.GetShearModulus(), G, 0);
  se::eq("density", m.GetDensity(), rho, 0);
  se::truth("no state variables", m.NumStateVariables() == 0);
}
static void
elastic_tangent(Material& m, double K, double G, double MS)
{
  double C[72];
  for (double& x : C) x = -3;
  m.GetTangent(2, C);
  double l = K - 2.0 * G / 3.0;
  for (int k = 0; k < 2; ++k)
    for (int i = 0; i < 6; ++i)
      for (int j = 0; j < 6; ++j) {
        double r = (i < 3 && j < 3 ? l : 0.0) + (i == j ? (i < 3 ? 2.0 * G : G) : 0.0);
        se::eq(se::nm("tangent entry", k, i, j), C[36 * k + 6 * i + j] / MS, r / MS, 1e-7);
      }
}
// isochoric neo-Hookean law: K/2 (J - 1/J) I + G/J J^(-2/3) dev(b), from b = V V
static void
neo_ref(const M3& V, double K, double G, double* s)
{
  M3     b = mul(V, V);
  double J = det(V), c = std::cbrt(J), tr = b[0][0] + b[1][1] + b[2][2];
  for (int i = 0; i < 3; ++i)
    for (int j = i; j < 3; ++j) s[SI[i][j]] = G * (b[i][j] - (i == j ? tr / 3.0 : 0.0)) / (c * c * J) + (i == j ? 0.5 * K * (J - 1.0 / J) : 0.0);
}
template <class Fac>
static void
factory(const std::string& cs)
{
  double K = se::real("K", 1e-3, 1e4, 123.5), G = se::real("G", 1e-3, 1e4, 45.25), rho = se::real("rho", 1e-3, 1e4, 7.875);
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  std::string      kv[3] = {std::string("bulk_modulus ") + se::text(K), std::string("shear_modulus ") + se::text(G), std::string("density ") + se::text(rho)};
  const int*       p     = perm[se::choice("order", 6)];
  int              ws    = se::choice("spacing", 3);
  std::string      sp    = ws == 0 ? " " : ws == 1 ? "   " : " ";
  const char*      name  = se::choice("model", 2) ? "elastic" : "neohookean";
  std::string      txt   = std::string(ws == 1 ? "  " : "") + name + sp + kv[p[0]] + sp + kv[p[1]] + sp + kv[p[2]] + (ws == 2 ? " " : "");
  int              bad   = se::choice("defect", 5);
  if (bad == 1) {  // a parameter nobody knows, anywhere in the line
    static const char* const unknown[] = {"youngs_modulus", "bulk", "density_scale", "Density", "modulus", "bulk_modulus_", "shear_modulu"};
    std::string              u = unknown[se::choice("unknown name", 7)], q[4];
    int                      at = se::choice("unknown position", 4);
    for (int i = 0, j = 0; i < 4; ++i) q[i] = i == at ? u + " 5.0" : kv[p[j++]];
    txt = std::string(name) + " " + q[0] + " " + q[1] + " " + q[2] + " " + q[3];
  }
  if (bad == 2) txt = std::string(name) + " " + kv[p[0]] + " " + kv[p[1]];     // one is missing
  if (bad == 3) {  // unknown model
    static const char* const unknown[] = {"rubber", "Elastic", "neohookean2", "elasti"};
    txt = std::string(unknown[se::choice("unknown model", 4)]) + txt.substr(txt.find(name) + strlen(name));
  }
  if (bad == 4) txt = txt.substr(0, txt.find_last_not_of(' ') + 1), txt = txt.substr(0, txt.rfind(' '));  // the last value is missing
  Fac  f;
  bool thrown = false;
  if (bad) {
    try { f.parse_and_create(txt); } catch (const std::exception&) { thrown = true; }
    se::truth("a bad material line is refused", thrown);
    if (bad == 1 || bad == 4) {
      thrown = false;
      try { f.parse_material_params_string(txt); } catch (const std::exception&) { thrown = true; }
      se::truth("a bad parameter list is refused", thrown);
    }
    se::reach("refused");
    return;
  }
  f.parse_and_create(txt);
  auto m = f.get_material();
  moduli(*m, K, G, rho);
  if (is(name, "elastic")) se::truth("elastic law chosen", dynamic_cast<ElasticMaterial*>(m.get()) != nullptr);
  else se::truth("neo-Hookean law chosen", dynamic_cast<NeohookeanMaterial*>(m.get()) != nullptr);
  auto mp = f.parse_material_params_string(txt);
  se::truth("three parameters", mp.size() == 3);
  se::eq("map bulk", mp["bulk_modulus"], K, 0);
  se::eq("map shear", mp["shear_modulus"], G, 0);
  se::eq("map density", mp["density"], rho, 0);
  se::reach("created");
}
void
harness(const char* cn)
{
  Kokkos::InitArguments ia;
  ia.disable_warnings = true;
  Kokkos::initialize(ia);
  std::string cs = cn;
  if (!cs.compare(0, 4, "pars")) {
    if (cs == "parse_host") factory<MaterialFactory>(cs);
    else factory<nimble_kokkos::MaterialFactory>(cs);
    return;
  }
  double MS = 1, RS = 1;  // moduli and density in pascals and kg/m^3, or in tiny units
  if (cs.find("_si") != std::string::npos) { MS = std::ldexp(1.0, 30); RS = 1024; }
  if (cs.find("_tiny") != std::string::npos) { MS = std::ldexp(1.0, -30); RS = std::ldexp(1.0, -33); }
  double K = MS * se::real("K", 0.01, 100, 5), G = MS * se::real("G", 0.01, 100, 2), rho = RS * se::real("rho", 0.01, 100, 3);
  double F[18], h[12], d[12];
  if (!cs.compare(0, 7, "elastic")) {
    ElasticMaterial m(params("elastic", K, G, rho));
    moduli(m, K, G, rho);
    M3 f[2] = {sym_m3("F0", -5, 5, 0.5, 0), sym_m3("F1", -5, 5, -0.5, 0)};
    full(f[0], F);
    full(f[1], F + 9);
    stresses(m, F, h, d, 2);
    double C[72], l = K - 2.0 * G / 3.0;
    m.GetTangent(2, C);
    for (int k = 0; k < 2; ++k) {
      double e[6] = {f[k][0][0] - 1, f[k][1][1] - 1, f[k][2][2] - 1, f[k][0][1] + f[k][1][0], f[k][1][2] + f[k][2][1], f[k][2][0] + f[k][0][2]};
      double tr   = e[0] + e[1] + e[2];
      for (int i = 0; i < 6; ++i) {
        double r = i < 3 ? 2.0 * G * e[i] + l * tr : G * e[i], q = 0;
        for (int j = 0; j < 6; ++j) q += C[36 * k + 6 * i + j] * e[j];
        se::eq(se::nm("Hooke's law", k, i), h[6 * k + i] / MS, r / MS, 1e-6);
        se::eq(se::nm("device agrees", k, i), d[6 * k + i] / MS, r / MS, 1e-6);
        se::eq(se::nm("tangent times strain is the stress", k, i), q / MS, h[6 * k + i] / MS, 1e-6);
      }
    }
    elastic_tangent(m, K, G, MS);
    se::reach("elastic");
  } else if (!cs.compare(0, 4, "neo_")) {
    NeohookeanMaterial m(params("neohookean", K, G, rho));
    moduli(m, K, G, rho);
    if (!cs.compare(0, 11, "neo_tangent")) {
      elastic_tangent(m, K, G, MS);
      se::reach("neo");
      return;
    }
    M3  V[2], R[2];
    int np = 2;
    for (int k = 0; k < 2; ++k) {
      bool sq = cs.find("squeeze") != std::string::npos;
      double am = sq ? 0.03 : 0.25;
      V[k] = sym_s3(k ? "V1" : "V0", -am, am);
      for (int i = 0; i < 3; ++i) V[k][i][i] += cs == "neo_large" ? 2.5 : sq ? 0.3 : 1.0;
      if (cs == "neo_identity") { V[k] = ident(); np = 1; }
      R[k] = rotation(k ? "q1" : "q0");
      if (cs == "neo_small") { R[k] = ident(); }
      M3 f = mul(V[k], R[k]);
      full(f, gF[k]);
      symm(V[k], gV[k]);
      full(R[k], gR[k]);
      memcpy(F + 9 * k, gF[k], sizeof gF[k]);
    }
    stresses(m, F, h, d, np);
    for (int k = 0; k < np; ++k) {
      double r[6];
      neo_ref(V[k], K, G, r);
      for (int i = 0; i < 6; ++i) {
        if (cs == "neo_identity") r[i] = 0;
        se::eq(se::nm("stress law", k, i), h[6 * k + i] / MS, r[i] / MS, 1e-6);
        se::eq(se::nm("device agrees", k, i), d[6 * k + i] / MS, h[6 * k + i] / MS, 1e-6);
      }
    }
    se::reach("neo");
  }
}
