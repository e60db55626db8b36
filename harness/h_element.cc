#include "hx.h"
#include "nimble_defs.h"
#include "nimble_kokkos_defs.h"
#include "nimble_element.h"
#include "nimble_utils.h"
#include <Kokkos_Core.hpp>
using namespace hx;
static bool is(const char* a, const char* b) { return !strcmp(a, b); }
static const double CUBE[24] = {-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -1, 1, 1};
static const double SKEW[24] = {0, 0, 0, 2.0, 0.3, 0.1, 2.2, 1.6, -0.2, 0.1, 1.4, 0.2, 0.4, 0.1, 1.1, 2.3, 0.2, 1.3, 2.5, 1.7, 1.2, 0.5, 1.5, 1.4};
static const double FLAT[24] = {0, 0, 0, 0.5, 0, 0, 0.5, 3, 0, 0, 3, 0, 0, 0, 1.5, 0.5, 0, 1.5, 0.5, 3, 1.5, 0, 3, 1.5};
static const double TAPER[24] = {-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -0.2, 0.2, 0.2};
static const double TWIST[24] = {-1, -1.2, -1, 1.3, -1, -0.8, 1.1, 1, -1, -0.9, 1.1, -1.2, -0.4, -0.9, 2, 0.7, -0.2, 2.2, 0.3, 0.8, 1.9, -0.8, 0.2, 2.1};
static const double PLATE[24] = {100, 40, 7, 120, 41, 7.02, 121, 52, 6.98, 99, 53, 7.01, 100.2, 40.1, 7.3, 120.1, 40.8, 7.33, 121.3, 52.2, 7.27, 98.8, 53.1, 7.31};
static const double* BASE[6] = {CUBE, SKEW, FLAT, TAPER, TWIST, PLATE};
// natural coordinates of the nodes (documented Q1 numbering)
static const int NS[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};

// units: lengths, densities and stresses in small or large units (powers of two)
static double U = 1, RS = 1, SS = 1;
static void hex(double* x, int shape, double amp, double trans)
{
  static const double sd[7] = {0.3, -0.6, 0.8, -0.2, 0.5, -0.9, 0.1};
  double t[3] = {0, 0, 0};
  if (shape == 5) amp *= 0.2;
  if (shape == 3) amp *= 0.6;
  if (trans > 0)
    for (int d = 0; d < 3; ++d) t[d] = se::real(se::nm("t", d), -trans, trans, trans * 0.1 * (d - 1));
  for (int i = 0; i < 24; ++i) x[i] = BASE[shape][i] + (amp > 0 ? se::real(se::nm("p", i), -amp, amp, amp * sd[i % 7]) : 0.0) + t[i % 3];
  for (int i = 0; i < 24; ++i) x[i] = x[i] * U;
}
// int_{[-1,1]^3} det[a b c] of three trilinear fields given by nodal values, in closed form
static double vol3(const double* a, const double* b, const double* c)
{
  // modal coefficients: 1, r, s, t, rs, st, tr, rst
  auto modal = [](const double* f, double* m) {
    for (int k = 0; k < 8; ++k) m[k] = 0;
    for (int n = 0; n < 8; ++n) {
      double r = NS[n][0], s = NS[n][1], t = NS[n][2], v = f[n] / 8.0;
      double b8[8] = {1, r, s, t, r * s, s * t, t * r, r * s * t};
      for (int k = 0; k < 8; ++k) m[k] += v * b8[k];
    }
  };
  double A[8], B[8], C[8];
  modal(a, A);
  modal(b, B);
  modal(c, C);
  // derivative polynomials as (er,es,et)->coefficient, exponents 0..1
  struct Pl { double c[2][2][2]; };
  auto grad = [](const double* m, Pl* g) {
    for (int d = 0; d < 3; ++d) for (auto& x : g[d].c) for (auto& y : x) for (auto& z : y) z = 0;
    g[0].c[0][0][0] = m[1]; g[0].c[0][1][0] = m[4]; g[0].c[0][0][1] = m[6]; g[0].c[0][1][1] = m[7];
    g[1].c[0][0][0] = m[2]; g[1].c[1][0][0] = m[4]; g[1].c[0][0][1] = m[5]; g[1].c[1][0][1] = m[7];
    g[2].c[0][0][0] = m[3]; g[2].c[0][1][0] = m[5]; g[2].c[1][0][0] = m[6]; g[2].c[1][1][0] = m[7];
  };
  Pl ga[3], gb[3], gc[3];
  grad(A, ga);
  grad(B, gb);
  grad(C, gc);
  static const int per[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
  double v = 0;
  for (int p = 0; p < 6; ++p) {
    Pl &x = ga[per[p][0]], &y = gb[per[p][1]], &z = gc[per[p][2]];
    double s = 0;
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int k = 0; k < 8; ++k) {
      int e0 = (i & 1) + (j & 1) + (k & 1), e1 = (i >> 1 & 1) + (j >> 1 & 1) + (k >> 1 & 1), e2 = (i >> 2) + (j >> 2) + (k >> 2);
      if (e0 & 1 || e1 & 1 || e2 & 1) continue;
      double q = x.c[i & 1][i >> 1 & 1][i >> 2] * y.c[j & 1][j >> 1 & 1][j >> 2] * z.c[k & 1][k >> 1 & 1][k >> 2];
      s += q * (8.0 / ((e0 + 1) * (e1 + 1) * (e2 + 1)));
    }
    v += p < 3 ? s : -s;
  }
  return v;
}
static double exact_volume(const double* x)
{
  double a[3][8];
  for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) a[d][n] = x[3 * n + d];
  return vol3(a[0], a[1], a[2]);
}
static nimble_kokkos::DeviceVectorNodeGatheredSubView vec8(const double* x)
{
  nimble_kokkos::DeviceVectorNodeGatheredView g("g", 1);
  auto s = Kokkos::subview(g, 0, Kokkos::ALL, Kokkos::ALL);
  for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) s(n, d) = x ? x[3 * n + d] : 0.0;
  return s;
}
// weight of integration point k in the element: average of an indicator times the volume
static double weights(nimble::HexElement& e, const double* x, double* w)
{
  double q[64], avg[8], vol = -1;
  for (int k = 0; k < 8; ++k) for (int i = 0; i < 8; ++i) q[8 * k + i] = k == i;
  e.ComputeVolumeAverage(x, 8, q, vol, avg);
  for (int k = 0; k < 8; ++k) w[k] = avg[k] * vol;
  return vol;
}

void harness(const char* c)
{
  static bool init = false;
  if (!init) {
    Kokkos::initialize();
    init = true;
  }
  nimble::HexElement e;
  std::string        cs(c);
  int                shape = 0;
  if (cs.find("skew") != std::string::npos) shape = 1;
  if (cs.find("flat") != std::string::npos) shape = 2;
  if (cs.find("taper") != std::string::npos) shape = 3;
  if (cs.find("twist") != std::string::npos) shape = 4;
  if (cs.find("plate") != std::string::npos) shape = 5;
  U = RS = SS = 1;
  if (cs.find("small") != std::string::npos) { U = std::ldexp(1.0, -14); RS = std::ldexp(1.0, 13); SS = std::ldexp(1.0, 34); }
  if (cs.find("large") != std::string::npos) { U = std::ldexp(1.0, 11); RS = std::ldexp(1.0, -33); SS = std::ldexp(1.0, -20); }
  if (!cs.compare(0, 6, "volavg")) SS = std::ldexp(1.0, cs.find("small") != std::string::npos ? -8 : 0);
  const double V = U * U * U;
  double x[24];
  if (!cs.compare(0, 4, "mass")) {
    hex(x, shape, 0.15, 100);
    double rho = RS * se::real("rho", 0.01, 100, 2.5), m[8], s = 0;
    for (auto& v : m) v = -7;
    e.ComputeLumpedMass(rho, x, m);
    for (double v : m) s += v;
    se::eq("total mass = density * volume", s / (V * RS), rho * exact_volume(x) / (V * RS), 1e-7);
    for (int n = 0; n < 8; ++n) se::lt(se::nm("nodal mass positive", n), 0.0, m[n] / (rho * V));
    nimble_kokkos::DeviceScalarNodeGatheredView lv("l", 1);
    auto ls = Kokkos::subview(lv, 0, Kokkos::ALL);
    e.ComputeLumpedMass(rho, vec8(x), ls);
    for (int n = 0; n < 8; ++n) se::eq(se::nm("device variant agrees", n), ls(n) / (V * RS), m[n] / (V * RS), 1e-7);
    double r2 = RS * se::real("rho2", 0.01, 100, 1.5), m2[8];
    e.ComputeLumpedMass(r2, x, m2);
    for (int n = 0; n < 8; ++n) se::eq(se::nm("proportional to density", n), m2[n] * rho / (V * RS * RS), m[n] * r2 / (V * RS * RS), 1e-6);
    se::reach("mass");
  } else if (!cs.compare(0, 5, "brick")) {
    // rectangular brick: the lumped mass is split evenly
    double L[3], rho = RS * se::real("rho", 0.01, 100, 2.5), t[3], m[8];
    for (int d = 0; d < 3; ++d) { L[d] = se::real(se::nm("L", d), 0.01, 100, 1.0 + d); t[d] = se::real(se::nm("t", d), -100, 100, d); }
    for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) x[3 * n + d] = U * (t[d] + (NS[n][d] > 0 ? L[d] : 0.0));
    e.ComputeLumpedMass(rho, x, m);
    for (int n = 0; n < 8; ++n) se::eq(se::nm("eighth of the mass", n), 8.0 * m[n] / (V * RS), rho / RS * L[0] * L[1] * L[2], 1e-3);
    se::reach("brick");
  } else if (!cs.compare(0, 7, "defgrad")) {
    hex(x, shape, 0.1, 10);
    M3     A = sym_m3("A", -0.5, 0.5, 0, 1.0);
    double b[3], cur[24], F[72], u[24];
    for (int d = 0; d < 3; ++d) b[d] = U * se::real(se::nm("b", d), -10, 10, 0.7 * d);
    for (int n = 0; n < 8; ++n)
      for (int i = 0; i < 3; ++i) cur[3 * n + i] = A[i][0] * x[3 * n] + A[i][1] * x[3 * n + 1] + A[i][2] * x[3 * n + 2] + b[i];
    for (int i = 0; i < 24; ++i) u[i] = cur[i] - x[i];
    for (auto& v : F) v = -9;
    e.ComputeDeformationGradients(x, cur, F);
    nimble_kokkos::DeviceFullTensorIntPtView fv("f", 1);
    auto fs = Kokkos::subview(fv, 0, Kokkos::ALL, Kokkos::ALL);
    e.ComputeDeformationGradients(vec8(x), vec8(u), fs);
    for (int k = 0; k < 8; ++k) {
      M3 G = unfull(F + 9 * k);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
          se::eq(se::nm("affine motion gives its gradient", k, i, j), G[i][j], A[i][j], 1e-7);
          se::eq(se::nm("device variant agrees", k, i, j), fs(k, FI[i][j]), G[i][j], 1e-7);
        }
    }
    se::reach("defgrad");
  } else if (!cs.compare(0, 10, "compose_dg")) {
    // general (non-affine) motions: F(X->y) = F(x->y) F(X->x) at every integration point
    hex(x, shape, 0.0, 0);
    double y[24], z[24], F1[72], F2[72], F3[72];
    M3     A = sym_m3("A", -0.1, 0.1, 0, 1.0);
    for (int n = 0; n < 8; ++n)
      for (int d = 0; d < 3; ++d) y[3 * n + d] = A[d][0] * x[3 * n] + A[d][1] * x[3 * n + 1] + A[d][2] * x[3 * n + 2];
    y[0] = y[0] + U * se::real("h0", -0.2, 0.2, 0.1);
    y[20] = y[20] + U * se::real("h1", -0.2, 0.2, -0.1);
    for (int i = 0; i < 24; ++i) z[i] = y[i] + U * se::real(se::nm("w", i), -0.3, 0.3, 0.02 * (i % 5 - 2));
    e.ComputeDeformationGradients(x, y, F1);
    e.ComputeDeformationGradients(y, z, F2);
    e.ComputeDeformationGradients(x, z, F3);
    for (int k = 0; k < 8; ++k) {
      M3 P = mul(unfull(F2 + 9 * k), unfull(F1 + 9 * k)), Q = unfull(F3 + 9 * k);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) se::eq(se::nm("motions compose", k, i, j), P[i][j], Q[i][j], 1e-6);
    }
    se::reach("compose");
  } else if (!cs.compare(0, 6, "forces")) {
    hex(x, shape, 0.1, 10);
    double s[48], f[24];
    for (int i = 0; i < 48; ++i) s[i] = SS * se::real(se::nm("s", i), -10, 10, 1.0 + 0.3 * (i % 11));
    for (auto& v : f) v = 3;
    e.ComputeNodalForces(x, s, f);
    for (int d = 0; d < 3; ++d) {
      double r = 0;
      for (int n = 0; n < 8; ++n) r += f[3 * n + d];
      se::eq(se::nm("resultant force zero", d), r / (SS * U * U), 0.0, 1e-7);
    }
    for (int d = 0; d < 3; ++d) {
      int    i = (d + 1) % 3, j = (d + 2) % 3;
      double r = 0;
      for (int n = 0; n < 8; ++n) r += (x[3 * n + i] - x[i]) * f[3 * n + j] - (x[3 * n + j] - x[j]) * f[3 * n + i];
      se::eq(se::nm("resultant moment zero", d), r / (SS * V), 0.0, 1e-6);
    }
    // device variant with coordinates split into reference + displacement
    double X[24], u[24];
    for (int i = 0; i < 24; ++i) { u[i] = U * se::real(se::nm("u", i), -5, 5, 0.1 * (i % 4)); X[i] = x[i] - u[i]; }
    nimble_kokkos::DeviceSymTensorIntPtView sv("s", 1);
    auto ss = Kokkos::subview(sv, 0, Kokkos::ALL, Kokkos::ALL);
    for (int k = 0; k < 8; ++k) for (int i = 0; i < 6; ++i) ss(k, i) = s[6 * k + i];
    auto fo = vec8(nullptr);
    e.ComputeNodalForces(vec8(X), vec8(u), ss, fo);
    for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) se::eq(se::nm("device variant agrees", n, d), fo(n, d) / (SS * U * U), f[3 * n + d] / (SS * U * U), 1e-6);
    se::reach("forces");
  } else if (!cs.compare(0, 5, "patch")) {
    // uniform stress: the exact nodal force is -sigma . dV/dx_n
    hex(x, shape, 0.1, 0);
    double s[48], f[24], S[6];
    for (int i = 0; i < 6; ++i) S[i] = SS * se::real(se::nm("s", i), -10, 10, 1.0 + i);
    for (int i = 0; i < 48; ++i) s[i] = S[i % 6];
    e.ComputeNodalForces(x, s, f);
    double co[3][8];
    for (int n = 0; n < 8; ++n) for (int d = 0; d < 3; ++d) co[d][n] = x[3 * n + d];
    for (int n = 0; n < 8; ++n) {
      double un[8] = {0, 0, 0, 0, 0, 0, 0, 0};
      un[n] = 1;
      double g[3] = {vol3(un, co[1], co[2]), vol3(co[0], un, co[2]), vol3(co[0], co[1], un)};
      for (int i = 0; i < 3; ++i) {
        double r = 0;
        for (int j = 0; j < 3; ++j) r -= S[SI[i][j]] * g[j];
        se::eq(se::nm("uniform stress patch", n, i), f[3 * n + i] / (SS * U * U), r / (SS * U * U), 1e-6);
      }
    }
    se::reach("patch");
  } else if (!cs.compare(0, 5, "power")) {
    // power of the nodal forces = stress power of the velocity gradient seen by the deformation gradient
    hex(x, shape, shape == 0 ? 0.1 : 0.0, 0);
    double s[48], f[24], v[24], y[24], F[72], w[8];
    for (int i = 0; i < 48; ++i) s[i] = SS * se::real(se::nm("s", i), -10, 10, 1.0 + 0.3 * (i % 11));
    for (int i = 0; i < 24; ++i) { v[i] = U * se::real(se::nm("v", i), -1, 1, 0.2 * (i % 5 - 2)); y[i] = x[i] + v[i]; }
    e.ComputeNodalForces(x, s, f);
    e.ComputeDeformationGradients(x, y, F);
    weights(e, x, w);
    // the power is linear in v: one obligation per velocity component keeps the terms apart
    double p = 0, q = 0;
    for (int i = 0; i < 24; ++i) p += f[i] * v[i];
    for (int k = 0; k < 8; ++k) {
      M3 G = unfull(F + 9 * k), T = unsym(s + 6 * k);
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q -= w[k] * T[i][j] * (G[i][j] - (i == j));
    }
    se::eq("nodal power = stress power", p / (SS * V), q / (SS * V), 1e-5);
    se::reach("power");
  } else if (!cs.compare(0, 7, "tangent")) {
    // x = A X0 for every A near a few shapes; K u = -f(stress = D : strain(u)); all D, all u
    bool   aff = cs.find("aff") != std::string::npos;
    double X0[24], D[288], K[576], u[24], y[24], F[72], s[48], f[24];
    hex(X0, shape, 0, 0);
    if (aff) {
      M3 A = sym_m3("A", -0.2, 0.2, 0, 1.0);
      for (int n = 0; n < 8; ++n) for (int i = 0; i < 3; ++i) x[3 * n + i] = A[i][0] * X0[3 * n] + A[i][1] * X0[3 * n + 1] + A[i][2] * X0[3 * n + 2];
    } else
      for (int i = 0; i < 24; ++i) x[i] = X0[i] + U * 0.07 * ((i * 5) % 7 - 3) / 3.0;
    bool one = aff;  // one material tangent for all points, or one per point
    for (int k = 0; k < 8; ++k)
      for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) D[36 * k + 6 * i + j] = SS * se::real(se::nm(one ? "D" : se::nm("D", k), std::min(i, j), std::max(i, j)), -10, 10, 1.0 + (i == j) * 3 + 0.1 * k);
    for (int i = 0; i < 24; ++i) { u[i] = U * se::real(se::nm("u", i), -1, 1, 0.2 * (i % 5 - 2)); y[i] = x[i] + u[i]; }
    for (auto& v : K) v = 5;
    e.ComputeTangent(x, D, K);
    if (cs.find("sym") != std::string::npos) {
      for (int i = 0; i < 24; ++i) for (int j = 0; j < i; ++j) se::eq(se::nm("tangent symmetric", i, j), K[24 * i + j] / (SS * U), K[24 * j + i] / (SS * U), 1e-6);
      for (int i = 0; i < 24; ++i)
        for (int d = 0; d < 3; ++d) {
          double r = 0, m = 0;
          int    a = (d + 1) % 3, b = (d + 2) % 3;
          for (int n = 0; n < 8; ++n) {
            r += K[24 * i + 3 * n + d];
            m += K[24 * i + 3 * n + b] * x[3 * n + a] - K[24 * i + 3 * n + a] * x[3 * n + b];
          }
          se::eq(se::nm("no stiffness against translation", i, d), r / (SS * U), 0.0, 1e-6);
          se::eq(se::nm("no stiffness against rotation", i, d), m / (SS * U * U), 0.0, 1e-6);
        }
    } else {
      e.ComputeDeformationGradients(x, y, F);
      for (int k = 0; k < 8; ++k) {
        M3     G     = unfull(F + 9 * k);
        double ep[6] = {G[0][0] - 1, G[1][1] - 1, G[2][2] - 1, G[0][1] + G[1][0], G[1][2] + G[2][1], G[2][0] + G[0][2]};
        for (int i = 0; i < 6; ++i) {
          s[6 * k + i] = 0;
          for (int j = 0; j < 6; ++j) s[6 * k + i] += D[36 * k + 6 * i + j] * ep[j];
        }
      }
      e.ComputeNodalForces(x, s, f);
      for (int i = 0; i < 24; ++i) {
        double r = 0;
        for (int j = 0; j < 24; ++j) r += K[24 * i + j] * u[j];
        se::eq(se::nm("K u + f(D:strain(u)) = 0", i), r / (SS * U * U), -f[i] / (SS * U * U), 1e-5);
      }
    }
    se::reach("tangent");
  } else if (!cs.compare(0, 6, "volavg")) {
    hex(x, shape, 0.1, 10);
    double q[72], vol = -1, avg[9], w[8], c0 = SS * se::real("c", -10, 10, 3), qc[8], ac[1], v2 = -1;
    for (int i = 0; i < 72; ++i) q[i] = SS * se::real(se::nm("q", i), -10, 10, 0.3 * (i % 13));
    e.ComputeVolumeAverage(x, 9, q, vol, avg);
    se::eq("volume", vol / V, exact_volume(x) / V, 1e-7);
    for (double& v : qc) v = c0;
    e.ComputeVolumeAverage(x, 1, qc, v2, ac);
    se::eq("average of a constant", ac[0] / SS, c0 / SS, 1e-7);
    se::eq("volume does not depend on the quantity", v2 / V, vol / V, 1e-7);
    double wv = weights(e, x, w), sw = 0;
    for (int k = 0; k < 8; ++k) { se::lt(se::nm("weight positive", k), 0.0, w[k] / V); sw += w[k]; }
    se::eq("weights sum to volume", sw / V, wv / V, 1e-7);
    for (int i = 0; i < 9; ++i) {
      double r = 0;
      for (int k = 0; k < 8; ++k) r += w[k] * q[9 * k + i];
      se::eq(se::nm("weighted mean of the points", i), avg[i] * vol / (SS * V), r / (SS * V), 1e-6);
    }
    // device variants, coordinates split into reference + displacement
    double X[24], u[24];
    for (int i = 0; i < 24; ++i) { u[i] = U * se::real(se::nm("u", i), -5, 5, 0.1 * (i % 4)); X[i] = x[i] - u[i]; }
    nimble_kokkos::DeviceScalarElemView ev("v", 1);
    auto es = Kokkos::subview(ev, 0);
    e.ComputeVolume(vec8(X), vec8(u), es);
    se::eq("device volume agrees", ev(0) / V, vol / V, 1e-6);
    nimble_kokkos::DeviceFullTensorIntPtView  qf("q", 1);
    nimble_kokkos::DeviceSymTensorIntPtView   qs("q", 1);
    nimble_kokkos::DeviceFullTensorElemView   of("o", 1);
    nimble_kokkos::DeviceSymTensorElemView    os("o", 1);
    for (int k = 0; k < 8; ++k) for (int i = 0; i < 9; ++i) { qf(0, k, i) = q[9 * k + i]; if (i < 6) qs(0, k, i) = q[9 * k + i]; }
    e.ComputeVolumeAverageFullTensor(vec8(X), vec8(u), Kokkos::subview(qf, 0, Kokkos::ALL, Kokkos::ALL), Kokkos::subview(of, 0, Kokkos::ALL));
    e.ComputeVolumeAverageSymTensor(vec8(X), vec8(u), Kokkos::subview(qs, 0, Kokkos::ALL, Kokkos::ALL), Kokkos::subview(os, 0, Kokkos::ALL));
    for (int i = 0; i < 9; ++i) se::eq(se::nm("device full tensor average", i), of(0, i) / SS, avg[i] / SS, 1e-6);
    for (int i = 0; i < 6; ++i) se::eq(se::nm("device symmetric tensor average", i), os(0, i) / SS, avg[i] / SS, 1e-6);
    se::reach("volavg");
  } else if (!cs.compare(0, 7, "charlen")) {
    // four generic shapes: the extent in x, y, z and the node distance are the shortest length in turn
    double amp = 0.012, y[24], z[24];
    static const double B2[4][24] = {
        {0.0, 0.0, 0.0, 0.49, -0.55, -0.27, -0.13, 2.35, -0.7, -0.22, 2.84, 0.08, -0.08, -1.0, 2.16, 0.42, 0.0, 1.52, -0.04, 2.3, 1.24, 0.27, 1.55, 1.55},
        {-4.24, -4.6, -4.86, -1.86, -5.29, -5.38, -2.57, -5.15, -4.44, -4.87, -5.16, -5.9, -5.44, -5.23, -1.84, -2.27, -5.23, -2.49, -3.76, -4.75, -2.75, -5.37, -4.23, -2.92},
        {0.0, 0.0, 0.0, 3.29, -0.4, -0.14, 1.72, 2.33, -0.48, -0.15, 1.7, -0.3, 1.45, 0.07, 0.28, 4.14, 1.18, 0.53, 3.16, 2.97, 0.2, 1.03, 3.18, 0.23},
        {-4.94, -5.08, -4.95, -3.41, -5.41, -4.37, -2.44, -1.43, -5.71, -4.6, -1.81, -4.91, -5.65, -4.91, -2.75, -3.01, -4.64, -1.56, -3.23, -2.29, -2.89, -4.5, -2.11, -2.43}};
    const double* b = B2[cs[7] - '0'];
    double        t[3], lo[3], hi[3];
    static const double scales[5] = {0.5, 3.0, 10.0, 1.0 / 16384, 8192.0};
    double              sc        = scales[se::choice("scale", 5)];
    for (int d = 0; d < 3; ++d) t[d] = se::real(se::nm("t", d), -100, 100, 3.0 * (d - 1));
    for (int i = 0; i < 24; ++i) x[i] = b[i] + se::real(se::nm("p", i), -amp, amp, 0.5 * amp * ((i * 3) % 5 - 2) / 2.0);
    for (int i = 0; i < 24; ++i) { y[i] = x[i] + t[i % 3]; z[i] = sc * x[i]; }
    double a = e.ComputeCharacteristicLength(x), c2 = e.ComputeCharacteristicLength(y), c3 = e.ComputeCharacteristicLength(z), ref = 1e30;
    se::eq("length does not depend on position", c2, a, 1e-6);
    se::eq("length scales with the element", c3 / sc, a, 1e-6);
    se::lt("length positive", 0.0, a);
    for (int n = 0; n < 8; ++n)
      for (int m = n + 1; m < 8; ++m) {
        double d2 = 0;
        for (int d = 0; d < 3; ++d) d2 += (x[3 * n + d] - x[3 * m + d]) * (x[3 * n + d] - x[3 * m + d]);
        se::le(se::nm("no longer than any node distance", n, m), a * a, d2, 1e-7);
        if (d2 < ref) ref = d2;
      }
    ref = std::sqrt(ref);
    for (int d = 0; d < 3; ++d) {
      lo[d] = hi[d] = x[d];
      for (int n = 1; n < 8; ++n) {
        if (x[3 * n + d] < lo[d]) lo[d] = x[3 * n + d];
        if (x[3 * n + d] > hi[d]) hi[d] = x[3 * n + d];
      }
      se::le(se::nm("no longer than the extent", d), a, hi[d] - lo[d], 1e-7);
      if (hi[d] - lo[d] < ref) ref = hi[d] - lo[d];
    }
    se::eq("length is the shortest of them", a, ref, 1e-7);
    se::reach("charlen");
  }
}
