#pragma once
#include "symapi.h"
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
// helpers shared by the harnesses
namespace hx {
static const int FI[3][3] = {{0, 3, 8}, {6, 1, 4}, {5, 7, 2}};  // documented full-tensor storage: XX YY ZZ XY YZ ZX YX ZY XZ
static const int SI[3][3] = {{0, 3, 5}, {3, 1, 4}, {5, 4, 2}};  // documented symmetric storage: XX YY ZZ XY YZ ZX
struct M3
{
  double a[3][3];
  double* operator[](int i) { return a[i]; }
  const double* operator[](int i) const { return a[i]; }
};
inline M3 mul(const M3& x, const M3& y)
{
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = x[i][0] * y[0][j] + x[i][1] * y[1][j] + x[i][2] * y[2][j];
  return r;
}
inline M3 tr(const M3& x)
{
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = x[j][i];
  return r;
}
inline double det(const M3& m)
{
  return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
         m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}
inline M3 sym_m3(const char* n, double lo, double hi, double s0 = 0.0, double diag = 0.0)
{
  static const double sd[9] = {0.13, -0.21, 0.34, 0.27, -0.11, 0.19, -0.31, 0.07, 0.23};
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double seed = s0 + sd[3 * i + j] * 0.5 * (hi < 1 ? hi : 1);
      if (seed < lo) seed = lo;
      if (seed > hi) seed = hi;
      r[i][j] = se::real(se::nm(n, i, j), lo, hi, seed) + (i == j ? diag : 0.0);
    }
  return r;
}
inline M3 sym_s3(const char* n, double lo, double hi)
{
  M3 m = sym_m3(n, lo, hi);
  m[1][0] = m[0][1];
  m[2][1] = m[1][2];
  m[2][0] = m[0][2];
  return m;
}
inline void full(const M3& m, double* f)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) f[FI[i][j]] = m[i][j];
}
inline M3 unfull(const double* f)
{
  M3 m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m[i][j] = f[FI[i][j]];
  return m;
}
inline void symm(const M3& m, double* s)
{
  for (int i = 0; i < 3; ++i)
    for (int j = i; j < 3; ++j) s[SI[i][j]] = m[i][j];
}
inline M3 unsym(const double* s)
{
  M3 m;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) m[i][j] = s[SI[i][j]];
  return m;
}
inline void eqm(const char* what, const M3& x, const M3& y, double tol = 1e-8)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) se::eq((std::string(what) + "[" + char('0' + i) + char('0' + j) + "]").c_str(), x[i][j], y[i][j], tol);
}
// every rotation is R(q)/|q|^2 for some quaternion; q0 is bounded away from 0 or not as the caller likes
inline M3 rotation(const char* n, double lo0 = 0.5, double hi0 = 1.5, double w = 1.0)
{
  double a = se::real(se::nm(n, 0), lo0, hi0, 0.5 * (lo0 + hi0)), b = se::real(se::nm(n, 1), -w, w, 0.2 * w), c = se::real(se::nm(n, 2), -w, w, -0.3 * w),
         d = se::real(se::nm(n, 3), -w, w, 0.4 * w);
  double s = a * a + b * b + c * c + d * d;
  M3     r;
  r[0][0] = (a * a + b * b - c * c - d * d) / s;
  r[0][1] = 2 * (b * c - a * d) / s;
  r[0][2] = 2 * (b * d + a * c) / s;
  r[1][0] = 2 * (b * c + a * d) / s;
  r[1][1] = (a * a - b * b + c * c - d * d) / s;
  r[1][2] = 2 * (c * d - a * b) / s;
  r[2][0] = 2 * (b * d - a * c) / s;
  r[2][1] = 2 * (c * d + a * b) / s;
  r[2][2] = (a * a - b * b - c * c + d * d) / s;
  return r;
}
inline M3 ident()
{
  M3 r;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) r[i][j] = i == j;
  return r;
}
}  // namespace hx
