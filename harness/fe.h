// Independent reference for a mesh of trilinear hexahedra with a linear elastic material: nodal masses, internal forces, volumes, averages.
#pragma once
#include "hx.h"
#include <map>
#include <vector>
namespace fe {
static const int NS[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
const double     GP = 0.577350269189626;  // 1/sqrt(3)
typedef std::vector<double> V;
struct Elem { int block; int n[8]; };
struct Mat { double rho, K, G; };
inline double shape(int a, const double* r) { return 0.125 * (1 + NS[a][0] * r[0]) * (1 + NS[a][1] * r[1]) * (1 + NS[a][2] * r[2]); }
inline void
dshape(int a, const double* r, double* d)
{
  d[0] = 0.125 * NS[a][0] * (1 + NS[a][1] * r[1]) * (1 + NS[a][2] * r[2]);
  d[1] = 0.125 * NS[a][1] * (1 + NS[a][0] * r[0]) * (1 + NS[a][2] * r[2]);
  d[2] = 0.125 * NS[a][2] * (1 + NS[a][0] * r[0]) * (1 + NS[a][1] * r[1]);
}
// adjugate: inv = adj/det
inline double
inv(const hx::M3& m, hx::M3& adj)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      int a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, d = (i + 2) % 3;
      adj[i][j] = m[a][c] * m[b][d] - m[a][d] * m[b][c];
    }
  return m[0][0] * adj[0][0] + m[0][1] * adj[1][0] + m[0][2] * adj[2][0];
}
struct Model
{
  int               nn = 0;
  V                 X;  // 3*nn
  std::vector<Elem> el;
  std::map<int, Mat> mat;
  // per element and point
  struct Pt { hx::M3 F, S; double w; };
  std::vector<std::vector<Pt>> pts;
  std::vector<double> vol;
  V mass() const
  {
    V m(nn, 0.0);
    for (auto& e : el)
      for (int g = 0; g < 8; ++g) {
        double r[3] = {NS[g][0] * GP, NS[g][1] * GP, NS[g][2] * GP};
        hx::M3 J = jac(e, X, r), A;
        double det = inv(J, A), rho = mat.at(e.block).rho;
        for (int a = 0; a < 8; ++a) m[e.n[a]] += rho * det * shape(a, r);
      }
    return m;
  }
  static hx::M3 jac(const Elem& e, const V& x, const double* r)
  {
    hx::M3 J;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) J[i][j] = 0;
    for (int a = 0; a < 8; ++a) {
      double d[3];
      dshape(a, r, d);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) J[i][j] += x[3 * e.n[a] + i] * d[j];
    }
    return J;
  }
  // internal force at displacement u; fills pts and vol
  V force(const V& u)
  {
    V f(3 * nn, 0.0), x(3 * nn);
    for (int i = 0; i < 3 * nn; ++i) x[i] = X[i] + u[i];
    pts.clear(); vol.clear();
    for (auto& e : el) {
      pts.emplace_back();
      vol.push_back(0.0);
      const Mat& m = mat.at(e.block);
      for (int g = 0; g < 8; ++g) {
        double r[3] = {NS[g][0] * GP, NS[g][1] * GP, NS[g][2] * GP};
        hx::M3 J0 = jac(e, X, r), J = jac(e, x, r), A0, A;
        double d0 = inv(J0, A0), d = inv(J, A);
        Pt     p;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) {
            double s = 0;
            for (int k = 0; k < 3; ++k) s += J[i][k] * A0[k][j];
            p.F[i][j] = s / d0;
          }
        double tr = p.F[0][0] + p.F[1][1] + p.F[2][2] - 3.0;
        for (int i = 0; i < 3; ++i)
          for (int j = 0; j < 3; ++j) {
            double eps = 0.5 * (p.F[i][j] + p.F[j][i]) - (i == j ? 1.0 : 0.0);
            p.S[i][j] = 2 * m.G * eps + (i == j ? (m.K - 2 * m.G / 3) * tr : 0.0);
          }
        p.w = d;
        for (int a = 0; a < 8; ++a) {
          double dn[3];
          dshape(a, r, dn);
          for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
              for (int k = 0; k < 3; ++k) f[3 * e.n[a] + i] -= p.S[i][j] * A[k][j] * dn[k];  // det * inverse = adjugate
        }
        vol.back() += d;
        pts.back().push_back(p);
      }
    }
    return f;
  }
};
}  // namespace fe
