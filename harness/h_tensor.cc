#include "hx.h"
#include "nimble_utils.h"
using namespace hx;
static bool is(const char* a, const char* b) { return !strcmp(a, b); }
struct DM
{
  int n;
  std::vector<double> a;
  double& operator()(int i, int j) { return a[i * n + j]; }
  const double& operator()(int i, int j) const { return a[i * n + j]; }
};
void harness(const char* c)
{
  if (is(c, "products")) {
    M3 A = sym_m3("A", -10, 10), B = sym_m3("B", -10, 10), S = sym_s3("S", -10, 10);
    double al = se::real("alpha", -10, 10, 0.7);
    double a[9], b[9], s[6], r[9], r6[6];
    full(A, a); full(B, b); symm(S, s);
    Mult_Full33_Full33(a, b, r);
    eqm("A*B", unfull(r), mul(A, B));
    Mult_Sym33_Full33(s, a, r);
    eqm("S*A", unfull(r), mul(S, A));
    Mult_Scalar_Full33_Full33(al, a, b, r);
    M3 P = mul(A, B);
    for (auto& row : P.a) for (auto& v : row) v *= al;
    eqm("alpha*A*B", unfull(r), P);
    Mult_Scalar_Full33(al, a, r);
    P = A;
    for (auto& row : P.a) for (auto& v : row) v *= al;
    eqm("alpha*A", unfull(r), P);
    Sum_Full33_Full33(a, b, r);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[i][j] = A[i][j] + B[i][j];
    eqm("A+B", unfull(r), P);
    Sum_Sym33_Full33(s, a, r);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[i][j] = A[i][j] + S[i][j];
    eqm("S+A", unfull(r), P);
    Square_Full33T_Full33(a, r6);
    eqm("AtA", unsym(r6), mul(tr(A), A));
    Square_Full33_Full33T(a, r6);
    eqm("AAt", unsym(r6), mul(A, tr(A)));
    Mult_Full33_Sym33_ReturnT(a, s, r);
    eqm("(AS)t", unfull(r), tr(mul(A, S)));
    Rotate_Sym33_Using_Rtranspose_S_R(s, a, r6);
    eqm("RtSR", unsym(r6), mul(tr(A), mul(S, A)), 1e-7);
    Unrotate_Sym33_Using_R_S_Rtranspose(s, a, r6);
    eqm("RSRt", unsym(r6), mul(A, mul(S, tr(A))), 1e-7);
    double n2 = 0, m2 = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { n2 += S[i][j] * S[i][j]; m2 += A[i][j] * A[i][j]; }
    double ns = Norm_Sym33(s), nf = Norm_Full33(a);
    se::eq("|S|^2", ns * ns, n2, 1e-7);
    se::eq("|A|^2", nf * nf, m2, 1e-7);
    se::le("|S|>=0", 0.0, ns, 0.0);
    se::le("|A|>=0", 0.0, nf, 0.0);
    se::eq("det", Determinant_Full33(a), det(A), 1e-7);
    double sy[6], sk[9];
    SymPart_Full33(a, sy);
    SkewPart_Full33(a, sk);
    M3 Y = unsym(sy), K = unfull(sk);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[i][j] = Y[i][j] + K[i][j];
    eqm("sym+skew", P, A);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) P[i][j] = -K[j][i];
    eqm("skew antisymmetric", K, P);
    double z[9];
    SetEqual_Full33(a, z);
    eqm("copy full", unfull(z), A);
    Zero_Full33(z);
    for (auto& row : P.a) for (auto& v : row) v = 0;
    eqm("zero", unfull(z), P);
    double z6[6];
    SetEqual_Sym33(s, z6);
    eqm("copy sym", unsym(z6), S);
    double u[3] = {A[0][0], A[0][1], A[0][2]}, v[3] = {A[1][0], A[1][1], A[1][2]}, w[3];
    CrossProduct(u, v, w);
    double w2[3] = {A[2][0], A[2][1], A[2][2]};
    se::eq("(u x v).w = det", w[0] * w2[0] + w[1] * w2[1] + w[2] * w2[2], det(A), 1e-7);
    se::reach("products");
  } else if (is(c, "rotate_roundtrip")) {
    M3 R = rotation("q", -2, 2, 2), S = sym_s3("S", -10, 10);
    double a = se::real("q_0", -2, 2, 0), b = se::real("q_1", -2, 2, 0.4), cc = se::real("q_2", -2, 2, 0.4), d = se::real("q_3", -2, 2, 0.4);
    se::assume_le(0.01, a * a + b * b + cc * cc + d * d);
    double s[6], r[9], t[6], t2[6];
    symm(S, s); full(R, r);
    Rotate_Sym33_Using_Rtranspose_S_R(s, r, t);
    Unrotate_Sym33_Using_R_S_Rtranspose(t, r, t2);
    eqm("unrotate(rotate(S))", unsym(t2), S, 1e-6);
    Unrotate_Sym33_Using_R_S_Rtranspose(s, r, t);
    Rotate_Sym33_Using_Rtranspose_S_R(t, r, t2);
    eqm("rotate(unrotate(S))", unsym(t2), S, 1e-6);
    se::eq("rotation preserves trace", t[0] + t[1] + t[2], s[0] + s[1] + s[2], 1e-6);
    auto n2 = [](const double* x) { return x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + 2 * (x[3] * x[3] + x[4] * x[4] + x[5] * x[5]); };
    se::eq("rotation preserves norm", n2(t), n2(s), 1e-5);
    se::reach("rotate");
  } else if (!strncmp(c, "inverse", 7)) {
    const double U = is(c, "inverse_small") ? std::ldexp(1.0, -17) : is(c, "inverse_large") ? std::ldexp(1.0, 17) : 1.0, D = U * U * U;
    M3 A = sym_m3("A", -2, 2, 0, 0.0);
    for (int i = 0; i < 3; ++i) A[i][i] = A[i][i] + 1.0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = A[i][j] * U;
    double a[9], r[9];
    full(A, a);
    se::assume_le(0.05, det(A) / D);
    double d = Invert_Full33(a, r);
    se::eq("returned determinant", d / D, det(A) / D, 1e-7);
    eqm("A*inv", mul(A, unfull(r)), ident(), 1e-7);
    eqm("inv*A", mul(unfull(r), A), ident(), 1e-7);
    double m[3][3], mi[3][3];
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = A[i][j];
    double d2 = Invert3x3(m, mi);
    M3 I2;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) I2[i][j] = mi[i][j];
    se::eq("returned determinant 3x3", d2 / D, det(A) / D, 1e-7);
    eqm("A*inv 3x3", mul(A, I2), ident(), 1e-7);
    eqm("inv*A 3x3", mul(I2, A), ident(), 1e-7);
    se::reach("inverse");
  } else if (is(c, "bch")) {
    M3 X = sym_m3("X", -1, 1), Y = sym_m3("Y", -1, 1);
    double x[9], y[9], r[9];
    full(X, x); full(Y, y);
    BCH(x, y, r);
    auto comm = [](const M3& a, const M3& b) {
      M3 p = mul(a, b), q = mul(b, a), z;
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) z[i][j] = p[i][j] - q[i][j];
      return z;
    };
    M3 c1 = comm(X, Y), c2 = comm(X, c1), c3 = comm(Y, comm(Y, X)), c4 = comm(Y, comm(X, c1)), e;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 3; ++j) e[i][j] = X[i][j] + Y[i][j] + 0.5 * c1[i][j] + c2[i][j] / 12.0 + c3[i][j] / 12.0 - c4[i][j] / 24.0;
    eqm("BCH series", unfull(r), e, 1e-7);
    M3 S = sym_s3("X", -1, 1);
    double s[6];
    symm(S, s);
    double r2[9], sf[9];
    BCH_Sym33_Full33(s, y, r);
    full(S, sf);
    BCH(sf, y, r2);
    eqm("BCH symmetric overload", unfull(r), unfull(r2), 1e-7);
    se::reach("bch");
  } else if (!strncmp(c, "polar", 5)) {
    // F = V0 Q0 + a family; V0: stretches apart, two of them close, two or three of them equal
    static const double ST[10][6] = {{1.1, 0.9, 1.0, 0.05, -0.04, 0.03}, {1.6, 0.7, 1.2, 0.2, 0.1, -0.15}, {0.5, 2.0, 1.1, 0.1, -0.05, 0.08}, {1.02, 1.0, 0.97, 0.004, -0.006, 0.003},
                                    {3.0, 0.4, 0.8, -0.2, 0.3, 0.1}, {1.3, 1.25, 0.8, 0.01, 0.02, 0.0}, {1.2, 1.0, 1.0, 0, 0, 0}, {1.1, 1.1, 1.1, 0, 0, 0}, {0.5, 2.0, 1.1, 0, 0, 0}, {1, 1, 1, 0, 0, 0}};
    static const double QU[5][4] = {{1, 0, 0, 0}, {0.8, 0.3, -0.4, 0.2}, {0.2, 0.7, 0.5, -0.3}, {0.5, -0.5, 0.5, 0.5}, {0.0, 0.6, 0.8, 0.0}};
    static const double GAP[6] = {0.002, 0.006, 0.006, 0.0005, 0.002, 0.002};
    bool fixed = is(c, "polar_equal"), all = is(c, "polar9");
    int  k = fixed ? 6 + se::choice("stretch", 4) : se::choice("stretch", 6), q = se::choice("rotation", 5);
    const double *t = ST[k], *u = QU[q];
    M3 V0, Q0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) V0[i][j] = t[SI[i][j]];
    double w = u[0], x = u[1], y = u[2], z = u[3], n = w * w + x * x + y * y + z * z;
    double qq[3][3] = {{w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Q0[i][j] = qq[i][j] / n;
    M3 F = mul(V0, Q0);
    if (all) {
      double e = GAP[k] / 500;
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F[i][j] = F[i][j] + se::real(se::nm("d", i, j), -e, e, 0.3 * e * std::cos(i + 2.0 * j));
    } else if (!fixed) {
      static const double D[3][3][3] = {{{0.3, 0.1, 0}, {-0.2, 0.5, 0.2}, {0.1, 0, -0.4}}, {{1, 0.3, 0}, {0, 0.8, 0}, {0.2, 0, 1.1}}, {{0, 1, 0}, {0, 0, 0}, {0, 0, 0}}};
      int    d = se::choice("direction", 3);
      double s = (2 * se::choice("part", 3) - 2 + se::real("s", -1, 1, 0.4)) * GAP[k];
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) F[i][j] = F[i][j] + s * D[d][i][j];
    }
    double f[9], v[6], r[9];
    full(F, f);
    Polar_Decomp(f, v, r);
    M3 V = unsym(v), R = unfull(r);
    double tol = 1e-6;
    eqm("V R = F", mul(V, R), F, tol);
    eqm("R R^T = I", mul(R, tr(R)), ident(), tol);
    se::le("det R > 0", 0.5, det(R), 0.0);
    se::le("V positive definite", 0.1, V[0][0], 0.0);
    se::le("V positive definite", 0.05, V[0][0] * V[1][1] - V[0][1] * V[0][1], 0.0);
    se::le("V positive definite", 0.05, det(V), 0.0);
    se::reach("decomposed");
  } else if (is(c, "cos_acos")) {
    double x = (se::choice("part", 64) + se::real("x", 0, 1, 0.3)) / 64;
    double y = Cos_Of_Acos_Divided_By_3(x);
    // y = cos(acos(x)/3)  <=>  4y^3-3y = x and y >= 1/2
    se::eq("4y^3-3y=x", 4 * y * y * y - 3 * y, x, 1e-9);
    se::le("y>=0.5", 0.5, y, 0.0);
    se::le("y<=1", y, 1.0, 1e-9);
    se::reach("cos_acos");
  } else if (is(c, "lu5")) {
    // larger systems, pivots in many orders; the right-hand side varies
    static const double base[5][5] = {{7, 1, -2, 0, 0.5}, {1.2, -6, 2.5, 1, 0}, {-0.8, 1, 8, 0, 3}, {0, 0.3, 0, -5, 1}, {2, 0, -1.5, 0.7, 9}};
    int n = 4 + se::choice("size", 2), k = se::choice("order", 5), rev = se::choice("reversed", 2);
    DM  m{n, std::vector<double>(n * n)}, m0;
    std::vector<double> b(n), b0;
    for (int i = 0; i < n; ++i) {
      int r = (i + k) % n;
      if (rev) r = n - 1 - r;
      for (int j = 0; j < n; ++j) m(r, j) = base[i][j];
      b[i] = se::real(se::nm("b", i), -5, 5, 0.5 + i);
    }
    m0 = m;
    b0 = b;
    std::vector<int> scratch(n);
    LU_SolveSystem(n, m, b.data(), scratch.data());
    for (int i = 0; i < n; ++i) {
      double s = 0;
      for (int j = 0; j < n; ++j) s += m0(i, j) * b[j];
      se::eq(se::nm("A x = b, row", i), s, b0[i], 1e-6);
    }
    se::reach("lu solved");
  } else if (!strncmp(c, "lu", 2)) {
    int n = c[2] - '0';
    DM  m{n, std::vector<double>(n * n)}, m0;
    std::vector<double> b(n), b0;
    static const double sd[9] = {0.3, 1.1, -0.4, 0.9, -0.2, 0.7, -1.3, 0.5, 0.6};
    if (n <= 2) {
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) m(i, j) = se::real(se::nm("m", i, j), -2, 2, sd[(3 * i + j) % 9]);
    } else {
      // every pivot sequence: the row order is a permutation of a matrix with well separated pivots; all entries vary
      static const int    per[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
      static const double base[3][3] = {{4, 1, -2}, {1.2, -3, 5.5}, {-0.8, 1, 6}};
      int                 k = se::choice("pivot_order", 6), sg = se::choice("sign", 2);
      for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
          m(per[k][i], j) = (sg ? -1 : 1) * base[i][j] + se::real(se::nm("m", i, j), -0.1, 0.1, 0.05 * sd[(3 * i + j) % 9]);
    }
    for (int i = 0; i < n; ++i) b[i] = se::real(se::nm("b", i), -5, 5, 0.5 + i);
    // equations in other units: all of them small, or each with its own
    static const int UN[3][3] = {{0, 0, 0}, {-35, -35, -35}, {24, -20, 3}};
    int              un = se::choice("units", 3);
    double           row[3];
    for (int i = 0; i < n; ++i) {
      row[i] = std::ldexp(1.0, UN[un][i]);
      for (int j = 0; j < n; ++j) m(i, j) = m(i, j) * row[i];
      b[i] = b[i] * row[i];
    }
    m0 = m;
    b0 = b;
    double d;
    if (n == 1) d = m0(0, 0);
    else if (n == 2) d = (m0(0, 0) * m0(1, 1) - m0(0, 1) * m0(1, 0)) / row[1];
    else { M3 q; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = m0(i, j) / row[i]; d = det(q) * row[0]; }
    d = d / row[0];
    se::assume_ne(d, 0.0);
    se::assume_le(1e-2, d * d);
    std::vector<int> scratch(n);
    LU_SolveSystem(n, m, b.data(), scratch.data());
    for (int i = 0; i < n; ++i) {
      double s = 0;
      for (int j = 0; j < n; ++j) s += m0(i, j) * b[j];
      se::eq(se::nm("A x = b, row", i), s / row[i], b0[i] / row[i], 1e-6);
    }
    se::reach("lu solved");
  }
}
