// The sparse matrix, the conjugate gradient solver, and the assembly of the tangent matrix.
#include "runbase.h"
#include "nimble_block.h"
#include "nimble_linear_solver.h"
#include "nimble_material_factory.h"
#include "nimble_mesh_utils.h"
#include "nimble_view.h"
#include <set>
using namespace nimble;
using namespace runbase;
namespace {
typedef std::vector<double> V;
typedef std::vector<int>    I;
// a sparse pattern as the set of its entries
typedef std::set<std::pair<int, int>> Pat;
void
lists(const Pat& p, I& i, I& j)
{
  for (auto& e : p) { i.push_back(e.first); j.push_back(e.second); }
}
bool
has(CRSMatrixContainer& A, int i, int j, double* v)
{
  try { *v = ((const CRSMatrixContainer&)A)(i, j); return true; } catch (const std::exception&) { return false; }
}
// every entry, present or not, against D
void
same(const char* what, CRSMatrixContainer& A, const Pat& p, std::map<std::pair<int, int>, double>& D, int n, int m)
{
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < m; ++j) {
      double v;
      bool   h = has(A, i, j, &v);
      se::truth(se::nm("an entry is found exactly when it is in the pattern", i, j), h == (bool)p.count({i, j}));
      if (h && p.count({i, j})) se::eq(se::nm(what, i, j), v, D[{i, j}]);
    }
}
void
exercise(const Pat& p, int m)
{
  I i, j;
  lists(p, i, j);
  CRSMatrixContainer A;
  A.AllocateNonzeros(i, j);
  int n = 0;
  for (int r : i) n = std::max(n, r + 1);
  se::truth("number of rows", A.NumRows() == n);
  se::truth("number of entries", A.NumNonzeros() == p.size());
  std::map<std::pair<int, int>, double> D;
  for (auto& e : p) D[e] = 0;
  same("entries start as zero", A, p, D, n, m);
  for (auto& e : p) A(e.first, e.second) = D[e] = se::real(se::nm("a", e.first, e.second), -3, 3, 0.3 + e.first - 0.4 * e.second);
  same("an entry holds what is put there", A, p, D, n, m);
  for (auto& e : p) { A(e.first, e.second) += 0.5; D[e] += 0.5; }
  V x(m), y(n, 7.0);
  for (int k = 0; k < m; ++k) x[k] = se::real(se::nm("x", k), -2, 2, 1.0 - 0.3 * k);
  A.MatVec(x.data(), y.data());
  V w(n, 0.0);
  for (auto& e : p) w[e.first] += D[e] * x[e.second];
  for (int k = 0; k < n; ++k) se::eq(se::nm("row of the product", k), y[k], w[k], 1e-10);
  double c = se::real("c", -1, 1, 0.7);
  int    r = se::choice("row", n), q = se::choice("column", m);
  A.SetRowValues(r, c);
  for (auto& e : p) if (e.first == r) D[e] = c;
  same("after setting a row", A, p, D, n, m);
  A.SetColumnValues(q, 0.25);
  for (auto& e : p) if (e.second == q) D[e] = 0.25;
  same("after setting a column", A, p, D, n, m);
  A.SetAllValues(c);
  for (auto& e : p) D[e] = c;
  same("after setting all", A, p, D, n, m);
}
// every pattern of up to 3 rows and 2 columns; bits chosen
void
crs()
{
  int bits = 1 + se::choice("pattern", 63);
  Pat p;
  for (int k = 0; k < 6; ++k) if (bits >> k & 1) p.insert({k / 2, k % 2});
  exercise(p, 2);
  se::reach("crs");
}
// longer rows, for the search in a row: columns 0, 2, 4, ... of the middle row
void
rows()
{
  int len = 1 + se::choice("length", 12);
  Pat p = {{0, 1}, {2, 0}};
  for (int k = 0; k < len; ++k) p.insert({1, 1 + 2 * k});
  I i, j;
  lists(p, i, j);
  CRSMatrixContainer A;
  A.AllocateNonzeros(i, j);
  std::map<std::pair<int, int>, double> D;
  double s = se::real("s", -1, 1, 0.6);
  int    k = 0;
  for (auto& e : p) A(e.first, e.second) = D[e] = s + k++;
  same("entry of a long row", A, p, D, 3, 2 * len + 3);
  se::reach("rows");
}
void
diagonal()
{
  int n = 1 + se::choice("n", 5);
  CRSMatrixContainer M, C;
  M.AllocateDiagonalMatrix(n);
  Pat p;
  std::map<std::pair<int, int>, double> D;
  for (int i = 0; i < n; ++i) { p.insert({i, i}); D[{i, i}] = 0; }
  same("a diagonal matrix starts as zero", M, p, D, n, n);
  for (int i = 0; i < n; ++i) M(i, i) = D[{i, i}] = se::real(se::nm("m", i), -2, 2, 1.0 + i);
  same("diagonal entry", M, p, D, n, n);
  V x(n), y(n), z(n);
  for (int i = 0; i < n; ++i) x[i] = se::real(se::nm("x", i), -2, 2, 1.0 - 0.3 * i);
  M.DiagonalMatrixMatVec(x.data(), y.data());
  M.MatVec(x.data(), z.data());
  for (int i = 0; i < n; ++i) { se::eq(se::nm("diagonal product", i), y[i], D[{i, i}] * x[i]); se::eq(se::nm("product", i), z[i], D[{i, i}] * x[i], 1e-12); }
  M.SetRowValues(n - 1, 0.5);
  D[{n - 1, n - 1}] = 0.5;
  same("after setting the last row", M, p, D, n, n);
  // the same object used for another size
  int k = n + 1 - 2 * (n > 1 && se::choice("smaller", 2));
  M.AllocateDiagonalMatrix(k);
  p.clear();
  for (int i = 0; i < k; ++i) { p.insert({i, i}); D[{i, i}] = 0; }
  se::truth("rows after resizing", M.NumRows() == k && (int)M.NumNonzeros() == k);
  same("a resized diagonal matrix starts as zero", M, p, D, k, k);
  se::reach("diagonal");
}
void
dense()
{
  int n = 1 + se::choice("n", 3);
  I i, j;
  for (int a = 0; a < n; ++a) { i.push_back(a); j.push_back((a + 1) % n); }
  MatrixContainer A;
  A.AllocateNonzeros(i, j);
  se::truth("number of entries", (int)A.NumNonzeros() == n * n);
  V D(n * n, 0.0);
  auto chk = [&](const char* w) { for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) se::eq(se::nm(w, a, b), ((const MatrixContainer&)A)(a, b), D[n * a + b]); };
  chk("dense entries start as zero");
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) A(a, b) = D[n * a + b] = se::real(se::nm("a", a, b), -2, 2, 0.3 + a - b);
  chk("dense entry");
  double c = se::real("c", -1, 1, 0.7);
  int    r = se::choice("row", n), q = se::choice("column", n);
  A.SetRowValues(r, c);
  for (int b = 0; b < n; ++b) D[n * r + b] = c;
  chk("dense after setting a row");
  A.SetColumnValues(q, 0.25);
  for (int b = 0; b < n; ++b) D[n * b + q] = 0.25;
  chk("dense after setting a column");
  A.SetAllValues(c);
  for (double& d : D) d = c;
  chk("dense after setting all");
  se::reach("dense");
}
// conjugate gradients; A = given entries; the iterates against the textbook recurrences
struct Sys
{
  int n;
  V   a, b, x;
};
void
fill(Sys& s, CRSMatrixContainer& A)
{
  I i, j;
  for (int r = 0; r < s.n; ++r) for (int c = 0; c < s.n; ++c) { i.push_back(r); j.push_back(c); }
  A.AllocateNonzeros(i, j);
  for (int r = 0; r < s.n; ++r) for (int c = 0; c < s.n; ++c) A(r, c) = s.a[r * s.n + c];
}
V
resid(const Sys& s, const V& x)
{
  V r(s.n);
  for (int i = 0; i < s.n; ++i) { r[i] = s.b[i]; for (int j = 0; j < s.n; ++j) r[i] -= s.a[i * s.n + j] * x[j]; }
  return r;
}
double
delta(const Sys& s, const V& r)
{
  double d = 0;
  for (int i = 0; i < s.n; ++i) d += r[i] * r[i] / s.a[i * s.n + i];
  return d;
}
// preconditioned conjugate gradients as in the textbook
V
textbook(const Sys& s, int iters)
{
  int n = s.n;
  V   x = s.x, r = resid(s, x), d(n), z(n);
  for (int i = 0; i < n; ++i) d[i] = z[i] = r[i] * (1.0 / s.a[i * n + i]);
  double rz = 0;
  for (int i = 0; i < n; ++i) rz += r[i] * z[i];
  for (int k = 0; k < iters; ++k) {
    V      q(n, 0.0);
    double dq = 0;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) q[i] += s.a[i * n + j] * d[j]; dq += d[i] * q[i]; }
    double al = rz / dq;
    for (int i = 0; i < n; ++i) x[i] += al * d[i];
    r = resid(s, x);
    double old = rz;
    rz = 0;
    for (int i = 0; i < n; ++i) { z[i] = r[i] * (1.0 / s.a[i * n + i]); rz += r[i] * z[i]; }
    for (int i = 0; i < n; ++i) d[i] = z[i] + rz / old * d[i];
  }
  return x;
}
// sym: 0 right-hand side and start, 1 matrix, 2 one parameter moves everything
Sys
make(int n, int sym, bool warm, double width = 0.2)
{
  Sys s;
  s.n = n;
  s.a.assign(n * n, 0.0);
  s.b.resize(n);
  s.x.assign(n, 0.0);
  double t = sym == 2 ? se::real("t", -width, width, 0.3 * width) : 0.0;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j <= i; ++j) {
      double v = i == j ? 2.0 + 0.7 * i : 0.4 * std::sin(1.0 + 3 * i + 5 * j);
      if (sym == 1) v = se::real(se::nm("a", i, j), v - 0.3, v + 0.3, v + 0.05);
      if (sym == 2) v += t * std::cos(2.0 + i + 2 * j);
      s.a[i * n + j] = s.a[j * n + i] = v;
    }
    double b = 1.0 + 0.8 * std::cos(1.0 + 2 * i);
    if (sym == 0) b = se::real(se::nm("b", i), b - 0.2, b + 0.2, b + 0.1);
    if (sym == 2) b += t * std::sin(2.0 + i);
    s.b[i] = b;
    double v0 = 0.1 - 0.07 * i;
    if (warm) s.x[i] = sym == 0 ? se::real(se::nm("x", i), v0 - 0.1, v0 + 0.1, v0 + 0.03) : 0.1 - 0.07 * i;
  }
  return s;
}
void
cg_step(int n, int sym, int iters, bool warm)
{
  Sys s = make(n, sym, warm, n == 4 ? 0.02 : 0.1);
  CRSMatrixContainer A;
  fill(s, A);
  CGScratchSpace sc;
  V   x = s.x;
  int it = -1;
  bool ok = CG_SolveSystem(A, s.b.data(), sc, x.data(), it, 1e-30, iters);
  se::truth("all steps are taken when the tolerance is out of reach", it == iters);
  se::truth("a solver that runs out of steps says so", !ok);
  V w = textbook(s, iters);
  for (int i = 0; i < n; ++i) se::eq(se::nm("iterate", i), x[i], w[i], 1e-7);
  se::reach("step");
}
void
cg_stop(int n, double tol, bool warm, bool twice, int units = 0)
{
  Sys s = make(n, 2, warm, n == 2 ? 0.05 : n == 3 ? 0.1 : 0.02);
  // the same system in other units: forces times F, displacements times D
  const double F = std::ldexp(1.0, units), D = std::ldexp(1.0, -units);
  for (double& v : s.a) v = v * (F / D);
  for (double& v : s.b) v = v * F;
  for (double& v : s.x) v = v * D;
  CRSMatrixContainer A;
  fill(s, A);
  CGScratchSpace sc;
  if (twice) {  // the scratch space has been used for a system of another size before
    Sys o = make(n == 2 ? 3 : 2, 3, false);
    CRSMatrixContainer B;
    fill(o, B);
    V   y(o.n, 0.0);
    int k;
    CG_SolveSystem(B, o.b.data(), sc, y.data(), k, 0.5);
  }
  V   x = s.x;
  int it = -1;
  bool ok = CG_SolveSystem(A, s.b.data(), sc, x.data(), it, tol);
  se::truth("the solver reports success", ok);
  V r = resid(s, x), r0 = resid(s, s.x);
  se::le("residual of the solution within the tolerance", delta(s, r) / (F * D), tol * delta(s, r0) / (F * D), 1e-9);
  if (it > 0) se::lt("residual one step earlier was not within the tolerance", tol * delta(s, r0) / (F * D), delta(s, resid(s, textbook(s, it - 1))) / (F * D));
  se::reach("stop");
}
void
cg_exact(int n)
{
  // as many steps as unknowns solve the system
  Sys s = make(n, 2, true, n == 2 ? 0.02 : 0.005);
  CRSMatrixContainer A;
  fill(s, A);
  CGScratchSpace sc;
  V   x = s.x;
  int it = -1;
  bool ok = CG_SolveSystem(A, s.b.data(), sc, x.data(), it, 1e-9, n + 1);
  se::truth("the solver reports success", ok);
  se::truth("not more steps than unknowns", it <= n);
  V r = resid(s, x);
  for (int i = 0; i < n; ++i) { se::le(se::nm("residual after n steps", i), r[i], 1e-4); se::le(se::nm("residual after n steps, below", i), -1e-4, r[i]); }
  se::reach("exact");
}
void
cg_small()
{
  // one unknown; a start that already is the solution; the product of two vectors
  int k = se::choice("system", 3);
  CGScratchSpace sc;
  if (k == 0) {
    double a = se::real("a", 0.5, 20, 3), b = se::real("b", 1, 5, 2), x = se::real("x", -9, -1, -3);
    CRSMatrixContainer A;
    A.AllocateNonzeros({0}, {0});
    A(0, 0) = a;
    int  it = -1;
    bool ok = CG_SolveSystem(A, &b, sc, &x, it, 0.5, 5);
    se::truth("the solver reports success", ok);
    se::truth("one step is enough", it == 1);
    se::eq("solution", a * x, b, 1e-7);
  } else if (k == 1) {
    Sys s;
    s.n = 3;
    s.a = {4, 1, 0, 1, 3, -1, 0, -1, 5};
    bool zero = se::choice("zero", 2);
    s.x = zero ? V{0, 0, 0} : V{1, -2, 3};
    s.b = zero ? V{0, 0, 0} : V{2, -8, 17};
    CRSMatrixContainer A;
    fill(s, A);
    V    x  = s.x;
    int  it = -1;
    bool ok = CG_SolveSystem(A, s.b.data(), sc, x.data(), it, 1e-6);
    se::truth("the solver reports success", ok);
    se::truth("no step is taken", it == 0);
    for (int i = 0; i < 3; ++i) se::eq(se::nm("the start stays", i), x[i], s.x[i], 1e-9);
  } else {
    int    n = se::choice("length", 4);
    V      u(n), v(n);
    double r = 0;
    for (int i = 0; i < n; ++i) {
      u[i] = se::real(se::nm("u", i), -9, 9, 1.5 + i);
      v[i] = se::real(se::nm("v", i), -9, 9, 2.0 - i);
      r += u[i] * v[i];
    }
    se::eq("inner product", InnerProduct(u, v), r, 1e-7);
    se::eq("inner product of arrays", InnerProduct(n, u.data(), v.data()), r, 1e-7);
  }
  se::reach("small");
}
// ---------------------------------------------------------------------------------------------------------- tangent
struct Grid
{
  Hex h;
  V   X;
  std::vector<I> conn;  // per element
  I   of;               // block of an element
};
const int CORN[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
// hexahedra at the given cells; nodes numbered as they appear
Grid
grid(const std::vector<std::array<int, 3>>& cells, const I& blocks, double wob)
{
  Grid g;
  std::map<std::array<int, 3>, int> id;
  std::set<int> made;
  for (size_t e = 0; e < cells.size(); ++e) {
    if (made.insert(blocks[e]).second) g.h.block(blocks[e]);
    I c;
    for (auto& k : CORN) {
      std::array<int, 3> q = {cells[e][0] + k[0], cells[e][1] + k[1], cells[e][2] + k[2]};
      if (!id.count(q)) {
        int    i = (int)id.size();
        double x[3];
        for (int d = 0; d < 3; ++d) { x[d] = q[d] + wob * std::sin(1.0 + 3 * i + 7 * d); g.X.push_back(x[d]); }
        id[q] = g.h.node(x[0], x[1], x[2]);
      }
      c.push_back(id[q]);
    }
    g.h.elem(blocks[e], c);
    g.conn.push_back(c);
    g.of.push_back(blocks[e]);
  }
  return g;
}
std::vector<std::array<int, 3>>
shape(int k)
{
  switch (k) {
    case 0: return {{0, 0, 0}};
    case 1: return {{0, 0, 0}, {1, 0, 0}};             // a face in common
    case 2: return {{0, 0, 0}, {1, 1, 0}};             // an edge
    case 3: return {{0, 0, 0}, {1, 1, 1}};             // a node
    case 4: return {{0, 0, 0}, {5, 0, 0}};             // nothing
    default: return {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}};
  }
}
I
system_ids(int N, int kind)
{
  I id(N);
  for (int i = 0; i < N; ++i) id[i] = kind == 0 ? i : kind == 1 ? (5 * i + 3) % N : i;
  if (kind == 1) { I seen(N, 0); for (int v : id) seen[v]++; for (int v : seen) if (v != 1) for (int i = 0; i < N; ++i) id[i] = N - 1 - i; }
  if (kind == 2) {  // the last node takes part in the equations of node 1, the one before in those of node 0
    id[N - 1] = 1;
    id[N - 2] = 0;
  }
  return id;
}
void
pattern()
{
  int  k = se::choice("shape", 6), nb = se::choice("blocks", 2), kind = se::choice("numbering", 3);
  auto c = shape(k);
  I    b;
  for (size_t e = 0; e < c.size(); ++e) b.push_back(nb ? (e % 2 ? 3 : 8) : 5);
  Grid g = grid(c, b, 0.0);
  exosim::reset();
  exosim::file("m.g") = g.h.f;
  GenesisMesh mesh;
  { Quiet q; mesh.ReadFile("m.g"); }
  int N = (int)mesh.GetNumNodes();
  I   id = system_ids(N, kind), i, j;
  DetermineTangentMatrixNonzeroStructure(mesh, id, i, j);
  Pat want, got;
  for (auto& e : g.conn)
    for (int a : e) for (int bb : e) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) want.insert({3 * id[a] + p, 3 * id[bb] + q});
  se::truth("as many rows as columns are listed", i.size() == j.size());
  for (size_t q = 0; q < i.size() && q < j.size(); ++q) got.insert({i[q], j[q]});
  se::truth("no entry is listed twice", got.size() == i.size());
  se::truth("the entries are those coupled by an element", got == want);
  bool sorted = true;
  for (size_t q = 1; q < i.size(); ++q) sorted = sorted && (i[q - 1] < i[q] || (i[q - 1] == i[q] && j[q - 1] < j[q]));
  se::truth("rows and columns ascend", sorted);
  se::reach("pattern");
}
template <class M>
void
assemble(int k, int kind, bool symu)
{
  auto c = shape(k);
  I    b;
  for (size_t e = 0; e < c.size(); ++e) b.push_back(e % 2 ? 3 : 8);
  Grid g = grid(c, b, 0.1);
  int  N = (int)g.X.size() / 3;
  I    id = system_ids(N, kind);
  V    u(3 * N, 0.0);
  for (int q = 0; q < 3 * N; ++q) u[q] = symu && (q * 5 + 1) % (3 * N) < 6 ? se::real(se::nm("u", q), -0.1, 0.1, 0.05 * std::sin(q + 1.0)) : 0.04 * std::cos(2.0 * q);
  Pat p;
  for (auto& e : g.conn) for (int a : e) for (int bb : e) for (int r = 0; r < 3; ++r) for (int q = 0; q < 3; ++q) p.insert({3 * id[a] + r, 3 * id[bb] + q});
  I i, j;
  lists(p, i, j);
  M A;
  A.AllocateNonzeros(i, j);
  std::map<std::pair<int, int>, double> D;
  for (auto& e : p) D[e] = 0;
  for (int bl : {8, 3}) {
    I    conn;
    int  ne = 0;
    for (size_t e = 0; e < g.conn.size(); ++e) if (g.of[e] == bl) { conn.insert(conn.end(), g.conn[e].begin(), g.conn[e].end()); ++ne; }
    double K = symu ? 2.5 + bl : se::real(se::nm("K", bl), 1, 3, 1.7 + 0.1 * bl), G = symu ? 0.7 : se::real(se::nm("G", bl), 0.3, 1.5, 0.8);
    Block           B;
    MaterialFactory f;
    B.Initialize(std::string("elastic density 2.0 bulk_modulus ") + se::text(K) + " shear_modulus " + se::text(G), f);
    B.ComputeTangentStiffnessMatrix(3 * N, g.X.data(), u.data(), ne, conn.data(), id.data(), A);
    // the same from the element and the material of the code (E04, M01)
    double T[6 * 6 * 8];
    B.GetMaterialPointer()->GetTangent(8, T);
    for (int e = 0; e < ne; ++e) {
      double x[24], ke[24 * 24];
      for (int a = 0; a < 8; ++a) for (int d = 0; d < 3; ++d) { int n = conn[8 * e + a]; x[3 * a + d] = g.X[3 * n + d] + u[3 * n + d]; }
      HexElement h;
      h.ComputeTangent(x, T, ke);
      for (int r = 0; r < 24; ++r) for (int q = 0; q < 24; ++q) D[{3 * id[conn[8 * e + r / 3]] + r % 3, 3 * id[conn[8 * e + q / 3]] + q % 3}] += ke[24 * r + q];
    }
    // masses and the largest stable step of the block
    V m(N, 0.0), w(N, 0.0);
    B.ComputeLumpedMassMatrix(g.X.data(), ne, conn.data(), m.data());
    double len = 1e300;
    for (int e = 0; e < ne; ++e) {
      double x[24], y[24], me[8];
      for (int a = 0; a < 8; ++a) for (int d = 0; d < 3; ++d) { int n = conn[8 * e + a]; x[3 * a + d] = g.X[3 * n + d]; y[3 * a + d] = x[3 * a + d] + u[3 * n + d]; }
      HexElement h;
      h.ComputeLumpedMass(2.0, x, me);
      for (int a = 0; a < 8; ++a) w[conn[8 * e + a]] += me[a];
      if (!symu) len = std::min(len, h.ComputeCharacteristicLength(y));
    }
    for (int n = 0; n < N; ++n) se::eq(se::nm("mass", bl, n), m[n], w[n], 1e-10);
    if (!symu && ne) {
      double dt = B.ComputeCriticalTimeStep(Viewify<2>(g.X.data(), {N, 3}, {3, 1}), Viewify<2>(u.data(), {N, 3}, {3, 1}), ne, conn.data());
      se::eq(se::nm("squared stable step x K = density x squared length", bl), dt * dt * K, 2.0 * len * len, 1e-9);
    }
  }
  for (auto& e : p) se::eq(se::nm("tangent", e.first, e.second), A(e.first, e.second), D[e], 1e-9);
  se::reach("assembled");
}
}  // namespace
void
harness(const char* c)
{
  std::string n = c;
  if (n == "crs") crs();
  if (n == "rows") rows();
  if (n == "diagonal") diagonal();
  if (n == "dense") dense();
  if (n == "cg_step1") cg_step(2, 0, 1, true);
  if (n == "cg_step1m") cg_step(2, 1, 1, false);
  if (n == "cg_step1n3") cg_step(3, 0, 1, true);
  if (n == "cg_step2") cg_step(3, 2, 2, true);
  if (n == "cg_step3") cg_step(4, 2, 3, false);
  if (n == "cg_stop2") cg_stop(2, 1e-2, false, true);
  if (n == "cg_stop3") cg_stop(3, 1e-3, true, false);
  if (n == "cg_stop4") cg_stop(4, 1e-4, true, true);
  if (n == "cg_stop3u") cg_stop(3, 1e-3, true, false, 25);
  if (n == "cg_small") cg_small();
  if (n == "cg_exact2") cg_exact(2);
  if (n == "cg_exact3") cg_exact(3);
  if (n == "cg_exact4") cg_exact(4);
  if (n == "pattern") pattern();
  if (n == "tangent_crs") assemble<CRSMatrixContainer>(5, se::choice("numbering", 3), false);
  if (n == "tangent_crs_u") assemble<CRSMatrixContainer>(1, 1, true);
  if (n == "tangent_dense") assemble<MatrixContainer>(1, 2, false);
}
