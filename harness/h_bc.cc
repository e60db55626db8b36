// B01: boundary and initial conditions act on exactly what they name
#include "hx.h"
#include <map>
#include <memory>
#include <stdexcept>
#include "nimble_boundary_condition.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_linear_solver.h"
#include "nimble_view.h"
using nimble::BoundaryConditionManager;
using V2 = nimble::Viewify<2>;
namespace {
const int                       NN = 5;
std::map<int, std::string>      names{{1, "bottom"}, {4, "NodeList_4"}, {7, "top"}, {9, "empty"}, {12, "bot"}, {15, "nodelist_4"}, {16, "Bottom"}};
std::map<int, std::vector<int>> sets{{1, {0, 3}}, {4, {1, 3, 4}}, {7, {2}}, {9, {}}, {12, {4}}, {15, {2}}, {16, {1, 2, 4}}};
std::map<int, std::string>      snames{{1, "face"}};
std::map<int, std::vector<int>> ssets{{1, {0}}};
struct Field
{
  std::vector<double> d;
  int                 dim;
  Field(const char* n, int dim_, double w = 3.0) : d(NN * dim_), dim(dim_)
  {
    for (int i = 0; i < NN * dim; ++i) d[i] = se::real(se::nm(n, i / dim, i % dim), -w, w, 0.1 * (i % 7) - 0.2 + 0.03 * i);
  }
  V2 view() { return V2(d.data(), {NN, dim}, {dim, 1}); }
};
struct Bc
{
  std::string text;
  int         type;  // 0 initial velocity, 1 velocity, 2 displacement
  int         set, coord, e;
  double      v;
};
const char* TYPE[] = {"initial_velocity", "prescribed_velocity", "prescribed_displacement"};
double      A, B;
// the value of condition b for a node at reference position x and time t
double
value(const Bc& b, const double* x, int dim, double t)
{
  double z = dim == 3 ? x[2] : 0.0;
  switch (b.e) {
    case 0: return b.v;
    case 1: return b.v * x[0] - x[1] * t + z;
    case 2: return std::sin(b.v * t) * (x[0] + z);
  }
  return -b.v;
}
Bc
make(int type, int set, int coord, int e, double v, int style)
{
  Bc          b{"", type, set, coord, e, v};
  std::string k = se::text(v), q;
  switch (e) {
    case 0: q = k; break;
    case 1: q = "\"" + k + "*x - y*t + z\""; break;
    case 2: q = "\"sin(" + k + "*t)*(x+z)\""; break;
    case 3: q = "-" + k; break;
  }
  std::string c(1, style & 2 ? "XYZ"[coord] : "xyz"[coord]), sp = style & 1 ? "   " : " ";
  b.text = (style & 1 ? " " : "") + std::string(TYPE[type]) + sp + names[set] + sp + c + sp + q + (style & 1 ? " " : "");
  return b;
}
void
same(const char* what, const std::vector<double>& a, const std::vector<double>& b)
{
  for (size_t i = 0; i < a.size(); ++i) se::eq(se::nm(what, i), a[i], b[i]);
}
}  // namespace

void
harness(const char* name)
{
  std::string c   = name;
  int         dim = c.find("2d") != std::string::npos ? 2 : 3;
  A               = se::real("A", 0.1, 3.0, 0.7);
  B               = se::real("B", 0.1, 3.0, 1.9);
  if (c == "initial" || c == "initial2d") {
    int   w = se::choice("conditions", 6), style = se::choice("style", 4);
    Field x("x", dim), v("v", dim), o1("o1", dim), o2("o2", dim);
    std::vector<Bc> l;
    l.push_back(make(0, 1, w % dim, w % 2, A, style));
    l.push_back(make(w < 3 ? 1 : 2, 4, 0, w % 3, B, style));  // does not act initially
    l.push_back(make(0, 4, (w + 1) % dim, 3 - w % 4, B, style));
    if (w > 2) l.push_back(make(0, 12, w % dim, 2, A, style));
    if (w > 3) l.push_back(make(0, 1, w % dim, 1, B, style));
    std::vector<std::string> s;
    for (auto& b : l) s.push_back(b.text);
    BoundaryConditionManager m;
    m.Initialize(names, sets, snames, ssets, s, dim, w % 2 ? "explicit" : "quasistatic");
    std::vector<double> rv = v.d, r1 = o1.d, r2 = o2.d, x0 = x.d;
    bool                off = w % 2;
    for (auto& b : l)
      if (b.type == 0)
        for (int n : sets[b.set]) {
          double q                 = value(b, &x.d[dim * n], dim, 0.0);
          rv[dim * n + b.coord] = q;
          if (off) r1[dim * n + b.coord] = r2[dim * n + b.coord] = q;
        }
    V2              vv = v.view();
    std::vector<V2> ov{o1.view(), o2.view()};
    if (off)
      m.ApplyInitialConditions(x.view(), vv, ov);
    else
      m.ApplyInitialConditions(x.view(), vv);
    same("velocity", v.d, rv);
    same("off-nominal velocity 1", o1.d, r1);
    same("off-nominal velocity 2", o2.d, r2);
    same("reference coordinate", x.d, x0);
    se::reach("initial");
  } else if (c.compare(0, 9, "kinematic") == 0) {
    bool   quasi = c.find("static") != std::string::npos;
    int    t1 = se::choice("type1", 3), e1 = se::choice("value1", 4), w = se::choice("second", 7), zero = se::choice("step", 3);
    Field  x("x", dim), u("u", dim), v("v", dim), o("o", dim), o2("o2", dim);
    double t0 = se::real("t0", -1.0, 2.0, 0.3), dt = zero == 1 ? 0.0 : se::real("dt", 0.01, 1.0, 0.2), tc;
    if (zero == 2) dt = std::ldexp(dt, -31);  // explicit steps are tiny
    tc   = t0 + dt;
    zero = zero == 1;
    std::vector<Bc> l;
    l.push_back(make(t1, 1, e1 % dim, e1, A, w % 4));
    if (w) l.push_back(make(w % 3, w % 2 ? 4 : 7, (e1 + w) % dim, (e1 + w / 2) % 4, B, (w + 1) % 4));
    if (w > 4) l.push_back(make((t1 + 1) % 3, 12, (w + 1) % dim, (e1 + 2) % 4, A, 0));
    std::vector<std::string> s;
    for (auto& b : l) s.push_back(b.text);
    if (w == 6) s.insert(s.begin(), "prescribed_velocity nowhere x 17.0"), s.push_back("prescribed_displacement empty y 5.0"), s.push_back("prescribed_velocity face z 3.0");
    BoundaryConditionManager m;
    m.Initialize(names, sets, snames, ssets, s, dim, quasi ? "quasistatic" : "explicit");
    std::vector<double> ru = u.d, rv = v.d, ro = o.d, ro2 = o2.d, x0 = x.d;
    bool                off = w % 2;
    double              D   = tc - t0;
    for (auto& b : l)
      for (int n : sets[b.set]) {
        int    i = dim * n + b.coord;
        double q = value(b, &x.d[dim * n], dim, tc);
        if (b.type == 1) {
          rv[i] = q;
          if (off) ro[i] = ro2[i] = q;
          if (quasi) ru[i] = ru[i] + q * D;
        } else if (b.type == 2 && !zero) {
          rv[i] = (q - ru[i]) / D;  // carries the displacement to the prescribed value within the step
          if (quasi) ru[i] = q;
        }
      }
    V2              uv = u.view(), vv = v.view();
    std::vector<V2> ov{o.view(), o2.view()};
    if (off)
      m.ApplyKinematicBC(tc, t0, x.view(), uv, vv, ov);
    else
      m.ApplyKinematicBC(tc, t0, x.view(), uv, vv);
    same("displacement", u.d, ru);
    same("velocity", v.d, rv);
    same("off-nominal velocity", o.d, ro);
    same("second off-nominal velocity", o2.d, ro2);
    same("reference coordinate", x.d, x0);
    se::reach("kinematic");
  } else if (c == "repeat") {  // several steps, as the integrators call it
    Field  x("x", 3), u("u", 3, 0.5), v("v", 3);
    int    quasi = se::choice("scheme", 2);
    BoundaryConditionManager m;
    Bc     b1 = make(2, 1, 0, 1, A, 0), b2 = make(1, 4, 2, 2, B, 0);
    m.Initialize(names, sets, snames, ssets, {b1.text, b2.text, "initial_velocity top y 2.5"}, 3, quasi ? "quasistatic" : "explicit");
    V2 uv = u.view(), vv = v.view();
    m.ApplyInitialConditions(x.view(), vv);
    double t = 0;
    for (int n : sets[7]) se::eq("initial velocity", v.d[3 * n + 1], 2.5);
    std::vector<double> u0 = u.d;
    for (int k = 0; k < 3; ++k) {
      double dt = se::real(se::nm("dt", k), 0.01, 0.5, 0.1 + 0.07 * k), tn = t + dt;
      std::vector<double> up = u.d;
      m.ApplyKinematicBC(tn, t, x.view(), uv, vv);
      if (!quasi)
        for (size_t i = 0; i < u.d.size(); ++i) u.d[i] += (tn - t) * v.d[i];
      for (int n : sets[1]) se::eq(se::nm("displacement is the prescribed one", n, k), u.d[3 * n], value(b1, &x.d[3 * n], 3, tn));
      for (int n : sets[4]) se::eq(se::nm("displacement follows the velocity", n, k), u.d[3 * n + 2], up[3 * n + 2] + (tn - t) * value(b2, &x.d[3 * n], 3, tn));
      t = tn;
    }
    se::reach("repeat");
  } else if (c == "system") {  // rows, columns and right-hand side of the linear system
    int                      w = se::choice("conditions", 4), kind = se::choice("matrix", 2), d = se::choice("dim", 2) + 2;
    std::vector<int>         ids = w % 2 ? std::vector<int>{2, 0, 1, 4, 3} : std::vector<int>{0, 1, 2, 3, 4};
    std::vector<std::string> s;
    std::vector<Bc>          l;
    l.push_back(make(1 + w % 2, 1, w % d, w, A, 0));
    l.push_back(make(0, 7, 0, 0, B, 0));
    if (w > 1) l.push_back(make(2 - w % 2, 4, (w + 1) % d, 0, B, 0));
    for (auto& b : l) s.push_back(b.text);
    BoundaryConditionManager m;
    m.Initialize(names, sets, snames, ssets, s, d, "quasistatic");
    int                n = NN * d;
    std::vector<int>   I, J;
    auto               in = [&](int i, int j) { return kind == 0 || i == j || (i * 7 + j * 7) % 5 < 2; };
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (in(i, j)) I.push_back(i), J.push_back(j);
    double              diag = se::real("diagonal", 0.5, 100, 3.0);
    std::vector<double> a(n * n, 0.0), rhs(n), r0;
    std::vector<char>   fix(n, 0);
    for (int i = 0; i < n; ++i) {
      rhs[i] = se::real(se::nm("b", i), -5, 5, 0.3 * (i % 4) + 0.1);
      for (int j = 0; j < n; ++j)
        if (in(i, j)) a[i * n + j] = se::real(se::nm("a", i, j), -5, 5, 0.1 + (i * 3 + j) % 8);
    }
    r0 = rhs;
    for (auto& b : l)
      if (b.type)
        for (int q : sets[b.set]) fix[ids[q] * d + b.coord] = 1;
    auto expect = [&](int i, int j) { return fix[i] || fix[j] ? (i == j ? diag : 0.0) : a[i * n + j]; };
    if (kind == 0) {
      nimble::MatrixContainer K;
      K.AllocateNonzeros(I, J);
      for (size_t k = 0; k < I.size(); ++k) K(I[k], J[k]) = a[I[k] * n + J[k]];
      m.ModifyTangentStiffnessMatrixForKinematicBC(n, ids.data(), diag, K);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) se::eq(se::nm("tangent", i, j), K(i, j), expect(i, j));
    } else {
      nimble::CRSMatrixContainer K;
      K.AllocateNonzeros(I, J);
      for (size_t k = 0; k < I.size(); ++k) K(I[k], J[k]) = a[I[k] * n + J[k]];
      m.ModifyTangentStiffnessMatrixForKinematicBC(n, ids.data(), diag, K);
      for (size_t k = 0; k < I.size(); ++k) se::eq(se::nm("sparse tangent", I[k], J[k]), K(I[k], J[k]), expect(I[k], J[k]));
    }
    m.ModifyRHSForKinematicBC(ids.data(), rhs.data());
    for (int i = 0; i < n; ++i) se::eq(se::nm("right-hand side", i), rhs[i], fix[i] ? 0.0 : r0[i]);
    se::reach("system");
  } else if (c == "refused") {
    std::string v     = se::text(A);
    std::string bad[] = {"prescribed_displacment bottom x " + v, "Initial_velocity bottom x " + v, "velocity bottom x " + v, "prescribed_velocity bottom w " + v, "prescribed_velocity bottom xx " + v,
                         "prescribed_velocity bottom 0 " + v, "prescribed_velocity bottom x \"" + v, "prescribed_velocity bottom x \"" + v + "*t\" \"", "prescribed_velocity bottom x \"" + v + "*q\"",
                         "prescribed_displacement bottom y \"" + v + "*(x\"", "initial_velocity bottom z \"\"\"\"", "", "prescribed_velocity bottom"};
    int k = 0;
    for (auto& s : bad) {
      bool refused = false;
      try {
        BoundaryConditionManager m;
        m.Initialize(names, sets, snames, ssets, {"prescribed_velocity top y " + v, s}, 3, "explicit");
      } catch (const std::exception&) {
        refused = true;
      }
      se::truth(se::nm("refused", k++), refused);
    }
    se::reach("refused");
  } else
    throw std::logic_error("unknown case");
}
