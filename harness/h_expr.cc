// B02: text expressions of boundary conditions mean what ordinary algebra says
#include "hx.h"
#include <functional>
#include <memory>
#include <stdexcept>
#include "nimble_expression_parser.h"
using ExpressionParsing::BoundaryConditionFunctor;
namespace {
double X, Y, Z, T;
std::string c1t, c2t;
double      c1, c2;
struct N
{
  char               op;  // v variable, n numeral, b binary (f = operator), u minus, f function, c conditional
  std::string        f;
  std::vector<const N*> k;
  double             v = 0;
};
std::vector<std::unique_ptr<N>> pool;
const N*
mk(char op, std::string f, std::vector<const N*> k = {}, double v = 0)
{
  pool.emplace_back(new N{op, f, k, v});
  return pool.back().get();
}
const N* var(const char* s) { return mk('v', s); }
const N* num(std::string s, double v) { return mk('n', s, {}, v); }
const N* bin(const char* o, const N* a, const N* b) { return mk('b', o, {a, b}); }
const N* neg(const N* a) { return mk('u', "-", {a}); }
const N* fun(const char* f, const N* a) { return mk('f', f, {a}); }
double
call(const std::string& f, double a)
{
  if (f == "sin") return std::sin(a);
  if (f == "cos") return std::cos(a);
  if (f == "tan") return std::tan(a);
  if (f == "erf") return std::erf(a);
  if (f == "exp") return std::exp(a);
  if (f == "log") return std::log(a);
  if (f == "abs") return std::fabs(a);
  if (f == "asin") return std::asin(a);
  if (f == "acos") return std::acos(a);
  if (f == "atan") return std::atan(a);
  if (f == "sqrt") return std::sqrt(a);
  if (f == "cbrt") return std::cbrt(a);
  if (f == "erfc") return std::erfc(a);
  if (f == "ceil") return std::ceil(a);
  if (f == "round") return std::round(a);
  if (f == "floor") return std::floor(a);
  if (f == "log10") return std::log10(a);
  throw std::logic_error(f);
}
bool truth(const N* n);
double
val(const N* n)
{
  switch (n->op) {
    case 'v': return n->f == "x" || n->f == "X" ? X : n->f == "y" || n->f == "Y" ? Y : n->f == "z" || n->f == "Z" ? Z : T;
    case 'n': return n->v;
    case 'u': return -val(n->k[0]);
    case 'f': return call(n->f, val(n->k[0]));
    case 'c': return truth(n->k[0]) ? val(n->k[1]) : val(n->k[2]);
  }
  double a = val(n->k[0]), b = val(n->k[1]);
  switch (n->f[0]) {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '/': return a / b;
    case '%': return std::fmod(a, b);
  }
  return std::pow(a, b);
}
bool
truth(const N* n)
{
  const std::string& o = n->f;
  if (o == "true") return true;
  if (o == "false") return false;
  if (o == "!") return !truth(n->k[0]);
  if (o == "&") { bool a = truth(n->k[0]), b = truth(n->k[1]); return a && b; }
  if (o == "|") { bool a = truth(n->k[0]), b = truth(n->k[1]); return a || b; }
  if (o == "^") { bool a = truth(n->k[0]), b = truth(n->k[1]); return a != b; }
  double a = val(n->k[0]), b = val(n->k[1]);
  if (o == ">") return a > b;
  if (o == ">=") return a >= b;
  if (o == "<") return a < b;
  if (o == "<=") return a <= b;
  return a == b;
}
// precedence: conditional 0, + - 1, * / 2, unary minus 3, ^ 4, atoms 5
int
prec(const N* n)
{
  if (n->op == 'c') return 0;
  if (n->op == 'u') return 3;
  if (n->op != 'b') return 5;
  return n->f == "+" || n->f == "-" ? 1 : n->f == "^" ? 4 : n->f == "%" ? 0 : 2;
}
std::string show(const N* n, int style);
std::string
inner(const N* n, int style, bool paren)
{
  std::string s = show(n, style);
  if (!paren && style < 2) return s;
  if (!paren && n->op != 'b') return s;
  return style % 2 ? "( " + s + " )" : "(" + s + ")";
}
// style: 0 compact, 1 blanks around operators and inside parentheses, 2/3 the same with redundant parentheses
std::string
show(const N* n, int style)
{
  std::string sp = style % 2 ? " " : "";
  switch (n->op) {
    case 'v':
    case 'n': return n->f;
    case 'u': return "-" + inner(n->k[0], style, prec(n->k[0]) < 5);
    case 'f': return n->f + "(" + sp + show(n->k[0], style) + sp + ")";
    case 'c': return show(n->k[0], style) + sp + "?" + sp + inner(n->k[1], style, n->k[1]->op == 'c') + sp + ":" + sp + inner(n->k[2], style, false);
    case '?': {  // boolean
      const std::string& o = n->f;
      if (n->k.empty()) return o;
      if (o == "!") return "!(" + sp + show(n->k[0], style) + sp + ")";
      if (o == "&" || o == "|" || o == "^") {
        auto side = [&](const N* c) { return c->f == "&" || c->f == "|" || c->f == "^" ? "(" + show(c, style) + ")" : show(c, style); };
        return side(n->k[0]) + sp + o + sp + side(n->k[1]);
      }
      return inner(n->k[0], style, prec(n->k[0]) < 1) + sp + o + sp + inner(n->k[1], style, prec(n->k[1]) < 1);
    }
  }
  int  p  = prec(n);
  bool pl = n->f == "^" ? prec(n->k[0]) <= 4 : n->f == "%" ? prec(n->k[0]) < 5 : prec(n->k[0]) < p;
  // a minus sign may follow any operator; only + - * / ^ differ in how tightly they bind
  bool pr = n->k[1]->op == 'u' ? false : n->f == "^" ? prec(n->k[1]) < 4 : n->f == "%" ? prec(n->k[1]) < 5 : prec(n->k[1]) <= p;
  return inner(n->k[0], style, pl) + sp + n->f + sp + inner(n->k[1], style, pr);
}
const N* boolean(const char* o, std::vector<const N*> k = {}) { return mk('?', o, k); }
const N* cond(const N* c, const N* a, const N* b) { return mk('c', "?", {c, a, b}); }
void
inputs(double lo = 0.5, double hi = 2.0)
{
  X = se::real("x", lo, hi, 0.5 * (lo + hi) + 0.15 * (hi - lo));
  Y = se::real("y", lo, hi, 0.5 * (lo + hi) - 0.28 * (hi - lo));
  Z = se::real("z", lo, hi, 0.5 * (lo + hi) + 0.37 * (hi - lo));
  T = se::real("t", lo, hi, 0.5 * (lo + hi) - 0.11 * (hi - lo));
}
void
check(const N* n, int style)
{
  std::string text = show(n, style);
  std::string what = "value of " + text;
  for (auto q : {&c1t, &c2t})
    for (size_t p = 0; !q->empty() && (p = what.find(*q, p)) != std::string::npos; p += 2) what.replace(p, q->size(), q == &c1t ? "c1" : "c2");
  for (auto& c : what)
    if (c == ' ') c = '_';
  double got;
  try {
    BoundaryConditionFunctor f(text);
    got = f(X, Y, Z, T);
  } catch (const std::exception& e) {
    se::truth((what + " is accepted").c_str(), false);
    return;
  }
  se::eq(what.c_str(), got, val(n));
}
const char* OPS[] = {"+", "-", "*", "/", "^"};
bool positive(const N* n) { return n->op == 'v' || n->op == 'n' || (n->op == 'b' && n->f != "-" && positive(n->k[0]) && positive(n->k[1])) || (n->op == 'f' && n->f == "exp"); }
bool
sane(const N* n)
{  // powers have positive bases and divisors are positive, so that every value is defined
  for (auto k : n->k)
    if (!sane(k)) return false;
  if (n->op == 'b' && (n->f == "^") && !positive(n->k[0])) return false;
  if (n->op == 'b' && (n->f == "/") && !positive(n->k[1]) && n->k[1]->op != 'u') return false;
  return true;
}
const N* konst(int i) { return i ? num(c2t, c2) : num(c1t, c1); }
void
numerals(double lo = 0.5, double hi = 2.0)
{
  c1  = se::real("c1", lo, hi, 0.4 * lo + 0.6 * hi);
  c2  = se::real("c2", lo, hi, 0.9 * lo + 0.1 * hi);
  c1t = se::text(c1);
  c2t = se::text(c2);
}
}  // namespace

void
harness(const char* name)
{
  std::string c = name;
  if (c == "two") {  // every tree of two operators, leaves constants or variables, every layout
    inputs();
    numerals();
    int style = se::choice("style", 4);
    int leaf  = se::choice("leaves", 8);
    const N* l[3] = {leaf & 1 ? konst(0) : var("x"), leaf & 2 ? konst(1) : var("y"), leaf & 4 ? num("1.25", 1.25) : var("t")};
    for (auto a : OPS)
      for (auto b : OPS)
        for (int sh = 0; sh < 2; ++sh) {
          const N* n = sh ? bin(a, bin(b, l[0], l[1]), l[2]) : bin(a, l[0], bin(b, l[1], l[2]));
          if (sane(n)) check(n, style);
        }
    se::reach("two");
  } else if (c == "three") {  // every tree of three operators over the variables
    inputs();
    numerals();
    int      style = se::choice("style", 2);
    int      o1    = se::choice("op", 5);
    const N* l[4]  = {var("x"), var("y"), style ? var("z") : konst(0), var("t")};
    for (auto b : OPS)
      for (auto d : OPS) {
        const char* a    = OPS[o1];
        const N*    ts[] = {bin(a, l[0], bin(b, l[1], bin(d, l[2], l[3]))), bin(a, l[0], bin(b, bin(d, l[1], l[2]), l[3])), bin(a, bin(b, l[0], l[1]), bin(d, l[2], l[3])),
                            bin(a, bin(b, l[0], bin(d, l[1], l[2])), l[3]), bin(a, bin(b, bin(d, l[0], l[1]), l[2]), l[3])};
        for (auto n : ts)
          if (sane(n)) check(n, style);
      }
    se::reach("three");
  } else if (c == "minus") {  // minus signs in front of every operand
    inputs();
    numerals();
    int style = se::choice("style", 4);
    int where = se::choice("where", 8);
    for (auto a : OPS)
      for (auto b : OPS)
        for (int sh = 0; sh < 2; ++sh) {
          auto     m = [&](int i, const N* n) { return where >> i & 1 ? neg(n) : n; };
          const N* l0 = m(0, var("x"));
          const N* l1 = m(1, where & 1 ? konst(0) : var("y"));
          const N* l2 = m(2, var("t"));
          // a leading minus of the base of a power is left out: whether it belongs to the base is a convention
          const N* n = sh ? bin(a, bin(b, l0, l1), l2) : bin(a, l0, bin(b, l1, l2));
          if ((where & 1) && (std::string(sh ? b : a) == "^" || (sh && std::string(a) == "^"))) continue;
          if (sane(n)) check(n, style);
        }
    const N* whole[] = {neg(bin("+", var("x"), var("y"))), neg(bin("*", var("x"), neg(var("y")))), bin("-", neg(bin("-", var("x"), var("t"))), neg(bin("-", var("y"), var("z")))),
                        bin("*", var("z"), neg(bin("+", var("x"), neg(var("t"))))), neg(fun("sin", neg(var("x"))))};
    for (auto n : whole) check(n, style);
    se::reach("minus");
  } else if (c == "functions") {
    inputs(0.3, 0.9);
    numerals(0.3, 0.9);
    int style = se::choice("style", 2);
    for (auto f : {"sin", "cos", "tan", "erf", "exp", "log", "asin", "acos", "atan", "sqrt", "cbrt", "erfc", "log10"}) {
      check(fun(f, var("x")), style);
      check(fun(f, konst(0)), style);
      check(fun(f, bin("*", var("x"), var("t"))), style);
      check(bin("-", bin("*", konst(1), fun(f, var("y"))), var("t")), style);
      check(bin("+", neg(fun(f, bin("*", var("y"), var("x")))), bin("*", fun("cos", var("t")), fun(f, var("z")))), style);
      check(fun("exp", neg(fun(f, var("z")))), style);
    }
    check(bin("%", fun("exp", var("x")), var("y")), style);
    check(bin("+", var("z"), bin("*", konst(0), mk('f', "sin", {bin("/", bin("*", num("pi", M_PI), var("t")), num("2.0e-4", 2.0e-4))}))), style);
    se::reach("functions");
  } else if (c == "rounding") {
    inputs(0.3, 1.7);
    int      style = se::choice("style", 2);
    int      w     = se::choice("f", 4);
    const char* fs[] = {"abs", "ceil", "round", "floor"};
    check(fun(fs[w], bin("-", var("x"), var("y"))), style);
    check(bin("*", var("t"), fun(fs[w], var("x"))), style);
    se::reach("rounding");
  } else if (c == "numbers") {
    inputs();
    struct { const char* t; double v; } k[] = {{"0", 0}, {"7", 7}, {"12.5", 12.5}, {".5", .5}, {"5.", 5}, {"1e3", 1e3}, {"1e-3", 1e-3}, {"1e+3", 1e3}, {"2.5e-4", 2.5e-4},
                                               {"2.5E+2", 250}, {"3.E-2", .03}, {".25e1", 2.5}, {"e", M_E}, {"pi", M_PI}, {"tau", 2 * M_PI}, {"PI", M_PI}};
    for (auto& q : k)
      for (int style = 0; style < 2; ++style) {
        const N* n = num(q.t, q.v);
        check(n, style);
        check(neg(n), style);
        check(bin("*", n, var("x")), style);
        check(bin("*", var("X"), n), style);
        check(bin("+", var("t"), n), style);
        check(bin("-", var("x"), n), style);
        check(bin("-", n, var("x")), style);
        check(bin("+", n, bin("*", n, var("y"))), style);
        check(bin("-", num("1", 1), bin("*", n, var("y"))), style);
        check(bin("-", bin("-", var("y"), n), var("t")), style);
        check(bin("-", bin("*", n, var("z")), num("2.0e-1", .2)), style);
        if (q.v > 0) check(bin("/", var("x"), n), style);
        check(bin("^", var("x"), n), style);
        check(bin("^", var("x"), neg(n)), style);
      }
    se::reach("numbers");
  } else if (c == "conditions") {
    inputs();
    numerals();
    int         style = se::choice("style", 2);
    int         w     = se::choice("w", 5);
    const char* rel[] = {">", ">=", "<", "<=", "=="};
    const N *   x = var("x"), *y = var("y"), *z = var("z"), *t = var("t");
    const N*    a = boolean(rel[w], {x, y});
    const N*    b = boolean(rel[(w + 2) % 5], {bin("*", konst(0), z), bin("+", t, konst(1))});
    const N*    l[] = {cond(a, x, t), cond(a, konst(0), bin("*", z, t)), cond(b, bin("-", x, y), neg(z)), bin("+", x, cond(a, y, z)), cond(boolean(rel[w], {t, konst(0)}), num("0", 0), fun("sin", t))};
    for (auto n : l) {
      if (n->op == 'b') {
        // a conditional inside a sum stands in parentheses
        std::string s = "x+(" + show(n->k[1], style) + ")";
        BoundaryConditionFunctor f(s);
        se::eq(("value of x+(cond)" + std::to_string(w)).c_str(), f(X, Y, Z, T), val(n));
      } else
        check(n, style);
    }
    se::reach("conditions");
  } else if (c == "logic") {
    inputs();
    numerals();
    int      style = se::choice("style", 2);
    int      w     = se::choice("w", 9);
    const N *x = var("x"), *y = var("y"), *z = var("z"), *t = var("t");
    const N *a = boolean(">", {x, y}), *b = boolean("<", {z, t}), *d = boolean("<=", {t, konst(0)});
    const N *r = cond(boolean("&", {a, b}), x, t);
    if (w == 1) r = cond(boolean("|", {a, b}), x, y);
    if (w == 2) r = cond(boolean("^", {a, b}), bin("*", x, y), konst(1));
    if (w == 3) r = cond(boolean("!", {a}), x, y);
    if (w == 4) r = cond(boolean("|", {boolean("&", {a, b}), d}), x, neg(x));
    if (w == 5) r = cond(boolean("&", {boolean("!", {boolean("|", {a, b})}), d}), x, y);
    if (w == 6) r = cond(a, cond(b, x, y), cond(d, z, t));
    if (w == 7) r = cond(boolean("|", {boolean("true"), a}), konst(0), y);
    if (w == 8) r = cond(boolean("&", {boolean("false"), a}), x, cond(boolean("true"), bin("-", t, y), x));
    check(r, style);
    se::reach("logic");
  } else if (c == "refused") {  // text that is not an expression is refused, and does not disturb what was there
    inputs();
    const char* bad[] = {"", "x+", "*x", "x*", "x/", "q", "x y", "2x", "x..", "1.2.3", "1e", "(x", "x)", "((x)", "sin(x", "sin x", "sinh(x)", "sin()", "()", "x ? 1", "x > ? 1 : 2", "x > y", "foo(x)+1", "x+*y", "1 + + 2 +"};
    for (auto s : bad) {
      bool refused = false;
      try {
        ExpressionParsing::EquationContext ctx;
        ctx.AddVarible("x", X);
        ctx.AddVarible("y", Y);
        ctx.ParseEquation(std::string(s));
      } catch (const std::exception&) {
        refused = true;
      }
      se::truth((std::string("refused: ") + s).c_str(), refused);
    }
    BoundaryConditionFunctor f("2*x");
    try { f = std::string("x+*"); } catch (const std::invalid_argument&) {}
    se::eq("a refused assignment keeps the old value", f(X, Y, Z, T), 2 * X);
    se::reach("refused");
  } else if (c == "copies") {  // copies are independent, long expressions work, values follow the arguments
    inputs();
    numerals();
    BoundaryConditionFunctor f("x*" + c1t + "-sin(t)"), g(f), h("y"), e;
    double v1 = f(X, Y, Z, T), v2 = g(Y, Z, T, X), v3 = f(X, Y, Z, T);
    se::eq("value", v1, X * c1 - std::sin(T));
    se::eq("value of the copy", v2, Y * c1 - std::sin(X));
    se::eq("value again", v3, v1);
    h = f;
    se::eq("assigned", h(Z, X, Y, Y), Z * c1 - std::sin(Y));
    f = std::string("z+t");
    se::eq("reassigned", f.eval(X, Y, Z, T), Z + T);
    se::eq("reassignment leaves the copies alone", h(Z, X, Y, Y), Z * c1 - std::sin(Y));
    g.x = T; g.t = Z;
    se::eq("eval of stored arguments", g.eval(), T * c1 - std::sin(Z));
    {
      std::vector<BoundaryConditionFunctor> many;
      for (int i = 0; i < 5; ++i) many.push_back(BoundaryConditionFunctor(i % 2 ? "x-y" : "z*t"));
      for (int i = 0; i < 5; ++i) se::eq(se::nm("stored functor", i), many[i](X, Y, Z, T), i % 2 ? X - Y : Z * T);
    }
    std::string s = "x";
    double      r = X;
    for (int i = 1; i < 150; ++i) {
      int m = i % 4;
      s += m == 0 ? "+y*t" : m == 1 ? "-z" : m == 2 ? "+" + c2t : "-x*x";
      r += m == 0 ? Y * T : m == 1 ? -Z : m == 2 ? c2 : -(X * X);
    }
    {
      BoundaryConditionFunctor lf(s);
      se::eq("long expression", lf(X, Y, Z, T), r);
      BoundaryConditionFunctor lg(lf);
      se::eq("copy of a long expression", lg(Y, X, T, Z), [&] { double q = Y; for (int i = 1; i < 150; ++i) { int m = i % 4; q += m == 0 ? X * Z : m == 1 ? -T : m == 2 ? c2 : -(Y * Y); } return q; }());
    }
    bool threw = false;
    try { e.eval(); } catch (const std::invalid_argument&) { threw = true; }
    se::truth("an empty functor refuses to evaluate", threw);
    se::reach("copies");
  } else
    throw std::logic_error("unknown case");
}
