// Exact normaliser: reads a path record, turns the two sides of an obligation into a Laurent polynomial over the
// symbolic inputs (rational coefficients, GMP), with roots and transcendental results as extra atoms, and prints
// the difference: zero, or the residual terms with interval bounds, for the SMT stage.
#include <gmpxx.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;

typedef vector<pair<int, int>> Mono;  // (var, exp) sorted by var, exp != 0
struct MH
{
  size_t operator()(const Mono& m) const
  {
    size_t h = 1469598103934665603ull;
    for (auto& p : m) { h = (h ^ (size_t)p.first * 1000003u ^ (size_t)(p.second + 77)) * 1099511628211ull; }
    return h;
  }
};
typedef unordered_map<Mono, mpq_class, MH> Poly;
struct TooBig {};
static size_t  LIM = 150000;
static double  TMAX = 60;
static clock_t T0;
static void tick() { if ((double)(clock() - T0) / CLOCKS_PER_SEC > TMAX) throw TooBig(); }

static Mono mulm(const Mono& a, const Mono& b)
{
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      ++i; ++j;
    }
  }
  return r;
}
static void addto(Poly& p, const Mono& m, const mpq_class& c)
{
  auto it = p.find(m);
  if (it == p.end()) { if (c != 0) p.emplace(m, c); return; }
  it->second += c;
  if (it->second == 0) p.erase(it);
}
static Poly add(const Poly& a, const Poly& b, int sb)
{
  if (a.size() < b.size()) {
    Poly r;
    if (sb > 0) r = b; else for (auto& t : b) r.emplace(t.first, -t.second);
    for (auto& t : a) addto(r, t.first, t.second);
    if (r.size() > LIM) throw TooBig();
    return r;
  }
  Poly r = a;
  for (auto& t : b) { if (sb > 0) addto(r, t.first, t.second); else addto(r, t.first, -t.second); }
  if (r.size() > LIM) throw TooBig();
  return r;
}
static Poly mul(const Poly& a, const Poly& b)
{
  Poly r;
  const Poly& s = a.size() < b.size() ? a : b;
  const Poly& l = a.size() < b.size() ? b : a;
  if (s.size() * l.size() > 40 * LIM) throw TooBig();
  r.reserve(min(s.size() * l.size(), LIM));
  for (auto& x : s) {
    for (auto& y : l) addto(r, mulm(x.first, y.first), x.second * y.second);
    if (r.size() > LIM) throw TooBig();
    tick();
  }
  return r;
}
static Poly scal(const Poly& a, const mpq_class& c)
{
  Poly r;
  if (c == 0) return r;
  for (auto& t : a) r.emplace(t.first, t.second * c);
  return r;
}
static Poly cst(const mpq_class& c) { Poly r; if (c != 0) r.emplace(Mono(), c); return r; }
static Poly var(int v, int e = 1) { Poly r; r.emplace(Mono{{v, e}}, mpq_class(1)); return r; }
static string keyof(const Poly& p)
{
  vector<string> v;
  for (auto& t : p) {
    string s;
    for (auto& q : t.first) s += to_string(q.first) + "^" + to_string(q.second) + ".";
    v.push_back(s + "*" + t.second.get_str());
  }
  sort(v.begin(), v.end());
  string r;
  for (auto& s : v) r += s + "+";
  return r;
}
static Poly powp(const Poly& a, int e) { Poly r = cst(1); for (int i = 0; i < e; ++i) r = mul(r, a); return r; }

struct Node { string op; unsigned a = 0, b = 0; double val = 0, c = 0; string name; double lo, hi; bool used = false; };
static map<unsigned, Node> N;
struct Itv { double lo, hi; };
static map<unsigned, Itv>  IV;
// variables: kind 'v' input, 'B' denominator atom, 'S' sqrt, 'C' cbrt, 'F' other / cut
struct Var { char kind; string name; Poly p; Itv iv; unsigned node; };
static vector<Var>        vars;
static map<string, int>   varkey;
static map<unsigned, Poly> P;
static set<unsigned>      denoms;
static int                ncut = 0;

static Itv down(Itv x) { double e = 1e-12; return {x.lo - e * (1e-300 + fabs(x.lo)), x.hi + e * (1e-300 + fabs(x.hi))}; }
static Itv imul(Itv a, Itv b)
{
  auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
  double p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)};
  return down({*min_element(p, p + 4), *max_element(p, p + 4)});
}
static Itv iinv(Itv b)
{
  if (b.lo > 0 || b.hi < 0) return down({1 / b.hi, 1 / b.lo});
  return {-INFINITY, INFINITY};
}
static map<unsigned, Itv> refine;
static Itv itv(unsigned i)
{
  auto it = IV.find(i);
  if (it != IV.end()) return it->second;
  Node& n = N[i];
  Itv   r{-INFINITY, INFINITY};
  if (n.op == "c") r = {n.c, n.c};
  else if (n.op == "v") r = {n.lo, n.hi};
  else if (n.op == "+") { Itv x = itv(n.a), y = itv(n.b); r = down({x.lo + y.lo, x.hi + y.hi}); }
  else if (n.op == "-") { Itv x = itv(n.a), y = itv(n.b); r = down({x.lo - y.hi, x.hi - y.lo}); }
  else if (n.op == "*") {
    Itv x = itv(n.a), y = itv(n.b);
    r = imul(x, y);
    if (n.a == n.b) { r.lo = max(0.0, r.lo); if (x.lo <= 0 && x.hi >= 0) r.lo = 0; }
  }
  else if (n.op == "/") r = imul(itv(n.a), iinv(itv(n.b)));
  else if (n.op == "~") { Itv x = itv(n.a); r = {-x.hi, -x.lo}; }
  else if (n.op == "sqrt") { Itv x = itv(n.a); r = down({sqrt(max(0.0, x.lo)), sqrt(max(0.0, x.hi))}); r.lo = max(0.0, r.lo); }
  else if (n.op == "cbrt") { Itv x = itv(n.a); r = down({cbrt(x.lo), cbrt(x.hi)}); }
  else if (n.op == "sin" || n.op == "cos" || n.op == "tanh" || n.op == "erf") r = {-1, 1};
  else if (n.op == "exp") { Itv x = itv(n.a); r = down({exp(x.lo), exp(x.hi)}); r.lo = max(0.0, r.lo); }
  else if (n.op == "log") { Itv x = itv(n.a); r = down({x.lo > 0 ? log(x.lo) : -INFINITY, x.hi > 0 ? log(x.hi) : INFINITY}); }
  else if (n.op == "acos") r = {0, 3.1415926535897936};
  if (isnan(r.lo)) r.lo = -INFINITY;
  if (isnan(r.hi)) r.hi = INFINITY;
  auto rf = refine.find(i);
  if (rf != refine.end()) { r.lo = max(r.lo, rf->second.lo); r.hi = min(r.hi, rf->second.hi); }
  IV[i] = r;
  return r;
}
static Itv mitv(const Mono& m)
{
  Itv r{1, 1};
  for (auto& q : m) {
    Itv x = vars[q.first].iv;
    int e = abs(q.second);
    Itv pw{1, 1};
    if (e % 2 == 0) {
      double a = max(fabs(x.lo), fabs(x.hi)), b = (x.lo <= 0 && x.hi >= 0) ? 0 : min(fabs(x.lo), fabs(x.hi));
      pw = down({pow(b, e), pow(a, e)});
      pw.lo = max(0.0, pw.lo);
    } else
      pw = down({pow(x.lo, e), pow(x.hi, e)});
    if (q.second < 0) pw = iinv(pw);
    r = imul(r, pw);
  }
  return r;
}
static Itv pitv(const Poly& p)
{
  Itv s{0, 0};
  for (auto& t : p) { double c = t.second.get_d(); Itv m = imul(mitv(t.first), {c, c}); s.lo += m.lo; s.hi += m.hi; }
  return down(s);
}
static Itv meet(Itv a, Itv b) { return {max(a.lo, b.lo), min(a.hi, b.hi)}; }
static int newvar(char kind, const string& key, const string& name, const Poly& p, Itv iv, unsigned node)
{
  string k = string(1, kind) + key;
  auto   it = varkey.find(k);
  if (it != varkey.end()) { vars[it->second].iv = meet(vars[it->second].iv, iv); return it->second; }
  vars.push_back({kind, name, p, iv, node});
  varkey[k] = vars.size() - 1;
  return vars.size() - 1;
}
// denominator atoms with positive exponents written out, so that equal arguments get equal keys
static Poly flat(Poly p)
{
  for (int v = (int)vars.size() - 1; v >= 0; --v) {
    if (vars[v].kind != 'B') continue;
    bool need = false;
    for (auto& t : p)
      for (auto& q : t.first)
        if (q.first == v && q.second > 0) need = true;
    if (!need) continue;
    Poly r;
    for (auto& t : p) {
      int  e = 0;
      Mono m;
      for (auto& q : t.first)
        if (q.first == v && q.second > 0) e = q.second;
        else m.push_back(q);
      Poly one;
      one.emplace(m, t.second);
      r = add(r, e ? mul(one, powp(vars[v].p, e)) : one, 1);
    }
    p = r;
  }
  return p;
}
// reduce root powers: S^2 -> p, C^3 -> p
static Poly reduce(Poly p)
{
  for (int v = (int)vars.size() - 1; v >= 0; --v) {
    char kd = vars[v].kind;
    if (kd != 'S' && kd != 'C') continue;
    int  k = kd == 'S' ? 2 : 3;
    map<int, Poly> by;
    bool need = false;
    for (auto& t : p)
      for (auto& q : t.first)
        if (q.first == v && (q.second >= k)) need = true;
    if (!need) continue;
    Poly r;
    for (auto& t : p) {
      int  e = 0;
      Mono m;
      for (auto& q : t.first) if (q.first == v) e = q.second; else m.push_back(q);
      if (e >= k) {
        int d = e / k, rem = e - d * k;
        by[d * 16 + rem].emplace(m, t.second);
      } else addto(r, t.first, t.second);
    }
    for (auto& b : by) {
      int d = b.first / 16, rem = b.first % 16;
      Poly q = mul(b.second, powp(vars[v].p, d));
      if (rem) q = mul(q, var(v, rem));
      r = add(r, q, 1);
    }
    p = r;
  }
  return p;
}
static const Poly& poly(unsigned i);
static Poly calc(unsigned i)
{
  Node& n = N[i];
  if (n.op == "c") {
    if (!isfinite(n.c)) return var(newvar('F', "nf" + to_string(i), "nonfinite", Poly(), {-INFINITY, INFINITY}, i));
    return cst(mpq_class(n.c));
  }
  if (n.op == "v") return var(newvar('v', n.name, n.name, Poly(), itv(i), i));
  if (n.op == "+") return reduce(add(poly(n.a), poly(n.b), 1));
  if (n.op == "-") return reduce(add(poly(n.a), poly(n.b), -1));
  if (n.op == "*") return reduce(mul(poly(n.a), poly(n.b)));
  if (n.op == "~") return scal(poly(n.a), -1);
  if (n.op == "/") {
    const Poly& pb = poly(n.b);
    const Poly& pa = poly(n.a);
    if (pb.size() == 1) {
      Mono m = pb.begin()->first;
      for (auto& q : m) q.second = -q.second;
      Poly r;
      r.emplace(m, 1 / pb.begin()->second);
      return reduce(mul(pa, r));
    }
    if (pb.empty()) return var(newvar('F', "dz" + to_string(i), "div0", Poly(), {-INFINITY, INFINITY}, i));
    // canonical leading coefficient
    throw 1;  // cannot happen: denominators are atoms
  }
  if (n.op == "sqrt" || n.op == "cbrt") {
    const Poly& pa = poly(n.a);
    char        k  = n.op == "sqrt" ? 'S' : 'C';
    if (k == 'S' && pa.size() == 1 && pa.begin()->first.empty()) {
      mpq_class c = pa.begin()->second;
      if (c >= 0 && mpz_perfect_square_p(c.get_num_mpz_t()) && mpz_perfect_square_p(c.get_den_mpz_t()))
        return cst(mpq_class(sqrt(c.get_num()), sqrt(c.get_den())));
    }
    return var(newvar(k, keyof(flat(pa)), n.op + to_string(i), pa, itv(i), i));
  }
  // transcendental: congruent on equal arguments
  string key = n.op + ":" + keyof(flat(poly(n.a)));
  if (n.op == "pow" || n.op == "atan2" || n.op == "fmod" || n.op == "remainder" || n.op == "hypot") key += ":" + keyof(flat(poly(n.b)));
  return var(newvar('F', key, n.op + to_string(i), Poly(), itv(i), i));
}
static const Poly& poly(unsigned i)
{
  auto it = P.find(i);
  if (it != P.end()) return it->second;
  Poly p;
  try {
    tick();
    p = calc(i);
    if (denoms.count(i) && p.size() > 1) {
      // canonical atom: scale by the coefficient of the lexicographically smallest monomial
      const Mono* best = nullptr;
      for (auto& t : p) if (!best || t.first < *best) best = &t.first;
      mpq_class lc = p[*best];
      Poly      q  = scal(p, 1 / lc);
      Itv       iv = imul(meet(itv(i), pitv(p)), {1 / lc.get_d(), 1 / lc.get_d()});
      int       v  = newvar('B', keyof(q), "den" + to_string(i), q, iv, i);
      Poly      r;
      r.emplace(Mono{{v, 1}}, lc);
      p = r;
    }
  } catch (TooBig&) {
    if ((double)(clock() - T0) / CLOCKS_PER_SEC > TMAX) throw;
    ++ncut;
    p = var(newvar('F', "cut" + to_string(i), "cut" + to_string(i), Poly(), itv(i), i));
  }
  return P[i] = p;
}
// exact multivariate division: true and q = a/b when b divides a (monomials ordered lexicographically, exponents may be negative in other atoms)
static bool divexact(Poly a, const Poly& b, Poly& q)
{
  map<Mono, mpq_class> w;
  auto cmp_mono = [](const Mono& m) { return m; };
  (void)cmp_mono;
  // leading = greatest in the order "smaller variable index first, larger exponent first"
  auto less = [](const Mono& x, const Mono& y) {
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
      int vx = i < x.size() ? x[i].first : INT_MAX, vy = j < y.size() ? y[j].first : INT_MAX;
      int v = min(vx, vy), ex = vx == v ? x[i].second : 0, ey = vy == v ? y[j].second : 0;
      if (ex != ey) return ex < ey;
      if (vx == v) ++i;
      if (vy == v) ++j;
    }
    return false;
  };
  map<Mono, mpq_class, decltype(less)> A(less);
  for (auto& t : a) A[t.first] = t.second;
  const Mono* lb = nullptr;
  for (auto& t : b) if (!lb || less(*lb, t.first)) lb = &t.first;
  Mono      lm = *lb;
  mpq_class lc = b.at(lm);
  q.clear();
  size_t steps = 0, maxsteps = a.size() + 5;
  while (!A.empty()) {
    tick();
    if (++steps > maxsteps) return false;
    auto it = prev(A.end());
    Mono inv = lm;
    for (auto& x : inv) x.second = -x.second;
    Mono m = mulm(it->first, inv);
    for (auto& x : m) if (x.second < 0) {
      bool inb = false;
      for (auto& y : lm) if (y.first == x.first) inb = true;
      if (inb) return false;
    }
    mpq_class c = it->second / lc;
    addto(q, m, c);
    for (auto& t : b) {
      Mono k = mulm(m, t.first);
      auto& r = A[k];
      r -= c * t.second;
      if (r == 0) A.erase(k);
    }
  }
  return true;
}
// cancel common factors of numerator and denominator atoms, then clear what is left with a positive multiplier; sign-preserving
static bool cancel(Poly& p)
{
  for (int v = (int)vars.size() - 1; v >= 0; --v) {
    if (vars[v].kind == 'S' && vars[v].p.size() == 1) {
      Poly r;
      Mono      m1 = vars[v].p.begin()->first;
      mpq_class c1 = vars[v].p.begin()->second;
      for (auto& x : m1) x.second = -x.second;
      bool any = false;
      for (auto& t : p) {
        Mono      m = t.first;
        mpq_class c = t.second;
        for (auto& x : t.first)
          if (x.first == v && x.second < 0) {
            int k = (-x.second + 1) / 2;
            for (int i = 0; i < k; ++i) { m = mulm(m, Mono{{v, 2}}); m = mulm(m, m1); c /= c1; }
            any = true;
          }
        addto(r, m, c);
      }
      if (any) p = r;
    }
  }
  for (int v = (int)vars.size() - 1; v >= 0; --v) {
    if (vars[v].kind != 'B') continue;
    map<int, Poly> by;
    for (auto& t : p) {
      int e = 0; Mono m;
      for (auto& q : t.first) if (q.first == v) e = q.second; else m.push_back(q);
      by[e].emplace(m, t.second);
    }
    if (by.empty() || (by.begin()->first >= 0 && by.rbegin()->first == 0)) continue;
    while (!by.empty() && by.begin()->first < 0) {
      Poly q;
      if (!divexact(by.begin()->second, vars[v].p, q)) break;
      int e = by.begin()->first;
      by.erase(by.begin());
      Poly& nx = by[e + 1];
      nx = add(nx, q, 1);
      if (nx.empty()) by.erase(e + 1);
    }
    if (by.empty()) { p.clear(); return true; }
    int mn = min(0, by.begin()->first), up = -mn;
    int sg = 1;
    if (up % 2) {
      Itv iv = meet(vars[v].iv, pitv(vars[v].p));
      if (iv.lo > 0) sg = 1;
      else if (iv.hi < 0) sg = -1;
      else ++up;
    }
    Poly r;
    for (auto& b : by) r = add(r, mul(b.second, powp(vars[v].p, b.first + up)), sg);
    p = reduce(r);
  }
  for (auto& t : p) for (auto& q : t.first) if (q.second < 0 || vars[q.first].kind == 'B') return false;
  return true;
}
static void emit(char tag, int idx, const Poly& p)
{
  // terms with interval of the monomial
  vector<pair<double, string>> ts;
  double bound = 0, rest = 0;
  for (auto& t : p) {
    Itv    m = mitv(t.first);
    double a = max(fabs(m.lo), fabs(m.hi)) * fabs(t.second.get_d());
    if (isnan(a)) a = INFINITY;
    bound += a;
    stringstream ss;
    ss.precision(17);
    ss << t.second.get_str() << " " << m.lo << " " << m.hi << " ";
    if (t.first.empty()) ss << "1";
    for (size_t k = 0; k < t.first.size(); ++k) ss << (k ? "*" : "") << vars[t.first[k].first].node << "^" << t.first[k].second << "^" << vars[t.first[k].first].kind;
    ts.push_back({a, ss.str()});
  }
  sort(ts.rbegin(), ts.rend());
  printf("%c %d %zu %.17g\n", tag, idx, p.size(), bound);
  size_t lim = 400;
  for (size_t i = 0; i < ts.size(); ++i) { if (i < lim) printf("t %s\n", ts[i].second.c_str()); else rest += ts[i].first; }
  printf("r %.17g\n", rest);
}
int main(int argc, char** argv)
{
  // polyeng record idx... ; idx = position among 'O' events
  T0 = clock();
  if (getenv("POLY_TMAX")) TMAX = atof(getenv("POLY_TMAX"));
  if (getenv("POLY_LIM")) LIM = atol(getenv("POLY_LIM"));
  ifstream f(argv[1]);
  string   line;
  struct O { string kind; unsigned a, b; };
  struct Cond { unsigned a, b; map<unsigned, Itv> ref; };
  vector<Cond> conds;
  vector<O> obls;
  vector<size_t> nev;
  struct C { char k; unsigned a, b; };
  auto cval = [](unsigned i, double& v) { if (N[i].op == "c") { v = N[i].c; return true; } return false; };
  auto below = [&](unsigned a, unsigned b) {  // a <= b
    double v;
    if (cval(a, v)) { auto it = refine.find(b); if (it == refine.end()) refine[b] = {v, INFINITY}; else it->second.lo = max(it->second.lo, v); }
    if (cval(b, v)) { auto it = refine.find(a); if (it == refine.end()) refine[a] = {-INFINITY, v}; else it->second.hi = min(it->second.hi, v); }
  };
  vector<map<unsigned, Itv>> snap;
  while (getline(f, line)) {
    stringstream ss(line);
    string       t;
    ss >> t;
    auto hx = [](const string& s) { return strtod(s.c_str(), nullptr); };
    if (t == "n") {
      unsigned i; string op, x, y, z, w;
      ss >> i >> op;
      Node n; n.op = op;
      if (op == "c") { ss >> x; n.c = n.val = hx(x); }
      else if (op == "v") { ss >> n.name >> x >> y >> z; n.lo = hx(x); n.hi = hx(y); n.val = hx(z); }
      else { ss >> n.a >> n.b >> w; n.val = hx(w); if (op == "/") denoms.insert(n.b); }
      N[i] = n;
    } else if (t == "A") {
      string r; unsigned a, b; ss >> r >> a >> b;
      conds.push_back({a, b, refine});
      if (r[0] == '<') below(a, b);
      if (r[0] == '=') { below(a, b); below(b, a); }
    } else if (t == "B") {
      string r; unsigned a, b; int d; ss >> r >> a >> b >> d;
      conds.push_back({a, b, refine});
      if (r == "<") { if (d) below(a, b); else below(b, a); }
      else if (d) { below(a, b); below(b, a); }
    } else if (t == "O") {
      O o; ss >> o.kind >> o.a >> o.b;
      obls.push_back(o);
      snap.push_back(refine);
    }
  }
  if (argc > 2 && !strcmp(argv[2], "conds")) {
    // simplified form N of every comparison a ? b listed as a,b (a ? b iff N ? 0)
    set<pair<unsigned, unsigned>> want, seen;
    for (int k = 3; k < argc; ++k) { unsigned a, b; sscanf(argv[k], "%u,%u", &a, &b); want.insert({a, b}); }
    size_t  term_lim = 120;
    double  total = TMAX;
    clock_t T1 = clock();
    TMAX = min(TMAX, 3.0);
    for (auto& c : conds) {
      if ((double)(clock() - T1) / CLOCKS_PER_SEC > total) break;
      if (!want.count({c.a, c.b}) || !seen.insert({c.a, c.b}).second) continue;
      T0 = clock();
      try {
        if (refine.size() != c.ref.size()) IV.clear();
        refine = c.ref;
        Poly p = reduce(add(poly(c.a), poly(c.b), -1));
        if (ncut || !cancel(p) || p.size() > term_lim) continue;
        printf("K %u %u", c.a, c.b);
        for (auto& t : p) {
          printf(" %s", t.second.get_str().c_str());
          for (auto& q : t.first) printf("*%u^%d", vars[q.first].node, q.second);
        }
        printf("\n");
        fflush(stdout);
      } catch (TooBig&) {
      }
    }
    return 0;
  }
  if (argc > 2 && !strcmp(argv[2], "pairs")) {
    // interval of a-b by normal form, with the bounds known after `nobl` obligations (a lower bound of what is known)
    int lastno = -1;
    for (int k = 3; k < argc; ++k) {
      unsigned a, b;
      int      no;
      sscanf(argv[k], "%u,%u,%d", &a, &b, &no);
      T0 = clock();
      try {
        if (no != lastno) {
          refine = (no > 0 && no <= (int)snap.size()) ? snap[no - 1] : map<unsigned, Itv>();
          IV.clear(); P.clear(); vars.clear(); varkey.clear();
          lastno = no;
        }
        Poly p = reduce(add(poly(a), poly(b), -1));
        Itv  v = pitv(p);
        printf("V %d %.17g %.17g\n", k - 3, v.lo, v.hi);
      } catch (TooBig&) {
      }
      fflush(stdout);
    }
    return 0;
  }
  for (int k = 2; k < argc; ++k) {
    int idx = atoi(argv[k]);
    // bounds valid at this obligation; polynomials do not depend on them
    T0 = clock();
    try {
      if (refine.size() != snap[idx].size() || k == 2) {
        refine = snap[idx]; IV.clear(); P.clear(); vars.clear(); varkey.clear(); ncut = 0;
      }
      Poly p = reduce(add(poly(obls[idx].a), poly(obls[idx].b), -1));
      if (p.empty()) { printf("Z %d 0\n", idx); continue; }
      emit('T', idx, p);
      // clear denominators
      Poly c = p;
      double scale = 1;
      try {
        for (int guard = 0; guard < 60; ++guard) {
          int v = -1;
          for (auto& t : c) for (auto& q : t.first) if (vars[q.first].kind == 'B') v = max(v, q.first);
          if (v < 0) break;
          int mn = 0;
          for (auto& t : c) for (auto& q : t.first) if (q.first == v) mn = min(mn, q.second);
          map<int, Poly> by;
          for (auto& t : c) {
            int e = 0; Mono m;
            for (auto& q : t.first) if (q.first == v) e = q.second; else m.push_back(q);
            by[e - mn].emplace(m, t.second);
          }
          double lo = (vars[v].iv.lo > 0) ? vars[v].iv.lo : vars[v].iv.hi < 0 ? -vars[v].iv.hi : 0;
          scale *= pow(lo, -mn);
          Poly r;
          for (auto& b : by) r = add(r, b.first ? mul(b.second, powp(vars[v].p, b.first)) : b.second, 1);
          c = reduce(r);
        }
        if (c.empty()) { printf("Z %d 1\n", idx); continue; }
        printf("S %d %.17g\n", idx, scale);
        emit('N', idx, c);
      } catch (TooBig&) {
        printf("Y %d\n", idx);
      }
    } catch (TooBig&) {
      printf("X %d\n", idx);
    }
    fflush(stdout);
  }
}
