// Symbolic runtime: expression DAG, concrete-guided path following, record of decisions and obligations.
#include "symapi.h"
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace {
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, CBRT, FUN1, FUN2 };
struct Node
{
  Op       op;
  uint8_t  fun;
  uint32_t a, b;
  double   val;  // guiding concrete value
};
const char* fun_names[] = {"exp",  "log",  "sin",  "cos",   "tan",   "asin",  "acos",      "atan",  "exp2", "log10",
                           "log2", "sinh", "cosh", "tanh",  "erf",   "erfc",  "pow",       "atan2", "fmod", "hypot",
                           "remainder", "expm1", "log1p"};
struct State
{
  std::vector<Node>                        nodes;
  std::unordered_map<std::string, uint32_t> cons;
  std::string                              events;
  std::vector<uint32_t>                    roots;
  std::vector<std::string>                 varnames;
  std::vector<std::pair<double, double>>   varbox;
  std::map<std::string, double>            seeds;
  std::map<std::string, uint32_t>          vars;
  std::vector<std::pair<char, long>>       prefix;
  size_t                                   ndec = 0;
  std::unordered_map<uint64_t, int>        known;
  std::map<uint32_t, long>                 knownI;
  std::set<uint32_t>                       knownZ;
  std::set<std::string>                    funcs;
  std::vector<std::string>                 infos;
  long                                     concretized = 0;
  const char*                              out         = nullptr;
  bool                                     done        = false;
};
State* S_ = nullptr;
State& S()
{
  if (!S_) S_ = new State();
  return *S_;
}

const uint64_t TAG = 0x7FFEull << 48;
inline bool
issym(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return (u >> 48) == 0x7FFE;
}
inline uint32_t
idof(double d)
{
  uint64_t u;
  memcpy(&u, &d, 8);
  return (uint32_t)u;
}
inline double
mk(uint32_t id)
{
  uint64_t u = TAG | id;
  double   d;
  memcpy(&d, &u, 8);
  return d;
}

uint32_t
intern(Op op, uint8_t fun, uint32_t a, uint32_t b, double val)
{
  char     key[32];
  uint64_t vb = 0;
  if (op == CONST || op == VAR) memcpy(&vb, &val, 8);
  memcpy(key, &op, 1);
  memcpy(key + 1, &fun, 1);
  memcpy(key + 2, &a, 4);
  memcpy(key + 6, &b, 4);
  memcpy(key + 10, &vb, 8);
  std::string k(key, 18);
  auto        it = S().cons.find(k);
  if (it != S().cons.end()) return it->second;
  uint32_t id = S().nodes.size();
  S().nodes.push_back({op, fun, a, b, val});
  S().cons.emplace(std::move(k), id);
  return id;
}
uint32_t
nid(double d)
{
  if (issym(d)) return idof(d);
  return intern(CONST, 0, 0, 0, d);
}
double
V(uint32_t i)
{
  return S().nodes[i].val;
}
bool
isconst(uint32_t i)
{
  return S().nodes[i].op == CONST;
}
double
fin(uint32_t id)
{
  if (isconst(id)) return S().nodes[id].val;
  return mk(id);
}
void
ev(const char* fmt, ...)
{
  char    buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  S().events.append(buf, n);
  S().events.push_back('\n');
}
void
root(uint32_t i)
{
  S().roots.push_back(i);
}

void
dump(const char* status)
{
  if (S().done) return;
  S().done = true;
  const char* out = S().out;
  if (!out) return;
  FILE* f = fopen(out, "w");
  if (!f) return;
  auto&             N = S().nodes;
  std::vector<char> mark(N.size(), 0);
  std::vector<uint32_t> st(S().roots.begin(), S().roots.end());
  while (!st.empty()) {
    uint32_t i = st.back();
    st.pop_back();
    if (mark[i]) continue;
    mark[i] = 1;
    auto& n = N[i];
    if (n.op >= ADD) {
      st.push_back(n.a);
      if (n.op == ADD || n.op == SUB || n.op == MUL || n.op == DIV || n.op == FUN2) st.push_back(n.b);
    }
  }
  for (auto& v : S().vars) mark[v.second] = 1;
  for (size_t i = 0; i < N.size(); ++i) {
    if (!mark[i]) continue;
    auto& n = N[i];
    switch (n.op) {
      case CONST: fprintf(f, "n %zu c %a\n", i, n.val); break;
      case VAR:
        fprintf(f, "n %zu v %s %a %a %a\n", i, S().varnames[n.a].c_str(), S().varbox[n.a].first,
                S().varbox[n.a].second, n.val);
        break;
      case ADD: fprintf(f, "n %zu + %u %u %a\n", i, n.a, n.b, n.val); break;
      case SUB: fprintf(f, "n %zu - %u %u %a\n", i, n.a, n.b, n.val); break;
      case MUL: fprintf(f, "n %zu * %u %u %a\n", i, n.a, n.b, n.val); break;
      case DIV: fprintf(f, "n %zu / %u %u %a\n", i, n.a, n.b, n.val); break;
      case NEG: fprintf(f, "n %zu ~ %u 0 %a\n", i, n.a, n.val); break;
      case SQRT: fprintf(f, "n %zu sqrt %u 0 %a\n", i, n.a, n.val); break;
      case CBRT: fprintf(f, "n %zu cbrt %u 0 %a\n", i, n.a, n.val); break;
      case FUN1: fprintf(f, "n %zu %s %u 0 %a\n", i, fun_names[n.fun], n.a, n.val); break;
      case FUN2: fprintf(f, "n %zu %s %u %u %a\n", i, fun_names[n.fun], n.a, n.b, n.val); break;
    }
  }
  fputs(S().events.c_str(), f);
  for (auto& s : S().funcs) fprintf(f, "F %s\n", s.c_str());
  fprintf(f, "K %ld\n", S().concretized);
  fprintf(f, "END %s\n", status);
  fclose(f);
}

void
onsig(int s)
{
  if (s == SIGALRM) {
    dump("timeout");
    _exit(3);
  }
  char b[32];
  snprintf(b, sizeof b, "crash signal %d", s);
  dump(b);
  _exit(4);
}

// decisions -------------------------------------------------------------------------------
bool
forced(char kind, long& v)
{
  size_t i = S().ndec++;
  if (i < S().prefix.size()) {
    if (S().prefix[i].first != kind) {
      dump("diverged");
      _exit(5);
    }
    v = S().prefix[i].second;
    return true;
  }
  return false;
}

// rel: 0 '<', 1 '<=', 2 '=='
bool
branch(int rel, uint32_t a, uint32_t b)
{
  double va = V(a), vb = V(b);
  if (a == b) return rel != 0;
  if (isconst(a) && isconst(b)) return rel == 0 ? va < vb : rel == 1 ? va <= vb : va == vb;
  if (isconst(b) && std::isinf(vb)) return rel == 2 ? false : vb > 0;
  if (isconst(a) && std::isinf(va)) return rel == 2 ? false : va < 0;
  // canonical: '<' over (a,b); '<=' (a,b) == not '<' (b,a)
  bool neg = false;
  if (rel == 1) {
    std::swap(a, b);
    std::swap(va, vb);
    neg = true;
    rel = 0;
  }
  if (rel == 2 && a > b) {
    std::swap(a, b);
    std::swap(va, vb);
  }
  uint64_t key = ((uint64_t)a << 33) ^ ((uint64_t)b << 1) ^ (rel == 2);
  auto     it  = S().known.find(key);
  if (it != S().known.end()) return neg ? !it->second : it->second;
  bool t = rel == 2 ? va == vb : va < vb;
  // implied by what is already known about the same pair
  if (rel == 2) {
    auto l = S().known.find(((uint64_t)a << 33) ^ ((uint64_t)b << 1));
    auto g = S().known.find(((uint64_t)b << 33) ^ ((uint64_t)a << 1));
    if ((l != S().known.end() && l->second) || (g != S().known.end() && g->second)) return neg ? true : false;
  } else {
    auto g = S().known.find(((uint64_t)b << 33) ^ ((uint64_t)a << 1));
    if (g != S().known.end() && g->second) return neg ? true : false;
  }
  long v = t;
  forced('B', v);
  t               = v;
  S().known[key]  = t;
  root(a);
  root(b);
  ev("B %s %u %u %d", rel == 2 ? "=" : "<", a, b, (int)t);
  return neg ? !t : t;
}

double
bin(Op op, double x, double y)
{
  if (!issym(x) && !issym(y)) {
    switch (op) {
      case ADD: return x + y;
      case SUB: return x - y;
      case MUL: return x * y;
      case DIV: return x / y;
      default: return 0;
    }
  }
  uint32_t a = nid(x), b = nid(y);
  double   va = V(a), vb = V(b);
  switch (op) {
    case ADD:
      if (isconst(a) && va == 0) return y;
      if (isconst(b) && vb == 0) return x;
      if (a > b) std::swap(a, b);
      return fin(intern(ADD, 0, a, b, va + vb));
    case SUB:
      if (isconst(b) && vb == 0) return x;
      if (a == b) return 0.0;
      if (isconst(a) && va == 0) return fin(intern(NEG, 0, b, 0, -vb));
      return fin(intern(SUB, 0, a, b, va - vb));
    case MUL:
      if ((isconst(a) && va == 0) || (isconst(b) && vb == 0)) return 0.0;
      if (isconst(a) && va == 1) return y;
      if (isconst(b) && vb == 1) return x;
      if (isconst(a) && va == -1) return fin(intern(NEG, 0, b, 0, -vb));
      if (isconst(b) && vb == -1) return fin(intern(NEG, 0, a, 0, -va));
      if (a > b) std::swap(a, b);
      return fin(intern(MUL, 0, a, b, va * vb));
    case DIV:
      if (isconst(b) && vb == 1) return x;
      if (!isconst(b) && S().knownZ.insert(b).second) {
        root(b);
        ev("Z %u", b);
      }
      if (isconst(a) && va == 0) return 0.0;
      return fin(intern(DIV, 0, a, b, va / vb));
    default: return 0;
  }
}

double
fun1(int f, double x, double v)
{
  uint32_t a = nid(x);
  return mk(intern(FUN1, f, a, 0, v));
}
}  // namespace

extern "C" {
void
__se_enter(char* flag, const char* name)
{
  if (*flag) return;
  *flag = 1;
  S().funcs.insert(name);
}
double __se_fadd(double a, double b) { return bin(ADD, a, b); }
double __se_fsub(double a, double b) { return bin(SUB, a, b); }
double __se_fmul(double a, double b) { return bin(MUL, a, b); }
double __se_fdiv(double a, double b) { return bin(DIV, a, b); }
double
__se_fneg(double a)
{
  if (!issym(a)) return -a;
  uint32_t i = idof(a);
  if (S().nodes[i].op == NEG) return fin(S().nodes[i].a);
  return fin(intern(NEG, 0, i, 0, -V(i)));
}
int
__se_fcmp(int pred, double x, double y)
{
  if (!issym(x) && !issym(y)) {
    switch (pred) {
      case 0: return 0;
      case 1: return x == y;
      case 2: return x > y;
      case 3: return x >= y;
      case 4: return x < y;
      case 5: return x <= y;
      case 6: return !std::isunordered(x, y) && x != y;
      case 7: return !std::isunordered(x, y);
      case 8: return std::isunordered(x, y);
      case 9: return std::isunordered(x, y) || x == y;
      case 10: return !(x <= y);
      case 11: return !(x < y);
      case 12: return !(x >= y);
      case 13: return !(x > y);
      case 14: return x != y;
      default: return 1;
    }
  }
  if ((!issym(x) && std::isnan(x)) || (!issym(y) && std::isnan(y))) return pred >= 8;
  uint32_t a = nid(x), b = nid(y);
  switch (pred) {
    case 0: return 0;
    case 1:
    case 9: return branch(2, a, b);
    case 2:
    case 10: return branch(0, b, a);
    case 3:
    case 11: return branch(1, b, a);
    case 4:
    case 12: return branch(0, a, b);
    case 5:
    case 13: return branch(1, a, b);
    case 6:
    case 14: return !branch(2, a, b);
    case 7: return 1;
    case 8: return 0;
    default: return 1;
  }
}
int
__se_is_fpclass(double x, int mask)
{
  if (issym(x)) {
    // finite, sign undecided unless the mask separates signs
    bool negs = (mask & 0x38) != 0, poss = (mask & 0x1C0) != 0;  // -normal,-subnormal,-zero / +zero,+sub,+normal
    int  neg = mask & (0x8 | 0x10), pos = mask & (0x80 | 0x100), zero = mask & (0x20 | 0x40);
    (void)negs;
    (void)poss;
    if (!neg && !pos && !zero) return 0;
    if (neg && pos && zero) return 1;
    uint32_t a = nid(x), z = nid(0.0);
    if (branch(2, a, z)) return zero != 0;
    if (branch(0, a, z)) return neg != 0;
    return pos != 0;
  }
  bool s = std::signbit(x);
  switch (std::fpclassify(x)) {
    case FP_NAN: return (mask & 3) != 0;
    case FP_INFINITE: return (mask & (s ? 4 : 0x200)) != 0;
    case FP_NORMAL: return (mask & (s ? 8 : 0x100)) != 0;
    case FP_SUBNORMAL: return (mask & (s ? 0x10 : 0x80)) != 0;
    default: return (mask & (s ? 0x20 : 0x40)) != 0;
  }
}
static long
toint(double x, int mode)
{
  // mode 0 trunc, 1 floor, 2 ceil, 3 round-half-away, 4 rint
  auto apply = [&](double v) {
    return mode == 0 ? std::trunc(v) : mode == 1 ? std::floor(v) : mode == 2 ? std::ceil(v) : mode == 3 ? std::round(v) : std::nearbyint(v);
  };
  if (!issym(x)) return (long)apply(x);
  uint32_t a = idof(x);
  // floor decision first: k <= a < k+1
  auto it = S().knownI.find(a);
  long k;
  if (it != S().knownI.end())
    k = it->second;
  else {
    k = (long)std::floor(V(a));
    forced('I', k);
    S().knownI[a] = k;
    root(a);
    ev("I %u %ld", a, k);
  }
  if (mode == 1) return k;
  if (mode == 2) return branch(2, a, nid((double)k)) ? k : k + 1;
  if (mode == 0) {
    if (k >= 0) return k;
    return branch(2, a, nid((double)k)) ? k : k + 1;
  }
  // round: compare with k + 0.5
  if (mode == 3) {
    if (k >= 0) return branch(0, a, nid(k + 0.5)) ? k : k + 1;
    return branch(1, a, nid(k + 0.5)) ? k : k + 1;
  }
  if (branch(2, a, nid(k + 0.5))) return (k & 1) ? k + 1 : k;
  return branch(0, a, nid(k + 0.5)) ? k : k + 1;
}
long __se_fptosi(double x) { return toint(x, 0); }
long __se_fptoui(double x)
{
  if (!issym(x)) return (long)(unsigned long)x;
  return toint(x, 0);
}
double __se_floor(double x) { return issym(x) ? (double)toint(x, 1) : std::floor(x); }
double __se_ceil(double x) { return issym(x) ? (double)toint(x, 2) : std::ceil(x); }
double __se_trunc(double x) { return issym(x) ? (double)toint(x, 0) : std::trunc(x); }
double __se_round(double x) { return issym(x) ? (double)toint(x, 3) : std::round(x); }
double __se_rint(double x) { return issym(x) ? (double)toint(x, 4) : std::rint(x); }
double __se_nearbyint(double x) { return issym(x) ? (double)toint(x, 4) : std::nearbyint(x); }
double
__se_concretize(double x)
{
  if (!issym(x)) return x;
  S().concretized++;
  return V(idof(x));
}
double
__se_fabs(double x)
{
  if (!issym(x)) return std::fabs(x);
  uint32_t a = idof(x);
  if (S().nodes[a].op == SQRT) return x;
  return branch(0, a, nid(0.0)) ? __se_fneg(x) : x;
}
double
__se_fmin(double x, double y)
{
  if (!issym(x) && !issym(y)) return std::fmin(x, y);
  return branch(0, nid(y), nid(x)) ? y : x;
}
double
__se_fmax(double x, double y)
{
  if (!issym(x) && !issym(y)) return std::fmax(x, y);
  return branch(0, nid(x), nid(y)) ? y : x;
}
double
__se_copysign(double x, double y)
{
  if (!issym(x) && !issym(y)) return std::copysign(x, y);
  bool   neg = issym(y) ? branch(0, nid(y), nid(0.0)) : std::signbit(y);
  double m   = __se_fabs(x);
  return neg ? __se_fneg(m) : m;
}
double
__se_sqrt(double x)
{
  if (!issym(x)) return std::sqrt(x);
  uint32_t a = idof(x);
  auto&    n = S().nodes[a];
  if (n.op == MUL && n.a == n.b) return __se_fabs(mk(n.a));
  root(a);
  ev("N %u", a);  // argument must be non-negative
  return mk(intern(SQRT, 0, a, 0, std::sqrt(V(a))));
}
double
__se_cbrt(double x)
{
  if (!issym(x)) return std::cbrt(x);
  uint32_t a = idof(x);
  return mk(intern(CBRT, 0, a, 0, std::cbrt(V(a))));
}
#define F1(name, idx) \
  double __se_##name(double x) { return issym(x) ? fun1(idx, x, std::name(V(idof(x)))) : std::name(x); }
F1(exp, 0) F1(log, 1) F1(sin, 2) F1(cos, 3) F1(tan, 4) F1(asin, 5) F1(acos, 6) F1(atan, 7) F1(exp2, 8) F1(log10, 9)
F1(log2, 10) F1(sinh, 11) F1(cosh, 12) F1(tanh, 13) F1(erf, 14) F1(erfc, 15) F1(expm1, 21) F1(log1p, 22)
double
__se_powi(double x, int n)
{
  if (!issym(x)) return std::pow(x, n);
  bool inv = n < 0;
  long m   = inv ? -(long)n : n;
  if (m > 64) {
    uint32_t a = idof(x), b = nid((double)n);
    return mk(intern(FUN2, 16, a, b, std::pow(V(a), n)));
  }
  double r = 1.0, p = x;
  while (m) {
    if (m & 1) r = __se_fmul(r, p);
    m >>= 1;
    if (m) p = __se_fmul(p, p);
  }
  return inv ? __se_fdiv(1.0, r) : r;
}
double
__se_pow(double x, double y)
{
  if (!issym(x) && !issym(y)) return std::pow(x, y);
  if (!issym(y)) {
    if (y == std::floor(y) && std::fabs(y) <= 64) return __se_powi(x, (int)y);
    if (y == 0.5) return __se_sqrt(x);
    if (y == -0.5) return __se_fdiv(1.0, __se_sqrt(x));
    if (y == 1.5) return __se_fmul(x, __se_sqrt(x));
    double t = y * 3.0;
    if (std::fabs(t - std::round(t)) < 1e-14 && std::fabs(t) < 64) return __se_powi(__se_cbrt(x), (int)std::round(t));
  }
  uint32_t a = nid(x), b = nid(y);
  return mk(intern(FUN2, 16, a, b, std::pow(V(a), V(b))));
}
#define F2(name, idx)                                              \
  double __se_##name(double x, double y)                           \
  {                                                                \
    if (!issym(x) && !issym(y)) return std::name(x, y);            \
    uint32_t a = nid(x), b = nid(y);                               \
    return mk(intern(FUN2, idx, a, b, std::name(V(a), V(b))));     \
  }
F2(atan2, 17) F2(fmod, 18) F2(remainder, 20)
double
__se_hypot(double x, double y)
{
  if (!issym(x) && !issym(y)) return std::hypot(x, y);
  return __se_sqrt(__se_fadd(__se_fmul(x, x), __se_fmul(y, y)));
}
}

namespace se {
static std::string
nospace(const char* n)
{
  std::string s(n);
  for (char& c : s) if (c == ' ') c = '_';
  return s;
}
double
real(const char* name0, double lo, double hi, double seed)
{
  std::string nm_ = nospace(name0);
  const char* name = nm_.c_str();
  auto it = S().vars.find(name);
  if (it != S().vars.end()) return mk(it->second);
  auto s = S().seeds.find(name);
  if (s != S().seeds.end()) seed = s->second;
  uint32_t vi = S().varnames.size();
  S().varnames.push_back(name);
  S().varbox.push_back({lo, hi});
  uint32_t id = S().nodes.size();
  S().nodes.push_back({VAR, 0, vi, 0, seed});
  S().vars[name] = id;
  return mk(id);
}
int
choice(const char* name0, int n)
{
  std::string nm_ = nospace(name0);
  const char* name = nm_.c_str();
  if (n <= 1) return 0;
  long v = 0;
  auto s = S().seeds.find(std::string("choice:") + name);
  if (s != S().seeds.end()) v = (long)s->second;
  forced('C', v);
  if (const char* lg = getenv("SE_CHLOG"))
    if (FILE* f = fopen(lg, "a")) { fprintf(f, "%s %ld\n", name, v); fclose(f); }
  ev("C %s %d %ld", name, n, v);
  return (int)v;
}
static void
assume(const char* rel, double a, double b)
{
  if (!issym(a) && !issym(b)) {
    bool ok = rel[0] == '<' ? (rel[1] ? a <= b : a < b) : rel[0] == '=' ? a == b : a != b;
    if (!ok) quit();
    return;
  }
  uint32_t i = nid(a), j = nid(b);
  root(i);
  root(j);
  ev("A %s %u %u", rel, i, j);
}
void assume_le(double a, double b) { assume("<=", a, b); }
void assume_lt(double a, double b) { assume("<", a, b); }
void assume_eq(double a, double b) { assume("=", a, b); }
void assume_ne(double a, double b) { assume("!", a, b); }
static void
obl(const char* kind, const char* what, double a, double b, double tol)
{
  uint32_t i = nid(a), j = nid(b);
  root(i);
  root(j);
  ev("O %s %u %u %a %s", kind, i, j, tol, what);
}
void eq(const char* what, double a, double b, double tol) { obl("eq", what, a, b, tol); }
void le(const char* what, double a, double b, double tol) { obl("le", what, a, b, tol); }
void lt(const char* what, double a, double b) { obl("lt", what, a, b, 0); }
void truth(const char* what, bool ok) { ev("O tr %d 0 0x0p+0 %s", (int)ok, what); }
void finite(const char* what, double a) { obl("fi", what, a, 0.0, 0); }
void reach(const char* what) { ev("R %s", what); }
bool symbolic() { return true; }
void
quit()
{
  dump("quit");
  _exit(0);
}
static std::map<uint64_t, uint32_t>& marks()
{
  static std::map<uint64_t, uint32_t> m;
  return m;
}
const char*
text(double v)
{
  static std::set<std::string> keep;
  char                         b[64];
  double                       c;
  snprintf(b, sizeof b, "%.17g", v);
  if (issym(v)) {
    snprintf(b, sizeof b, "9%05u.71875", idof(v));  // a unique stand-in numeral; its value is never used
    c = strtod(b, nullptr);
    uint64_t u;
    memcpy(&u, &c, 8);
    marks()[u] = idof(v);
  }
  return keep.insert(b).first->c_str();
}
double
unmark(double c)
{
  uint64_t u;
  memcpy(&u, &c, 8);
  auto it = marks().find(u);
  if (it != marks().end()) return mk(it->second);
  u ^= 1ull << 63;  // a sign in front of the numeral
  it = marks().find(u);
  return it == marks().end() ? c : __se_fneg(mk(it->second));
}
const char*
nm(const char* base, int i, int j, int k)
{
  static std::set<std::string> keep;
  std::string                  s = std::string(base) + "_" + std::to_string(i);
  if (j >= 0) s += "_" + std::to_string(j);
  if (k >= 0) s += "_" + std::to_string(k);
  return keep.insert(s).first->c_str();
}
}  // namespace se

// parsing of numbers: the value of a marked text is the symbolic input it was printed from
#include <dlfcn.h>
#include <istream>
extern "C" double
strtod(const char* a, char** b)
{
  static auto real = (double (*)(const char*, char**))dlsym(RTLD_NEXT, "strtod");
  return se::unmark(real(a, b));
}
extern "C" std::istream& _ZNSi10_M_extractIdEERSiRT_(std::istream& is, double& d);
std::istream&
_ZNSi10_M_extractIdEERSiRT_(std::istream& is, double& d)
{
  using F          = std::istream& (*)(std::istream&, double&);
  static auto real = (F)dlsym(RTLD_NEXT, "_ZNSi10_M_extractIdEERSiRT_");
  real(is, d);
  d = se::unmark(d);
  return is;
}

// printing of numbers by a stream: a symbolic number leaves its stand-in numeral.  With fewer than 15 digits the printed number differs
// from the number: by an unknown of the size of the last digit.
#include <ostream>
std::ostream&
print_symbolic(std::ostream& os, double d)
{
  auto fl = os.flags() & std::ios_base::floatfield;
  int  p  = (int)os.precision();
  if (fl == std::ios_base::scientific) ++p;
  if (fl != (std::ios_base::scientific | std::ios_base::fixed) && p < 15) {
    static int k = 0;
    double     u = se::real(se::nm("printed", k++), -1, 1, 0), h = 0.5;
    for (int i = 0; i < p; ++i) h /= 10;
    d = __se_fadd(d, __se_fmul(u, h));
  }
  os << se::text(d);
  return os;
}
extern "C" std::ostream&
_ZNSo9_M_insertIdEERSoT_(std::ostream& os, double d)
{
  using F          = std::ostream& (*)(std::ostream&, double);
  static auto real = (F)dlsym(RTLD_NEXT, "_ZNSo9_M_insertIdEERSoT_");
  return issym(d) ? print_symbolic(os, d) : real(os, d);
}

int
main(int argc, char** argv)
{
  // argv: case input output timeout
  S().out = argv[3];
  FILE* f = fopen(argv[2], "r");
  if (f) {
    char line[512];
    while (fgets(line, sizeof line, f)) {
      char   name[256];
      double v;
      char   k;
      long   lv;
      if (line[0] == 's' && sscanf(line + 1, " %255s %la", name, &v) == 2) S().seeds[name] = v;
      if (line[0] == 'p' && sscanf(line + 1, " %c %ld", &k, &lv) == 2) S().prefix.push_back({k, lv});
    }
    fclose(f);
  }
  static char altstack[1 << 20];
  stack_t     as = {altstack, 0, sizeof altstack};
  sigaltstack(&as, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
    struct sigaction sa = {};
    sa.sa_handler = onsig;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
    sigaction(s, &sa, nullptr);
  }
  alarm(argc > 4 ? atoi(argv[4]) : 60);
  // keep the code under test quiet
  if (!getenv("SE_VERBOSE")) {
    freopen("/dev/null", "w", stdout);
    freopen("/dev/null", "w", stderr);
  }
  std::string status = "ok";
  try {
    harness(argv[1]);
  } catch (const std::exception& e) {
    status = std::string("exception ") + e.what();
    for (auto& c : status)
      if (c == '\n') c = ' ';
  } catch (...) {
    status = "exception unknown";
  }
  dump(status.c_str());
  _exit(0);
}
