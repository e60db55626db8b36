// Replay runtime: the harness linked with a plain build of the real code, run on concrete inputs.
#include "symapi.h"
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
namespace {
std::map<std::string, double> in;
std::map<std::string, int>    chn;
FILE*                         out;
int                           fails = 0;
void
say(const char* what, double a, double b, double tol)
{
  ++fails;
  fprintf(out, "FAIL %.17g %.17g %.3g %s\n", a, b, tol, what);
  fflush(out);
}
void
sig(int s)
{
  fprintf(out, "%s\n", s == SIGALRM ? "TIMEOUT" : "CRASH");
  fclose(out);
  _exit(0);
}
}  // namespace
namespace se {
static std::string
nospace(const char* n)
{
  std::string s(n);
  for (char& c : s) if (c == ' ') c = '_';
  return s;
}
double
real(const char* n0, double, double, double seed)
{
  std::string n = nospace(n0);
  auto it = in.find(n);
  return it == in.end() ? seed : it->second;
}
int
choice(const char* n0, int k)
{
  std::string n = nospace(n0);
  if (k <= 1) return 0;
  std::string key = "choice:" + n;
  int         c   = chn[key]++;
  if (c) key += "#" + std::to_string(c);
  auto it = in.find(key);
  return it == in.end() ? 0 : (int)it->second;
}
void
quit()
{
  fprintf(out, "QUIT\n");
  fclose(out);
  _exit(0);
}
static double
slack(double a, double b)
{
  return 1e-9 * (1 + std::fabs(a) + std::fabs(b));
}
void assume_le(double a, double b) { if (!(a <= b + slack(a, b))) quit(); }
void assume_lt(double a, double b) { if (!(a < b + slack(a, b))) quit(); }
void assume_eq(double a, double b) { if (!(std::fabs(a - b) <= slack(a, b))) quit(); }
void assume_ne(double a, double b) { if (a == b) quit(); }
void
eq(const char* w, double a, double b, double tol)
{
  double t = 10 * tol + 1e-9 * (1 + std::fmin(std::fabs(a), std::fabs(b)));
  if (!(std::fabs(a - b) <= t)) say(w, a, b, t);
}
void
le(const char* w, double a, double b, double tol)
{
  double t = 10 * tol + 1e-9 * (1 + std::fmin(std::fabs(a), std::fabs(b)));
  if (!(a <= b + t)) say(w, a, b, t);
}
void lt(const char* w, double a, double b) { if (!(a < b)) say(w, a, b, 0); }
void truth(const char* w, bool ok) { if (!ok) say(w, 0, 1, 0); }
void finite(const char* w, double a) { if (!std::isfinite(a)) say(w, a, 0, 0); }
void reach(const char*) {}
bool symbolic() { return false; }
const char*
text(double v)
{
  static std::set<std::string> keep;
  char                         b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return keep.insert(b).first->c_str();
}
const char*
nm(const char* base, int i, int j, int k)
{
  static std::set<std::string> keep;
  std::string                  s = std::string(base) + "_" + std::to_string(i);
  if (j >= 0) s += "_" + std::to_string(j);
  if (k >= 0) s += "_" + std::to_string(k);
  return keep.insert(s).first->c_str();
}
}  // namespace se
int
main(int argc, char** argv)
{
  out     = fopen(argv[3], "w");
  FILE* f = fopen(argv[2], "r");
  char  line[512];
  while (f && fgets(line, sizeof line, f)) {
    char   name[256];
    double v;
    if (line[0] == 's' && sscanf(line + 1, " %255s %la", name, &v) == 2) in[name] = v;
  }
  if (f) fclose(f);
  static char altstack[1 << 16];
  stack_t     as = {altstack, 0, sizeof altstack};
  sigaltstack(&as, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
    struct sigaction sa = {};
    sa.sa_handler = sig;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER | SA_RESETHAND;
    sigaction(s, &sa, nullptr);
  }
  alarm(argc > 4 ? atoi(argv[4]) : 60);
  if (!getenv("SE_VERBOSE")) {
    freopen("/dev/null", "w", stdout);
    freopen("/dev/null", "w", stderr);
  }
  try {
    harness(argv[1]);
  } catch (const std::exception& e) {
    fprintf(out, "EXCEPTION %s\n", e.what());
  } catch (...) {
    fprintf(out, "EXCEPTION unknown\n");
  }
  fprintf(out, "DONE %d\n", fails);
  fclose(out);
  _exit(0);
}
