// Runs that cannot be carried out as asked have to say so: storage errors at any point, unusable meshes and decks.
#include "runbase.h"
#include <setjmp.h>
#include <signal.h>
using namespace nimble;
using namespace runbase;
static jmp_buf on_abort;
static bool    armed = false;
// a deliberate abort() of the code under test (NIMBLE_ABORT) counts as a refusal
extern "C" void
abort()
{
  if (armed) { armed = false; longjmp(on_abort, 1); }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
namespace Kokkos {
void
initialize(int& argc, char* argv[])
{
  static int kk = 0;
  if (kk++) return;
  typedef void (*F)(int&, char**);
  F f = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
  f(argc, argv);
}
void finalize() {}
}  // namespace Kokkos
namespace {
enum { ENDED = 0, ERRORCODE = 1, EXCEPTION = 2, ABORTED = 3 };
int
attempt(const std::string& path)
{
  auto* q = new Quiet;
  auto* a = new NimbleApplication;
  volatile int r = 0;
  if (setjmp(on_abort)) r = ABORTED;
  else {
    armed = true;
    try { r = run(*a, path) ? ERRORCODE : ENDED; } catch (std::exception&) { r = EXCEPTION; }
  }
  armed = false;
  if (r != ABORTED) delete a;
  delete q;
  return r;
}
void
mesh()
{
  Hex h;
  for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) h.node(i, j, k);
  h.block(1);
  h.block(2, "right");
  auto q = [&](int i, int j, int k) { return i + 3 * (j + 2 * k); };
  for (int e = 0; e < 2; ++e) h.elem(1 + e, {q(e, 0, 0), q(e + 1, 0, 0), q(e + 1, 1, 0), q(e, 1, 0), q(e, 0, 1), q(e + 1, 0, 1), q(e + 1, 1, 1), q(e, 1, 1)});
  h.nset(1, "", {0, 3});
  h.nset(7, "all", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11});
  exosim::Set s;
  s.id = 5; s.items = {1}; s.extra = {4};
  h.f.ssets.push_back(s);
  exosim::file("m.g") = h.f;
}
typedef std::vector<std::pair<std::string, std::string>> Lines;
Lines
deck(double v)
{
  return {{"genesis input file", "m.g"}, {"exodus output file", "o.e"}, {"final time", "0.2"}, {"number of load steps", "2"},
          {"material parameters", "soft elastic density 1.5 bulk_modulus 2.0 shear_modulus 0.7"}, {"element block", "block_1 soft"}, {"element block", "block_2 soft"},
          {"boundary condition", std::string("initial_velocity all x ") + se::text(v)}, {"boundary condition", "prescribed_velocity nodelist_1 y 0.0"},
          {"output fields", "displacement velocity stress ipt02_deformation_gradient volume"}};
}
std::string
path(const Lines& l)
{
  Deck d;
  for (auto& p : l) d(p.first, p.second);
  return d.file();
}
void
storage()
{
  exosim::reset();
  mesh();
  double v = se::real("v", -0.5, 0.5, 0.2);
  (void)attempt(path(deck(v)));
  exosim::File ref = exosim::file("o.out.e");
  exosim::reset();
  mesh();
  int k = se::choice("call", 160), code = -1 - 998 * se::choice("code", 2);
  exosim::fail_at(k, code);
  int r = attempt(path(deck(v)));
  if (!*exosim::failed()) {
    se::truth("without a storage error the run ends normally", r == ENDED);
    se::truth("all calls were tried", k == exosim::calls() || k > exosim::calls());
    return;
  }
  se::truth((std::string("an error of ") + exosim::failed() + " ends the run with an error").c_str(), r != ENDED);
  // what was stored before stays complete
  exosim::File& o = exosim::file("o.out.e");
  int last = o.times.empty() ? 0 : o.times.rbegin()->first;
  for (int s = 0; s + 1 < last; ++s) {
    auto same = [&](const std::vector<double>* a, const std::vector<double>* b) {
      se::truth("earlier outputs stay", a && b && a->size() == b->size());
      if (a && b && a->size() == b->size()) for (size_t i = 0; i < a->size(); ++i) se::eq("earlier outputs are those of an undisturbed run", (*a)[i], (*b)[i], 1e-12);
    };
    se::eq("time of an earlier output", o.times[s + 1], ref.times[s + 1], 1e-12);
    for (auto f : {"displacement_x", "velocity_z"}) same(o.nodal(s, f), ref.nodal(s, f));
    for (auto f : {"stress_xx", "volume", "ipt02_deformation_gradient_zx"}) for (int b : {1, 2}) same(o.elem(s, f, b), ref.elem(s, f, b));
  }
  se::reach("storage");
}
// decks and meshes that cannot be run
void
refused()
{
  exosim::reset();
  mesh();
  Lines d = deck(se::real("v", -0.5, 0.5, 0.2));
  auto set = [&](const std::string& k, const std::string& v, int nth = 0) { for (auto& p : d) if (p.first == k && nth-- == 0) p.second = v; };
  auto del = [&](const std::string& k, int nth = 0) { for (size_t i = 0; i < d.size(); ++i) if (d[i].first == k && nth-- == 0) { d.erase(d.begin() + i); break; } };
  auto& F = exosim::file("m.g");
  static const char* W[] = {"a deck naming a mesh that does not exist", "a deck naming no mesh", "an unknown time integration scheme", "a mesh block without material", "an undefined material", "an element block line without material",
                            "an empty element block line", "an element block given twice", "an unknown material model", "a material without density", "a material without shear modulus", "a second material without shear modulus",
                            "an unknown material parameter", "a material parameter without value", "a material without parameters", "an unknown kind of boundary condition", "an unknown coordinate", "a malformed expression", "an unbalanced expression",
                            "elements that are not hexahedra", "a second block of other elements", "a two-dimensional mesh", "a negative final time"};
  int w = se::choice("what", sizeof W / sizeof *W);
  if (w == 0) set("genesis input file", "absent.g");
  if (w == 1) del("genesis input file");
  if (w == 2) d.push_back({"time integration scheme", "implicit"});
  if (w == 3) del("element block", se::choice("which", 2));
  if (w == 4) set("element block", "block_2 hard", 1);
  if (w == 5) set("element block", "block_2", 1);
  if (w == 6) set("element block", "", 1);
  if (w == 7) set("element block", "block_1 soft", 1);
  if (w == 8) set("material parameters", "soft foam density 1.5 bulk_modulus 2.0 shear_modulus 0.7");
  if (w == 9) set("material parameters", "soft neohookean bulk_modulus 2.0 shear_modulus 0.7");
  if (w == 10) set("material parameters", "soft neohookean density 1.5 bulk_modulus 2.0");
  if (w == 11) { d.push_back({"material parameters", "hard elastic density 1 bulk_modulus 2"}); set("element block", "block_2 hard", 1); }
  if (w == 12) set("material parameters", "soft neohookean density 1.5 bulk_modulus 2.0 shear_modulus 0.7 colour 3");
  if (w == 13) set("material parameters", "soft neohookean density 1.5 bulk_modulus 2.0 shear_modulus");
  if (w == 14) set("material parameters", "soft neohookean");
  if (w == 15) set("boundary condition", "pushed all x 1", se::choice("which", 2));
  if (w == 16) set("boundary condition", "initial_velocity all w 1", se::choice("which", 2));
  if (w == 17) set("boundary condition", "initial_velocity all x \"1 + * 2 (\"", se::choice("which", 2));
  if (w == 18) set("boundary condition", "prescribed_velocity all x \"1 + x", se::choice("which", 2));
  if (w == 19 || w == 20) for (size_t i = w - 19; i < 2; ++i) { auto& b = F.blocks[i]; b.type = "TETRA"; b.npe = 4; b.conn.resize(4); }
  if (w == 21) { F.dim = 2; for (auto& b : F.blocks) { b.type = "QUAD4"; b.npe = 4; b.conn.resize(4); } }
  if (w == 22) set("final time", "-1");
  int r = attempt(path(d));
  se::truth((std::string(W[w]) + " is refused").c_str(), r != ENDED);
  se::reach("refused");
}
}  // namespace
void
harness(const char* c)
{
  std::string n = c;
  if (n == "storage") storage();
  if (n == "refused") refused();
}
