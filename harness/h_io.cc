// Input and output: the input deck, file names, the command line, meshes read, databases written.
#include "hx.h"
#include "exosim.h"
#include "mpisim.h"
#include "nimble_cli.h"
#include "nimble_exodus_output.h"
#include "nimble_genesis_mesh.h"
#include "nimble_parser.h"
#include <algorithm>
#include <fstream>
#include <set>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
using namespace nimble;
static jmp_buf on_abort;
static bool    armed = false;
// a deliberate abort() of the code under test (NIMBLE_ABORT) counts as a refusal
extern "C" void
abort()
{
  if (armed) { armed = false; longjmp(on_abort, 1); }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
namespace {
struct Quiet
{
  std::streambuf *o, *e;
  Quiet() { o = std::cout.rdbuf(); e = std::cerr.rdbuf(); if (getenv("SE_LOUD")) return; std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
};
// 0: returned, 1: exception, 2: abort
int
attempt(const std::function<void()>& f)
{
  static Quiet* q;
  q = new Quiet;
  volatile int r = 0;
  if (setjmp(on_abort)) r = 2;
  else {
    armed = true;
    try { f(); } catch (std::exception&) { r = 1; }
  }
  armed = false;
  delete q;
  return r;
}
std::string
memfile(const std::string& t)
{
  int fd = memfd_create("deck", 0);
  for (size_t o = 0; o < t.size();) { ssize_t n = write(fd, t.data() + o, t.size() - o); if (n <= 0) _exit(3); o += n; }
  return "/proc/self/fd/" + std::to_string(fd);
}
int fd_of(const std::string& p) { return atoi(p.c_str() + 14); }
struct TryParse
{
  Parser p;
  int    rc;
  TryParse(const std::string& text)
  {
    std::string f = memfile(text);
    p.SetInputFilename(f);
    rc = attempt([&] { p.Initialize(); });
    close(fd_of(f));
  }
};
// the same command in different clothes
std::string
dress(const std::string& k, const std::string& v, int how)
{
  static const int N = 12;
  switch (how % N) {
    case 0: return k + ": " + v + "\n";
    case 1: return "   " + k + ": " + v + "\n";
    case 2: return "\t" + k + ": " + v + "\n";
    case 3: return k + ": " + v + "   \n";
    case 4: return k + ": " + v + " \t\n";
    case 5: return k + ": " + v + " # a comment: with a colon\n";
    case 6: return "# genesis input file: nothing.g\n" + k + ": " + v + "\n";
    case 7: return "\n" + k + ": " + v + "\n\n";
    case 8: return k + ":" + v + "\n";
    case 9: return k + " :   " + v + "#\n";
    case 10: return "   # an indented comment\n" + k + ": " + v + "\n";
    default: return "  \t \n" + k + ": " + v + "\n   \n";
  }
}
typedef std::vector<std::pair<std::string, std::string>> KV;
std::string
deck(const KV& kv, int layout, int order)
{
  std::string t;
  int         n = (int)kv.size();
  for (int i = 0; i < n; ++i) {
    int j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5 + 3) % n;
    t += dress(kv[j].first, kv[j].second, layout < 12 ? layout : layout + i);
  }
  return t;
}
}  // namespace
static void
values()
{
  int    layout = se::choice("layout", 14), order = se::choice("order", 2);
  double tol = se::real("tolerance", 1e-9, 1, 1e-4), t0 = se::real("initial", -5, 5, 0.5), t1 = se::real("final", -5, 50, 2.5);
  int    absent = se::choice("absent", 4);
  KV     kv     = {{"genesis input file", "dir a/mesh.g"}, {"exodus output file", "result.e"}};
  if (absent != 1) {
    kv.push_back({"initial time", se::text(t0)});
    kv.push_back({"nonlinear solver relative tolerance", se::text(tol)});
    kv.push_back({"nonlinear solver maximum iterations", "37"});
    kv.push_back({"output frequency", "12"});
  }
  if (absent != 2) {
    kv.push_back({"final time", se::text(t1)});
    kv.push_back({"number of load steps", "250"});
    kv.push_back({"time integration scheme", "quasistatic"});
    kv.push_back({"contact", "primary_blocks a secondary_blocks b penalty_parameter 1.0"});
    kv.push_back({"write timing data file", "on"});
    kv.push_back({"use two level mesh decomposition", "TRUE"});
  }
  if (absent != 3) {
    kv.push_back({"output fields", "displacement velocity  stress"});
    kv.push_back({"contact visualization", "visualize_contact_entities off visualize_bounding_boxes on file_name c.e"});
    kv.push_back({"material parameters", "steel neohookean density 7.8 bulk_modulus 1.6"});
    kv.push_back({"material parameters", "foam elastic density 0.1"});
    kv.push_back({"element block", "block_12 foam"});
    kv.push_back({"element block", "block_3 steel"});
    kv.push_back({"element block", "left_part_40 foam"});
  }
  TryParse P(deck(kv, layout, order));
  Parser&  p = P.p;
  se::truth("a well-formed deck is read", P.rc == 0);
  if (P.rc) return;
  se::truth("mesh file", p.GenesisFileName() == "dir a/mesh.g");
  se::truth("output file", p.ExodusFileName() == "result.e");
  se::eq("initial time", p.InitialTime(), absent != 1 ? t0 : 0.0, 0);
  se::eq("tolerance", p.NonlinearSolverRelativeTolerance(), absent != 1 ? tol : 1e-6, 0);
  se::truth("iterations", p.NonlinearSolverMaxIterations() == (absent != 1 ? 37 : 200));
  se::truth("output frequency", p.OutputFrequency() == (absent != 1 ? 12 : 1));
  se::eq("final time", p.FinalTime(), absent != 2 ? t1 : 0.0, 0);
  se::truth("load steps", p.NumLoadSteps() == (absent != 2 ? 250 : 0));
  se::truth("scheme", p.TimeIntegrationScheme() == (absent != 2 ? "quasistatic" : "explicit"));
  se::truth("contact", p.HasContact() == (absent != 2) && p.ContactString() == (absent != 2 ? "primary_blocks a secondary_blocks b penalty_parameter 1.0" : ""));
  se::truth("timing data", p.WriteTimingDataFile() == (absent != 2));
  se::truth("two levels", p.UseTwoLevelMeshDecomposition() == (absent != 2));
  if (absent != 3) {
    se::truth("output fields", p.GetOutputFieldString() == "displacement velocity  stress");
    se::truth("contact visualization", p.ContactVisualization() && p.ContactVisualizationFileName() == "c.e");
    se::truth("material of block 12", p.GetModelMaterialParameters(12) == "elastic density 0.1");
    se::truth("material of block 3", p.GetModelMaterialParameters(3) == "neohookean density 7.8 bulk_modulus 1.6");
    se::truth("material of block 40", p.GetModelMaterialParameters(40) == "elastic density 0.1");
    se::truth("block of a material", p.GetBlockIdFromMaterial("steel") == 3 && p.GetBlockIdFromMaterial("foam") == 12);
  } else {
    bool refused = false;
    try { p.GetOutputFieldString(); } catch (std::invalid_argument&) { refused = true; }
    se::truth("absent output fields are reported", refused);
    se::truth("no contact visualization", !p.ContactVisualization());
    se::truth("no material of block 3", p.GetModelMaterialParameters(3) == "none");
  }
  se::truth("no material of block 5", p.GetModelMaterialParameters(5) == "none");
  se::truth("no block of an unknown material", p.GetBlockIdFromMaterial("wood") == -1);
  se::truth("no boundary condition", p.GetBoundaryConditionStrings().empty());
  se::reach("read");
}
static void
repeat()
{
  int                      layout = se::choice("layout", 14), n = se::choice("conditions", 5);
  static const char*       BC[] = {"prescribed_displacement nodelist_1 x 0.0", "prescribed_velocity nodelist_1 y \"t < 0.5 ? 1.0 : x > 2 ? t : -3.5e-2\"", "initial_velocity top z \"1.0 + x * t\"", "prescribed_velocity nodelist_1 y -3.5e-2", "prescribed_displacement nodelist_1 x 0.0"};
  double                   a = se::real("first", -5, 5, 1), b = se::real("second", -5, 5, 2);
  KV                       kv = {{"final time", se::text(a)}, {"output fields", "a"}, {"material parameters", "m elastic density 1"}, {"element block", "block_1 k"}, {"genesis input file", "x.g"}, {"write timing data file", "on"}};
  std::vector<std::string> want;
  for (int i = 0; i < n; ++i) { kv.push_back({"boundary condition", BC[i]}); want.push_back(BC[i]); }
  kv.push_back({"final time", se::text(b)});
  kv.push_back({"output fields", "displacement"});
  kv.push_back({"material parameters", "m elastic density 2"});
  kv.push_back({"element block", "block_1 m"});
  kv.push_back({"genesis input file", "y.g"});
  kv.push_back({"write timing data file", "No"});
  TryParse P(deck(kv, layout, 0));
  se::truth("a well-formed deck is read", P.rc == 0);
  if (P.rc) return;
  se::eq("the later value wins", P.p.FinalTime(), b, 0);
  se::truth("the later text wins", P.p.GetOutputFieldString() == "displacement" && P.p.GenesisFileName() == "y.g" && !P.p.WriteTimingDataFile());
  se::truth("the later material and block win", P.p.GetModelMaterialParameters(1) == "elastic density 2");
  se::truth("boundary conditions keep their order and number", P.p.GetBoundaryConditionStrings() == want);
  se::reach("read");
}
static void
switches()
{
  static const char* W[] = {"TRUE", "true", "Yes", "on", "ON", "oN", "FALSE", "no", "Off", "1", "maybe", "tru", "onn", "o"};
  int                w = se::choice("word", 14), k = se::choice("key", 2);
  TryParse           P(std::string(k ? "write timing data file: " : "use two level mesh decomposition: ") + W[w] + "\n");
  bool               v = k ? P.p.WriteTimingDataFile() : P.p.UseTwoLevelMeshDecomposition();
  if (w < 9) {
    se::truth("a switch is read", P.rc == 0);
    se::truth("value of the switch", v == (w < 6));
    se::truth("the other switch stays off", !(k ? P.p.UseTwoLevelMeshDecomposition() : P.p.WriteTimingDataFile()));
  } else
    se::truth("a malformed switch is refused", P.rc == 1);
  se::reach("read");
}
static void
visualization()
{
  static const char* ON[] = {"on", "off", "On", ""};
  int                a = se::choice("entities", 4), b = se::choice("boxes", 4), m = se::choice("damage", 7);
  std::string        ka = "visualize_contact_entities", kb = "visualize_bounding_boxes", kf = "file_name", tail = "contact.e";
  if (m == 1) ka = "visualize_entities";
  if (m == 2) kb = "visualize_contact_bounding_boxes";
  if (m == 3) kf = "filename";
  if (m == 4) tail = "";
  if (m == 5) tail = "contact.e extra";
  if (m == 6) std::swap(ka, kb);
  TryParse P("contact visualization: " + ka + " " + ON[a] + "  " + kb + " " + ON[b] + " " + kf + " " + tail + "\n");
  if (m == 0 && a < 2 && b < 2) {
    se::truth("the command is read", P.rc == 0);
    se::truth("visualization is on when either part is", P.p.ContactVisualization() == (a == 0 || b == 0));
    se::truth("file of the visualization", P.p.ContactVisualizationFileName() == "contact.e");
  } else
    se::truth("a malformed command is refused", P.rc == 1);
  se::reach("read");
}
static void
refused()
{
  static const char* T[] = {"genesis file: a.g\n", "Final time: 1.0\n", "final  time: 1.0\n", "nonsense\n", "final time 1.0\n", "material parameter: a elastic\n", "boundary conditions: x\n", ": value\n", "output field: displacement\n",
                            "final_time: 1.0\n", "number of load step: 3\n"};
  int                n = 11, k = se::choice("text", n), pos = se::choice("position", 3);
  std::string        good = "genesis input file: m.g\n", t = pos == 0 ? T[k] + good : pos == 1 ? good + T[k] + "final time: 2.0\n" : good + T[k];
  if (pos == 2) t.pop_back();
  TryParse P(t);
  se::truth("an unknown command is refused", P.rc == 1);
  Parser q;
  q.SetInputFilename("/nowhere/at/all.in");
  se::truth("a missing file is refused", attempt([&] { q.Initialize(); }) == 1);
  se::reach("refused");
}
static void
lengths()
{
  // commands and comments of any length
  static const int L[] = {900, 985, 995, 998, 999, 1000, 1001, 1500, 2100, 5000};
  int              n = L[se::choice("length", 10)], what = se::choice("what", 4);
  std::string      head = what == 0 ? "# " : what == 1 ? "boundary condition: initial_velocity nodelist_1 x \"1.0" : what == 2 ? "final time: 2.0 # " : "final time: 2.0";
  std::string      line = head, value;
  while ((int)line.size() < n - 1) line += what == 0 || what == 2 ? "c" : what == 3 ? " " : line.size() % 2 ? "+" : "1";
  if (what == 1) { while (line.back() == '+') line.pop_back(); line += "\""; value = line.substr(20); }
  TryParse P(line + "\nnumber of load steps: 7" + (se::choice("newline at the end", 2) ? "\n" : ""));
  se::truth("the deck is read", P.rc == 0);
  if (P.rc) return;
  se::truth("the following command is read", P.p.NumLoadSteps() == 7);
  if (what == 1) se::truth("a long value is kept", P.p.GetBoundaryConditionStrings().size() == 1 && P.p.GetBoundaryConditionStrings()[0] == value);
  if (what >= 2) se::truth("the value before the padding is kept", P.p.FinalTime() == 2.0);
  se::reach("read");
}
static void
names()
{
  static const char* DIR[]  = {"", "./", "../run.g/", "/a/b.e/", "my dir/", "/home/u/.emacs.d/.g/"};
  static const char* STEM[] = {"mesh", "a_b-1.2", "x", "sample geometry"};
  static const char* EXT[]  = {".g", ".e", ""};
  static const int   NR[]   = {0, 1, 2, 9, 10, 16, 100, 1024};
  std::string        ext = EXT[se::choice("suffix", 3)];
  int                combo = se::choice("directory and stem", 12);
  std::string        dir = DIR[combo % 6], stem = STEM[(combo * 5 + combo / 6) % 4];
  int                n = NR[se::choice("ranks", 8)], r = 0;
  int                lab = se::choice("label", 2);
  if (n > 1) { int k = se::choice("rank", 4); r = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : std::min(7, n - 1); }
  std::string want = dir + stem + (lab ? ".out" : "") + "." + (lab ? "e" : "g");
  if (n > 1) {
    char b[40];
    snprintf(b, sizeof b, ".%d.%0*d", n, (int)std::to_string(n).size(), r);
    want += b;
  }
  std::string got = IOFileName(dir + stem + ext, lab ? "e" : "g", lab ? "out" : "", r, n);
  se::truth("file name of a rank", got == want);
  se::truth("no file stays no file", IOFileName("none", lab ? "e" : "g", lab ? "out" : "", r, n) == "none");
  if (!ext.empty()) {
    static const int NT[] = {1, 4, 12};
    int              nt = NT[(combo + lab + r) % 3], th = nt - 1 - (nt > 10 ? 3 : 0);
    char             buf[MAX_C_STR_SIZE];
    IOFileNameThreadSafe((dir + stem + ext).c_str(), lab ? "e" : "g", lab ? "out" : "", r, n, th, nt, buf);
    if (nt > 1) {
      char b[40];
      snprintf(b, sizeof b, ".%d.%0*d", nt, (int)std::to_string(nt).size(), th);
      want += b;
    }
    se::truth("file name of a thread", want == buf);
  }
  se::reach("named");
}
static void
cli()
{
  std::string f = memfile("x");
  int         how = se::choice("arguments", 7);
  std::vector<std::string> a = {"NimbleSM"};
  bool ok = true;
  switch (how) {
    case 0: a.push_back(f); break;
    case 1: ok = false; break;
    case 2: a.push_back("/nowhere/at/all.in"); ok = false; break;
    case 3: a.push_back(f); a.push_back("--kokkos-threads=1"); break;
    case 4: a.push_back("--something-else"); a.push_back(f); break;
    case 5: a.push_back("--use_tpetra"); a.push_back(f); break;
    case 6: a.push_back("--use_vt"); a.push_back(f); ok = false; break;
  }
  std::vector<char*> v;
  for (auto& s : a) v.push_back(&s[0]);
  v.push_back(nullptr);
  CommandLineConfiguration c((int)a.size(), v.data());
  int err = -1, rc;
  FILE* none = nullptr;
  (void)none;
  rc = attempt([&] { c.ConfigureCommandLineArguments(); err = c.ParseAndGetErrorCode(); });
  se::truth("the command line does not throw", rc == 0);
  se::truth("a usable command line is accepted, another is not", (err == 0) == ok);
  if (ok) {
    se::truth("input file", c.InputFilename() == f);
    se::truth("exactly the options given are on", c.UseTpetra() == (how == 5) && !c.UseVT() && !c.UseUQ());
  }
  close(fd_of(f));
  se::reach("parsed");
}
// ---- meshes
namespace {
struct Want
{
  exosim::File     f;
  std::vector<int> ids, all;
};
const int  NPE_OF[] = {8, 4, 3, 1};
const char* TYPE_OF[] = {"HEX", "TETRA", "TRIANGLE", "SPHERE"};
Want
make(int blocks, int maps, int sets, int dim)
{
  Want w;
  exosim::File& f = w.f;
  f.exists = true;
  f.title  = "a mesh";
  f.dim    = dim;
  f.num_nodes = 11;
  for (int i = 0; i < f.num_nodes; ++i) {
    f.x.push_back(se::real(se::nm("x", i), -10, 10, 0.5 * i));
    f.y.push_back(se::real(se::nm("y", i), -10, 10, 1 - 0.3 * i));
    if (dim == 3) f.z.push_back(se::real(se::nm("z", i), -10, 10, 0.1 * i * i));
  }
  static const int IDS[5][4] = {{1, 0, 0, 0}, {7, 3, 0, 0}, {20, 5, 11, 0}, {4, 100, 2, 31}, {9, 8, 0, 0}};
  static const int CNT[5][4] = {{2, 0, 0, 0}, {1, 3, 0, 0}, {2, 0, 1, 0}, {0, 1, 2, 2}, {0, 2, 0, 0}};
  static const int TYP[5][4] = {{0, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 0, 0}, {0, 2, 3, 1}, {0, 0, 0, 0}};
  static const int NB[5]     = {1, 2, 3, 4, 2};
  for (int b = 0; b < NB[blocks]; ++b) {
    exosim::Blk k;
    k.id    = IDS[blocks][b];
    k.name  = (b + blocks) % 2 ? "" : "part_" + std::to_string(b);
    k.nelem = CNT[blocks][b];
    k.npe   = dim == 2 ? (TYP[blocks][b] % 2 ? 3 : 4) : NPE_OF[TYP[blocks][b]];
    k.type  = "X";
    for (int i = 0; i < k.nelem * k.npe; ++i) k.conn.push_back((i * 7 + 3 * b + i / k.npe) % f.num_nodes + 1);
    f.num_elem += k.nelem;
    f.blocks.push_back(k);
    w.all.push_back(k.id);
    if (k.nelem) w.ids.push_back(k.id);
  }
  std::vector<int> nm(f.num_nodes), em(f.num_elem), nm2(f.num_nodes), em2(f.num_elem);
  for (int i = 0; i < f.num_nodes; ++i) { nm[i] = (i * 4 + 1) % f.num_nodes * 3 + 2; nm2[i] = 1000 - 7 * i; }
  for (int i = 0; i < f.num_elem; ++i) { em[i] = 50 - 2 * i; em2[i] = 3 * i + 5; }
  if (maps >= 1) { f.node_map = nm; f.elem_map = em; }
  if (maps == 2 || maps == 3) f.node_maps.push_back({"original_global_id_map", nm2});
  if (maps == 2 || maps == 4) f.elem_maps.push_back({"original_global_id_map", em2});
  auto set = [&](int id, const char* name, std::vector<int> it, int factors, int extra) {
    exosim::Set s;
    s.id = id; s.name = name; s.items = it;
    for (int i = 0; i < factors; ++i) s.factors.push_back(se::real(se::nm("factor", id, i), -3, 3, 1.0 + i));
    for (int i = 0; i < extra; ++i) s.extra.push_back(1 + i % 6);
    return s;
  };
  if (sets >= 1) {
    f.nsets.push_back(set(12, "", {3, 1, 11}, 3, 0));
    f.nsets.push_back(set(2, "fixed", {5}, 1, 0));
  }
  if (sets >= 2) {
    f.nsets.insert(f.nsets.begin() + 1, set(5, "no_factors", {2, 4, 9, 10}, 0, 0));
    f.nsets.push_back(set(1, "", {}, 0, 0));
  }
  if (sets >= 3 && f.num_elem) {
    f.ssets.push_back(set(3, "", {1}, 4, 1));
    f.ssets.push_back(set(30, "loaded", {1, f.num_elem}, 0, 2));
    f.ssets.push_back(set(4, "same", {f.num_elem, 1}, 2, 2));
  }
  return w;
}
std::vector<int> zero(std::vector<int> v) { for (int& i : v) --i; return v; }
std::vector<int>
or_ident(const std::vector<int>& m, int n)
{
  std::vector<int> v = zero(m);
  if (v.empty()) for (int i = 0; i < n; ++i) v.push_back(i);
  return v;
}
void
same_mesh(const GenesisMesh& cm, Want& w, int maps, int sets, bool names)
{
  GenesisMesh&  m = const_cast<GenesisMesh&>(cm);
  exosim::File& f = w.f;
  int           n = f.num_nodes;
  se::truth("dimension", m.GetDim() == f.dim);
  se::truth("number of nodes", (int)m.GetNumNodes() == n && (int)m.GetNumNodeGlobalIds() == n);
  for (int i = 0; i < n; ++i) {
    se::eq(se::nm("x", i), m.GetCoordinatesX()[i], f.x[i], 0);
    se::eq(se::nm("y", i), m.GetCoordinatesY()[i], f.y[i], 0);
    if (f.dim == 3) se::eq(se::nm("z", i), m.GetCoordinatesZ()[i], f.z[i], 0);
  }
  std::vector<int> ng = or_ident(f.node_maps.empty() ? f.node_map : f.node_maps[0].second, n), eg = or_ident(f.elem_maps.empty() ? f.elem_map : f.elem_maps[0].second, f.num_elem);
  int mx = -1;
  for (int i = 0; i < n; ++i) { se::truth("global node number", m.GetNodeGlobalIds()[i] == ng[i]); mx = std::max(mx, ng[i]); }
  se::truth("largest global node number", m.GetMaxNodeGlobalId() == mx);
  se::truth("number of elements", (int)m.GetNumElements() == f.num_elem);
  for (int i = 0; i < f.num_elem; ++i) se::truth("global element number", m.GetElementGlobalIds()[i] == eg[i]);
  se::truth("blocks with elements", m.GetBlockIds() == w.ids && m.GetNumBlocks() == w.ids.size());
  se::truth("all blocks", m.GetAllBlockIds() == w.all && m.GetNumGlobalBlocks() == w.all.size());
  int k = 0;
  for (auto& b : f.blocks) {
    std::string name = b.name.empty() ? "block_" + std::to_string(b.id) : b.name;
    se::truth("block name", m.GetBlockName(b.id) == name);
    se::truth("a block is known by name where it has elements", m.HasBlock(name) == (b.nelem > 0));
    if (!b.nelem) continue;
    se::truth("block of a name", m.GetBlockId(name) == b.id);
    se::truth("elements of the block", m.GetNumElementsInBlock(b.id) == b.nelem && m.GetNumElementsInBlock()[b.id] == b.nelem);
    se::truth("nodes per element", m.GetNumNodesPerElement(b.id) == b.npe && m.GetNumNodesPerElement()[b.id] == b.npe);
    std::vector<int> c(m.GetConnectivity(b.id), m.GetConnectivity(b.id) + b.conn.size());
    se::truth("connectivity", c == zero(b.conn) && m.GetConnectivity()[b.id] == zero(b.conn));
    std::vector<int> ge(eg.begin() + k, eg.begin() + k + b.nelem);
    se::truth("global element numbers of the block", m.GetElementGlobalIdsInBlock(b.id) == ge);
    k += b.nelem;
    const char* t = f.dim == 2 ? (b.npe == 3 ? "TRIANGLE" : "QUAD") : b.npe == 8 ? "HEX" : b.npe == 4 ? "TETRA" : b.npe == 3 ? "TRIANGLE" : "SPHERE";
    se::truth("element type", m.GetElementType(b.id) == t);
  }
  se::truth("an unknown block has no name", !m.HasBlock("no such block"));
  std::vector<int> got, want;
  std::vector<std::string> ask = {"no such block"};
  for (auto& b : f.blocks) { ask.push_back(b.name.empty() ? "block_" + std::to_string(b.id) : b.name); if (b.nelem) want.push_back(b.id); }
  m.BlockNamesToOnProcessorBlockIds(ask, got);
  se::truth("blocks on this processor by name", got == want);
  auto cmp = [&](std::vector<exosim::Set>& S, std::vector<int> ids, std::map<int, std::string> nm, std::map<int, std::vector<int>> it, std::map<int, std::vector<double>> df, const char* base, const char* what) {
    se::truth((std::string("number of ") + what).c_str(), ids.size() == S.size());
    if (ids.size() != S.size()) return;
    for (size_t i = 0; i < S.size(); ++i) {
      int id = S[i].id;
      se::truth((std::string("order of ") + what).c_str(), ids[i] == id);
      if (names) se::truth((std::string("name among ") + what).c_str(), nm[id] == (S[i].name.empty() ? base + std::to_string(id) : S[i].name));
      se::truth((std::string("members of ") + what + (S[i].factors.size() == S[i].items.size() ? "" : S[i].factors.empty() ? " without factors" : " with factors per corner")).c_str(), it[id] == zero(S[i].items));
      se::truth((std::string("number of factors of ") + what).c_str(), df[id].size() == S[i].factors.size());
      for (size_t j = 0; j < df[id].size() && j < S[i].factors.size(); ++j) se::eq((std::string("factor of ") + what).c_str(), df[id][j], S[i].factors[j], 0);
    }
  };
  se::truth("count of node sets", m.GetNumNodeSets() == (int)f.nsets.size());
  cmp(f.nsets, m.GetNodeSetIds(), m.GetNodeSetNames(), m.GetNodeSets(), m.GetNodeSetDistributionFactors(), "nodelist_", "node sets");
  se::truth("count of side sets", m.GetNumSideSets() == (int)f.ssets.size());
  cmp(f.ssets, m.GetSideSetIds(), m.GetSideSetNames(), m.GetSideSets(), m.GetSideSetDistributionFactors(), "sideset_", "side sets");
}
}  // namespace
static void
mesh()
{
  exosim::reset();
  int  blocks = se::choice("blocks", 5), maps = se::choice("maps", 5), sets = se::choice("sets", 4), dim = se::choice("dimension", 2) ? 2 : 3;
  Want w = make(blocks, maps, sets, dim);
  exosim::file("in.g") = w.f;
  GenesisMesh m;
  se::truth("the mesh is read", attempt([&] { m.ReadFile("in.g"); }) == 0);
  same_mesh(m, w, maps, sets, true);
  se::truth("the name of the file", m.FileName() == "in.g");
  se::truth("the file is closed", exosim::file("in.g").open == 0);
  se::truth("no complaint of the Exodus library", exosim::complaints().empty());
  se::reach("read");
}
// a mesh given in memory
static void
memory_mesh()
{
  exosim::reset();
  Want w = make(se::choice("blocks", 2), 0, 0, 3);
  for (size_t i = 0; i < w.f.blocks.size(); ++i) if (!w.f.blocks[i].nelem) w.f.blocks.erase(w.f.blocks.begin() + i--);
  w.all = w.ids;
  w.f.nsets.clear(); w.f.ssets.clear();
  std::map<int, std::string> names;
  std::map<int, int> npe;
  std::map<int, std::vector<int>> conn, ge;
  std::vector<int> ng = or_ident(w.f.node_map, w.f.num_nodes), eg = or_ident(w.f.elem_map, w.f.num_elem);
  int k = 0;
  for (auto& b : w.f.blocks) {
    names[b.id] = b.name.empty() ? "block_" + std::to_string(b.id) : b.name;
    npe[b.id]   = b.npe;
    conn[b.id]  = zero(b.conn);
    for (int e = 0; e < b.nelem; ++e) ge[b.id].push_back(eg[k++]);
  }
  GenesisMesh m;
  m.Initialize("in memory", ng, w.f.x, w.f.y, w.f.z, eg, w.ids, names, ge, npe, conn);
  se::truth("name and validity", m.IsValid() && m.FileName() == "in memory");
  same_mesh(m, w, 0, 0, true);
  std::map<int, int> pairs;
  int a = se::choice("secondary", 3), b = se::choice("primary", 3);
  m.AppendPeriodicPair(b, a, ng.data(), pairs);
  m.AppendPeriodicPair(3, 4, ng.data(), pairs);
  se::truth("periodic pairs lead from the secondary to the primary node", pairs.size() == 2 && pairs.at(ng[a]) == ng[b] && pairs.at(ng[4]) == ng[3]);
  se::reach("memory");
}
static void
mesh_refused()
{
  exosim::reset();
  int  k = se::choice("damage", 6);
  Want w = make(1, 2, 1, 3);
  if (k == 0) w.f.node_maps[0].first = "another_map";
  if (k == 1) w.f.elem_maps[0].first = "another_map";
  if (k == 2) w.f.node_maps.push_back({"second", w.f.node_maps[0].second});
  if (k == 3) w.f.elem_maps.push_back({"second", w.f.elem_maps[0].second});
  exosim::file("in.g") = w.f;
  GenesisMesh m;
  if (k < 5) se::truth("an unusable mesh is refused", attempt([&] { m.ReadFile(k == 4 ? "missing.g" : "in.g"); }) != 0);
  else {
    m.ReadFile("in.g");
    int r = 0;
    try { m.GetBlockId("no such block"); } catch (std::exception&) { r = 1; }
    se::truth("the number of an unknown block is refused", r == 1);
    GenesisMesh none;
    none.ReadFile("none");
    se::truth("no file, no mesh", !none.IsValid() && none.GetNumNodes() == 0);
  }
  se::reach("refused");
}
static void
text_mesh()
{
  exosim::reset();
  Want w = make(se::choice("blocks", 2), se::choice("maps", 2), 2, 3);
  w.f.nsets.pop_back();
  char dir[] = "/tmp/io.XXXXXX";
  if (!mkdtemp(dir)) se::quit();
  std::string base = std::string(dir) + "/m.g", path = base + ".txt";
  std::vector<int> ng = or_ident(w.f.node_map, w.f.num_nodes), eg = or_ident(w.f.elem_map, w.f.num_elem);
  {
    FILE* o = fopen(path.c_str(), "w");
    fprintf(o, "number_of_nodes %d\nnumber_of_elements %d\nnumber_of_blocks %zu\nnumber_of_node_sets %zu\nnode_coordinates\n", w.f.num_nodes, w.f.num_elem, w.f.blocks.size(), w.f.nsets.size());
    for (int i = 0; i < w.f.num_nodes; ++i) fprintf(o, "%d %s %s %s\n", ng[i] + 1, se::text(w.f.x[i]), se::text(w.f.y[i]), se::text(w.f.z[i]));
    int k = 0;
    for (auto& b : w.f.blocks) {
      fprintf(o, "element_block\n%d %s %d %d\n", b.id, b.name.empty() ? ("block_" + std::to_string(b.id)).c_str() : b.name.c_str(), b.nelem, b.npe);
      for (int e = 0; e < b.nelem; ++e) {
        fprintf(o, "%d", eg[k++] + 1);
        for (int a = 0; a < b.npe; ++a) fprintf(o, " %d", b.conn[e * b.npe + a]);
        fprintf(o, "\n");
      }
    }
    for (auto& s : w.f.nsets) {
      fprintf(o, "nodeset\n%d %s %zu\n", s.id, s.name.empty() ? ("nodelist_" + std::to_string(s.id)).c_str() : s.name.c_str(), s.items.size());
      for (int i : s.items) fprintf(o, "%d\n", i);
      s.factors.clear();
    }
    fclose(o);
  }
  GenesisMesh m;
  int         rc = attempt([&] { m.ReadTextFile(base); });
  unlink(path.c_str());
  rmdir(dir);
  se::truth("the mesh is read", rc == 0);
  if (!rc) {
    rc = attempt([&] { m.GetBlockName(w.ids[0]); });
    se::truth("a block of a text mesh has its name", rc == 0);
    if (!rc) same_mesh(m, w, 0, 0, true);
  }
  int r = attempt([&] { GenesisMesh q; q.ReadTextFile("/nowhere/at/all"); });
  se::truth("a missing text file is refused", r == 1);
  se::reach("read");
}
static void
extent()
{
  exosim::reset();
  GenesisMesh m;
  int         n = 1 + se::choice("nodes", 3), ax = se::choice("axis", 3);
  std::vector<double> c[3];
  for (int i = 0; i < n; ++i)
    for (int d = 0; d < 3; ++d) c[d].push_back(d == ax ? se::real(se::nm("c", i), -10, 10, 1.0 - i) : 0.5 * d - i * i);
  std::vector<int> id(n);
  m.Initialize("f", id, c[0], c[1], c[2], {}, {}, {}, {}, {}, {});
  double b[6];
  m.BoundingBox(b[0], b[1], b[2], b[3], b[4], b[5]);
  std::vector<double> mid = m.BoundingBoxCenter();
  for (int d = 0; d < 3; ++d) {
    double lo = c[d][0], hi = c[d][0];
    for (double v : c[d]) { if (v < lo) lo = v; if (v > hi) hi = v; }
    se::eq("lower end", b[2 * d], lo, 0);
    se::eq("upper end", b[2 * d + 1], hi, 0);
    se::eq("centre", mid[d], (lo + hi) / 2, 1e-12);
  }
  se::reach("box");
}
// ---- databases written
static void
written()
{
  exosim::reset();
  int  blocks = se::choice("blocks", 5), maps = se::choice("maps", 3), sets = se::choice("sets", 3), steps = 1 + se::choice("steps", 3), plan = se::choice("fields", 4);
  Want w = make(blocks, maps, sets, 3);
  exosim::file("in.g") = w.f;
  GenesisMesh m;
  { Quiet q; m.ReadFile("in.g"); }
  ExodusOutput o;
  o.Initialize("out.e", m);
  typedef std::map<int, std::vector<std::string>> Names;
  std::vector<std::string> glob = plan == 1 ? std::vector<std::string>{"energy", "work"} : std::vector<std::string>{}, node = plan == 2 ? std::vector<std::string>{} : std::vector<std::string>{"u_x", "mass", "a_z"};
  Names en, dn;
  int   q = 0;
  for (int id : w.ids) {
    en[id] = plan == 3 && q % 2 ? std::vector<std::string>{} : q % 2 ? std::vector<std::string>{"volume", "zeta"} : std::vector<std::string>{"zeta", "state_02", "beta"};
    dn[id] = plan == 2 ? std::vector<std::string>{} : q % 2 ? std::vector<std::string>{"avg_s_xx"} : std::vector<std::string>{"avg_s_xy", "volume"};
    if (!(q % 2) && plan == 1) en[id] = {"alpha"};
    ++q;
  }
  struct Step { double t; std::vector<double> g; std::vector<std::vector<double>> n; std::map<int, std::vector<std::vector<double>>> e, d; };
  std::vector<Step> S(steps);
  int rc = attempt([&] {
    o.InitializeDatabase(m, glob, node, en, dn);
    for (int s = 0; s < steps; ++s) {
      Step& k = S[s];
      k.t = se::real(se::nm("t", s), 0, 10, 0.5 * s);
      int c = 0;
      auto val = [&](const std::string& n, int i) { ++c; return se::real(se::nm(n.c_str(), s, i), -9, 9, 0.01 * c + s); };
      for (auto& g : glob) k.g.push_back(val(g, 0));
      for (auto& n : node) { k.n.emplace_back(); for (int i = 0; i < w.f.num_nodes; ++i) k.n.back().push_back(val(n, i)); }
      for (auto& b : w.f.blocks) {
        if (!b.nelem) continue;
        k.e[b.id]; k.d[b.id];
        for (auto& n : en[b.id]) { k.e[b.id].emplace_back(); for (int i = 0; i < b.nelem; ++i) k.e[b.id].back().push_back(val(n + std::to_string(b.id), i)); }
        for (auto& n : dn[b.id]) { k.d[b.id].emplace_back(); for (int i = 0; i < b.nelem; ++i) k.d[b.id].back().push_back(val("d" + n + std::to_string(b.id), i)); }
      }
      o.WriteStep(k.t, k.g, k.n, en, k.e, dn, k.d);
    }
  });
  se::truth("the database is written", rc == 0);
  for (auto& c : exosim::complaints()) se::truth(("the Exodus library accepts the call: " + c).c_str(), false);
  if (rc) return;
  exosim::File& f = exosim::file("out.e");
  se::truth("the file is closed", f.open == 0);
  se::truth("number of steps", (int)f.times.size() == steps);
  for (int s = 0; s < steps; ++s) {
    se::eq("time", f.times[s + 1], S[s].t, 0);
    size_t writes = 0;
    for (size_t i = 0; i < node.size(); ++i) {
      auto* v = f.nodal(s, node[i]);
      se::truth("nodal values are there", v && (int)v->size() == w.f.num_nodes);
      if (v) for (int k = 0; k < w.f.num_nodes; ++k) se::eq("nodal value", (*v)[k], S[s].n[i][k], 0);
      ++writes;
    }
    for (auto& b : w.f.blocks) {
      if (!b.nelem) continue;
      auto chk = [&](const std::vector<std::string>& names, const std::vector<std::vector<double>>& val) {
        for (size_t i = 0; i < names.size(); ++i) {
          auto* v = f.elem(s, names[i], b.id);
          se::truth("element values are there", v && (int)v->size() == b.nelem);
          if (v) for (int k = 0; k < b.nelem; ++k) se::eq("element value", (*v)[k], val[i][k], 0);
          ++writes;
        }
      };
      chk(en[b.id], S[s].e[b.id]);
      chk(dn[b.id], S[s].d[b.id]);
    }
    if (!glob.empty()) {
      ++writes;
      bool found = false;
      for (auto& e : f.vals[s + 1])
        if (e.first[0] == 13 || e.second.size() == glob.size())
          if (e.second.size() == glob.size() && e.first[1] == 1 && !found && f.var_names.count(e.first[0]) && f.var_names[e.first[0]] == glob) {
            found = true;
            for (size_t i = 0; i < glob.size(); ++i) se::eq("global value", e.second[i], S[s].g[i], 0);
          }
      se::truth("global values are there", found);
    }
    se::truth("nothing else is written", f.vals[s + 1].size() == writes);
  }
  // the database read back is the mesh
  Want back = w;
  if (!back.f.node_maps.empty()) back.f.node_map = back.f.node_maps[0].second;
  if (!back.f.elem_maps.empty()) back.f.elem_map = back.f.elem_maps[0].second;
  back.f.node_maps.clear();
  back.f.elem_maps.clear();
  GenesisMesh r;
  se::truth("the database can be read", attempt([&] { r.ReadFile("out.e"); }) == 0);
  same_mesh(r, back, 0, 0, false);
  se::reach("written");
}
// results as text: the mesh can be read back, and the lines after it hold the data in the documented order
static void
text_written()
{
  exosim::reset();
  int  blocks = se::choice("blocks", 5), maps = se::choice("maps", 3), sets = se::choice("sets", 3), steps = 1 + se::choice("steps", 2), plan = se::choice("fields", 4);
  Want w = make(blocks, maps, sets, 3);
  exosim::file("in.g") = w.f;
  GenesisMesh m;
  { Quiet q; m.ReadFile("in.g"); }
  char dir[] = "/tmp/io.XXXXXX";
  if (!mkdtemp(dir)) se::quit();
  std::string base = std::string(dir) + "/o.e", path = base + ".txt";
  ExodusOutput o;
  o.Initialize(base, m);
  typedef std::map<int, std::vector<std::string>> Names;
  std::vector<std::string> glob = plan == 1 ? std::vector<std::string>{"energy", "work"} : std::vector<std::string>{}, node = plan == 2 ? std::vector<std::string>{} : std::vector<std::string>{"u_x", "mass"};
  Names en, dn;
  int   q = 0;
  for (int id : w.ids) {
    en[id] = plan == 3 && q % 2 ? std::vector<std::string>{} : q % 2 ? std::vector<std::string>{"volume", "zeta"} : std::vector<std::string>{"zeta", "beta"};
    dn[id] = plan == 2 ? std::vector<std::string>{} : q % 2 ? std::vector<std::string>{"avg_s_xx"} : std::vector<std::string>{"avg_s_xy", "volume"};
    ++q;
  }
  std::set<std::string> all;
  for (int id : w.ids) { all.insert(en[id].begin(), en[id].end()); all.insert(dn[id].begin(), dn[id].end()); }
  std::vector<std::string> fields(all.begin(), all.end());
  std::map<int, int> size;
  for (auto& b : w.f.blocks) size[b.id] = b.nelem;
  // expected words after the mesh; numbers are compared as values
  struct Word { std::string s; bool number; double v; };
  std::vector<Word> W;
  auto word = [&](const std::string& s) { W.push_back({s, false, 0}); };
  auto num  = [&](double v) { W.push_back({"", true, v}); };
  word("global_data"); word(std::to_string(glob.size())); for (auto& n : glob) word(n);
  word("node_data"); word(std::to_string(node.size())); for (auto& n : node) word(n);
  word("element_data"); word(std::to_string(fields.size())); for (auto& n : fields) word(n);
  int rc = attempt([&] {
    o.InitializeDatabaseTextFile(m, glob, node, en, dn);
    for (int s = 0; s < steps; ++s) {
      double t = se::real(se::nm("t", s), 0, 10, 0.5 * s + 1.0 / 3);
      std::vector<double> g;
      std::vector<std::vector<double>> n;
      std::map<int, std::vector<std::vector<double>>> e, d;
      int c = 0;
      auto val = [&](const std::string& nm) { ++c; double v = se::real(se::nm((nm + "_" + std::to_string(c)).c_str(), s), -9, 9, 0.01 * c + s + 1.0 / 7); num(v); return v; };
      word("time"); num(t);
      word("global_data_values"); for (auto& k : glob) g.push_back(val(k));
      word("node_data_values"); for (auto& k : node) { n.emplace_back(); for (int i = 0; i < w.f.num_nodes; ++i) n.back().push_back(val(k)); }
      word("element_data_values");
      for (int id : w.ids) {
        e[id]; d[id];
        auto put = [&](std::vector<std::string>& names, std::vector<std::vector<double>>& v) {
          for (auto& k : names) {
            word(k); word(std::to_string(std::find(fields.begin(), fields.end(), k) - fields.begin() + 1)); word(std::to_string(id)); word(std::to_string(size[id]));
            v.emplace_back();
            for (int i = 0; i < size[id]; ++i) v.back().push_back(val(k));
          }
        };
        put(en[id], e[id]);
        put(dn[id], d[id]);
      }
      o.WriteStepTextFile(t, g, n, en, e, dn, d);
    }
  });
  se::truth("the text results are written", rc == 0);
  GenesisMesh r;
  int rr = attempt([&] { r.ReadTextFile(base); });
  std::ifstream in(path);
  std::string   x;
  while (in >> x && x != "global_data") {}
  for (size_t k = 0; k < W.size(); ++k) {
    if (k && W[k].number) {
      double v;
      bool   ok = bool(in >> v);
      se::truth("a number where one is due", ok);
      if (!ok) break;
      se::eq("value", v, W[k].v, 0);
      continue;
    }
    if (k) in >> x;
    bool ok = in.good() && x == W[k].s;
    se::truth(("line " + W[k].s).c_str(), ok);
    if (!ok) break;
  }
  se::truth("nothing follows", !(in >> x));
  in.close();
  unlink(path.c_str());
  rmdir(dir);
  se::truth("the text results can be read as a mesh", rr == 0);
  if (rr) return;
  Want back = w;
  for (size_t i = 0; i < back.f.blocks.size(); ++i) if (!back.f.blocks[i].nelem) back.f.blocks.erase(back.f.blocks.begin() + i--);
  back.all = back.ids;
  if (!back.f.node_maps.empty()) back.f.node_map = back.f.node_maps[0].second;
  if (!back.f.elem_maps.empty()) back.f.elem_map = back.f.elem_maps[0].second;
  back.f.node_maps.clear();
  back.f.elem_maps.clear();
  back.f.ssets.clear();
  for (auto& s : back.f.nsets) s.factors.clear();
  same_mesh(r, back, 0, 0, true);
  se::reach("text written");
}
void
harness(const char* c)
{
  std::string n = c;
  if (n == "values") values();
  if (n == "repeat") repeat();
  if (n == "switches") switches();
  if (n == "visualization") visualization();
  if (n == "refused") refused();
  if (n == "lengths") lengths();
  if (n == "names") names();
  if (n == "cli") cli();
  if (n == "mesh") mesh();
  if (n == "mesh_refused") mesh_refused();
  if (n == "text_mesh") text_mesh();
  if (n == "memory_mesh") memory_mesh();
  if (n == "extent") extent();
  if (n == "written") written();
  if (n == "text_written") text_written();
}
