// Runs with uncertain material parameters (option --use_uq): every sample against an ordinary run with its parameters, or against the combination it is defined as.
#include "runbase.h"
#include "mpisim.h"
#include <map>
using namespace nimble;
using namespace runbase;
namespace Kokkos {
static int kk = 0;
void
initialize(int& argc, char* argv[])
{
  if (kk++) return;
  typedef void (*F)(int&, char**);
  F f = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
  f(argc, argv);
}
void finalize() {}
}  // namespace Kokkos
namespace {
const char* XYZ[3] = {"x", "y", "z"};
typedef std::vector<double> V;
double gv(int k) { return 0.13 * std::sin(12.9898 * k + 1.3) + 0.09 * std::cos(4.1414 * k); }
int
uqrun(const std::string& path)
{
  NimbleApplication app;
  char *argv[] = {(char*)"NimbleSM", (char*)"--use_uq", (char*)path.c_str(), nullptr};
  return app.Run(3, argv);
}
}  // namespace
// nex exact and nap combined samples; nsym of the numbers are symbolic
static void
samples(int nex, int nap, int steps, int nsym, bool neo, bool ranks = false)
{
  exosim::reset();
  (void)!chdir("/proc/self/task");  // the table of samples it writes is not wanted
  Hex h;
  for (int k = 0; k < 2; ++k)
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 3; ++i) { int id = h.f.num_nodes; h.node(i * 1.1 + gv(7 * id), j * 1.3 + gv(7 * id + 31), k * 0.9 + gv(7 * id + 62)); }
  const int N = 12;
  int       left = nsym;
  auto num = [&](const std::string& nm, double lo, double hi, double at) { return left-- > 0 ? se::real(nm.c_str(), lo, hi, at) : at; };
  int       npar = 0;
  struct Par { int block; bool shear; double unc; };
  std::vector<Par> par;
  double K[2], G[2];
  int    two = 1 - se::choice("a block without uncertain parameters", 2), order = two ? se::choice("parameter order", 2) : 0;
  for (int b = 0; b < 2; ++b) { K[b] = num(se::nm("K", b), 1, 3, 2.1 - 0.2 * b); G[b] = 0.8 + 0.1 * b; }
  for (int b = two ? 0 : 1; b < 2; ++b)
    for (int q = 0; q < (b ? 1 : 2); ++q) {
      bool sh = b ? order : (q ^ order);
      par.push_back({b, sh, num(se::nm("uncertainty", b, q), 0.05, 0.3, 0.1 + 0.05 * q + 0.03 * b)});
    }
  npar = (int)par.size();
  std::vector<V> xi(nex + nap, V(npar)), co(nap, V(nex + 1));
  for (int s = 0; s < nex + nap; ++s)
    for (int p = 0; p < npar; ++p) xi[s][p] = num(se::nm("xi", s, p), -1, 1, 0.9 * std::sin(1.0 + 3 * s + 5 * p));
  left += nsym > 2 ? 2 : 0;
  for (int s = 0; s < nap; ++s)
    for (int k = 0; k <= nex; ++k) co[s][k] = num(se::nm("coefficient", s, k), -1, 2, 0.2 + 0.3 * k - 0.1 * s);
  Deck table;
  table.t = std::to_string(nex) + " " + std::to_string(nap) + "\n";
  for (int s = 0; s < nex + nap; ++s) {
    for (double v : xi[s]) table.t += se::text(v) + std::string(" ");
    if (s >= nex) { table.t += ":"; for (double c : co[s - nex]) table.t += " " + std::string(se::text(c)); }
    table.t += "\n";
  }
  const double dt = 0.1;
  auto deck = [&](const std::string& out, const double* k, const double* g) {
    Deck d;
    d("genesis input file", "m.g")("exodus output file", out)("final time", dt * steps).num("number of load steps", steps);
    for (int b = 0; b < 2; ++b) {
      d("material parameters", std::string(b ? "mb" : "ma") + (neo ? " neohookean" : " elastic") + (b ? " density 1.5" : " density 1.2") + " bulk_modulus " + se::text(k[b]) + " shear_modulus " + se::text(g[b]));
      d("element block", b ? "block_9 mb" : "block_4 ma");
    }
    for (int i = 0; i < N; ++i) for (int c = 0; c < 3; ++c) d("boundary condition", "initial_velocity nodelist_" + std::to_string(100 + i) + " " + XYZ[c] + " " + std::to_string(0.4 * std::cos(2.0 * (3 * i + c))));
    d("boundary condition", "prescribed_velocity nodelist_103 y 0.25");
    d("boundary condition", "prescribed_velocity nodelist_108 x \"0.5 * t - 0.1 * x\"");
    return d;
  };
  h.block(4); h.block(9);
  for (int e = 0; e < 2; ++e) {
    auto q = [&](int a, int c, int d) { return (e + a) + 3 * (c + 2 * d); };
    h.elem(e ? 9 : 4, {q(0, 0, 0), q(1, 0, 0), q(1, 1, 0), q(0, 1, 0), q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)});
  }
  for (int i = 0; i < N; ++i) h.nset(100 + i, "", {i});
  exosim::file("m.g") = h.f;
  std::string fields = "displacement velocity internal_force lumped_mass";
  Deck        d = deck("u.e", K, G);
  for (int b = two ? 0 : 1; b < 2; ++b) {
    std::string l = b ? "mb" : "ma";
    for (auto& p : par) if (p.block == b) l += std::string(p.shear ? " shear_modulus " : " bulk_modulus ") + se::text(p.unc);
    d("uq parameters", l);
  }
  for (int s = 0; s < nex; ++s) for (auto f : {"displacement", "velocity", "force"}) fields += std::string(" exact_") + f + "_" + std::to_string(s + 1);
  for (int s = 0; s < nap; ++s) for (auto f : {"displacement", "velocity", "force"}) fields += std::string(" sample_") + f + "_" + std::to_string(s + 1);
  std::string tp = table.file();
  d("uq model", "file " + tp)("output fields", fields);
  int rc;
  { Quiet q; rc = uqrun(d.file()); }
  if (!two) {
    se::truth("a block without uncertain parameters is refused", rc != 0);
    se::reach("refused");
    return;
  }
  se::truth("the run ends normally", rc == 0);
  exosim::File U = exosim::file("u.out.e");
  se::truth("outputs", (int)U.times.size() == steps + 1);
  if (rc || (int)U.times.size() != steps + 1) return;
  auto get = [&](exosim::File& F, int s, const std::string& pre, const std::string& post) {
    V r(3 * N, 0.0);
    for (int c = 0; c < 3; ++c) {
      auto* p = F.nodal(s, pre + post + "_" + XYZ[c]);
      bool ok = p && (int)p->size() == N;
      se::truth(("output of " + pre + post).c_str(), ok);
      if (ok) for (int i = 0; i < N; ++i) r[3 * i + c] = (*p)[i];
    }
    return r;
  };
  if (ranks) {
    int              order = se::choice("rank order", 2);
    std::vector<int> gn[2];
    for (int r = 0; r < 2; ++r) {
      Hex p;
      std::map<int, int> loc;
      p.block(4); p.block(9);
      std::vector<int> c;
      for (int q : h.f.blocks[r].conn) {
        loc[q - 1] = p.node(h.f.x[q - 1], h.f.y[q - 1], h.f.z[q - 1]);
        c.push_back(loc[q - 1]);
        gn[r].push_back(q - 1);
        p.f.node_map.push_back(q);
      }
      p.elem(r ? 9 : 4, c);
      p.f.elem_map.push_back(r + 1);
      for (int i = 0; i < N; ++i) p.nset(100 + i, "", loc.count(i) ? std::vector<int>{loc[i]} : std::vector<int>());
      exosim::file("m.g.2." + std::to_string(r)) = p.f;
    }
    int  rcs[2] = {-1, -1};
    bool ok;
    { Quiet q; std::string path = d.file(); ok = mpisim::run(2, [&](int r) { rcs[r] = uqrun(path); }, order, 0); }
    se::truth((std::string("the ranks finish ") + mpisim::trouble()).c_str(), ok && !rcs[0] && !rcs[1]);
    if (!ok || rcs[0] || rcs[1]) return;
    for (int r = 0; r < 2; ++r) {
      exosim::File& P = exosim::file("u.out.e.2." + std::to_string(r));
      se::truth("the same outputs on each rank", P.times.size() == U.times.size());
      std::vector<std::string> nf = {"displacement", "velocity", "internal_force"};
      for (auto f : {"displacement", "velocity", "force"}) {
        for (int s = 0; s < nex; ++s) nf.push_back(std::string("exact_") + f + "_" + std::to_string(s + 1));
        for (int s = 0; s < nap; ++s) nf.push_back(std::string("sample_") + f + "_" + std::to_string(s + 1));
      }
      for (int t = 0; t <= steps; ++t)
        for (auto& f : nf)
          for (auto x : XYZ) {
            auto *a = P.nodal(t, f + "_" + x), *b = U.nodal(t, f + "_" + x);
            se::truth(("field " + f).c_str(), a && b);
            if (a && b) for (size_t i = 0; i < gn[r].size(); ++i) se::eq((f + "_" + x + se::nm("", t, gn[r][i])).c_str(), (*a)[i], (*b)[gn[r][i]]);
          }
    }
    se::reach("ranks");
    return;
  }
  // the nominal and the exact samples: ordinary runs
  for (int s = -1; s < nex; ++s) {
    double k[2] = {K[0], K[1]}, g[2] = {G[0], G[1]};
    if (s >= 0) for (int p = 0; p < npar; ++p) (par[p].shear ? g : k)[par[p].block] += par[p].unc * xi[s][p];
    Deck o = deck("r.e", k, g);
    o("output fields", "displacement velocity internal_force");
    NimbleApplication app;
    { Quiet q; rc = run(app, o.file()); }
    se::truth("the ordinary run ends normally", rc == 0);
    exosim::File& R = exosim::file("r.out.e");
    se::truth("its outputs", (int)R.times.size() == steps + 1);
    if (rc || (int)R.times.size() != steps + 1) return;
    for (int t = 0; t <= steps; ++t)
      for (int f = 0; f < 3; ++f) {
        const char* nm[] = {"displacement", "velocity", "internal_force"};
        V a = s < 0 ? get(U, t, nm[f], "") : get(U, t, std::string("exact_") + (f == 2 ? "force" : nm[f]), "_" + std::to_string(s + 1)), b = get(R, t, nm[f], "");
        for (int i = 0; i < 3 * N; ++i) se::eq((std::string(nm[f]) + se::nm(" of sample", s + 1, t, i)).c_str(), a[i], b[i]);
      }
  }
  // the combined ones
  V m(N, 1.0);
  if (auto* p = U.nodal(0, "lumped_mass")) m = *p;
  for (int s = 0; s < nap; ++s) {
    std::string post = "_" + std::to_string(s + 1);
    V u = get(U, 0, "displacement", ""), v = get(U, 0, "velocity", ""), f(3 * N, 0.0);
    for (int t = 0; t <= steps; ++t) {
      if (t) {
        for (int i = 0; i < 3 * N; ++i) v[i] += dt / 2 * f[i] / m[i / 3];
        v[3 * 3 + 1] = 0.25; v[3 * 8] = 0.5 * (t * dt) - 0.1 * h.f.x[8];
        for (int i = 0; i < 3 * N; ++i) u[i] += dt * v[i];
        V n = get(U, t, "internal_force", "");
        for (int i = 0; i < 3 * N; ++i) f[i] = n[i] * co[s][0];
        for (int k = 0; k < nex; ++k) { V e = get(U, t, "exact_force_", std::to_string(k + 1)); for (int i = 0; i < 3 * N; ++i) f[i] += e[i] * co[s][k + 1]; }
        for (int i = 0; i < 3 * N; ++i) v[i] += dt / 2 * f[i] / m[i / 3];
        v[3 * 3 + 1] = 0.25; v[3 * 8] = 0.5 * (t * dt) - 0.1 * h.f.x[8];
      }
      V a = get(U, t, "sample_displacement", post), b = get(U, t, "sample_velocity", post), c = get(U, t, "sample_force", post);
      for (int i = 0; i < 3 * N; ++i) {
        se::eq((std::string("displacement of combination") + se::nm("", s, t, i)).c_str(), a[i], u[i]);
        se::eq((std::string("velocity of combination") + se::nm("", s, t, i)).c_str(), b[i], v[i]);
        se::eq((std::string("force of combination") + se::nm("", s, t, i)).c_str(), c[i], f[i]);
      }
    }
  }
  se::reach("uq");
}
void
harness(const char* c)
{
  std::string n = c;
  if (n == "one") samples(1, 0, 1, 4, false);
  if (n == "linear") samples(2, 2, 1, 6, false);
  if (n == "neohookean") samples(2, 1, 1, 6, true);
  if (n == "ranks") samples(1, 0, 1, 3, false, true);
  if (n == "ranks_mixed") samples(2, 1, 2, 1, false, true);
  if (n == "two_steps") samples(1, 1, 2, 1, false);
}
