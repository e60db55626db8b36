// End-to-end runs of the application: the explicit time integrator and everything below it.
#include "runbase.h"
#include "mpisim.h"
#include <exodusII.h>
#include <set>
#include <sstream>
using namespace nimble;
using namespace runbase;
// ---- Kokkos is started once per process, whatever the number of simulated ranks
namespace Kokkos {
static int kk = 0;
void
initialize(int& argc, char* argv[])
{
  if (kk++) return;
  typedef void (*F)(int&, char**);
  F f = (F)dlsym(RTLD_NEXT, "_ZN6Kokkos10initializeERiPPc");
  f(argc, argv);
}
void finalize() {}
}  // namespace Kokkos
// ---- X01: forces and masses are arbitrary functions; the integrator has to be the central difference scheme
namespace {
const int N = 8;
struct Rec
{
  double t0, t1;
  bool   out;
  double u[N][3], fi[N][3], fe[N][3];
};
struct Log
{
  std::vector<Rec>                               steps;
  std::vector<double>                            out_t;
  std::vector<std::vector<std::vector<double>>>  out;  // per output: field -> values
  std::vector<int>                               order;
  int                                            updates = 0, masses = 0;
  double                                         m[N];
  std::vector<std::vector<double>>               fc;  // contact force by step
  std::vector<std::vector<double>>               end; // u, v, a at the end of each step
};
Log* L;
struct StubData : nimble_kokkos::ModelData
{
  bool ext = true;
  void ComputeLumpedMass(DataManager&) override
  {
    ++L->masses;
    auto m = GetScalarNodeData("lumped_mass");
    for (int i = 0; i < N; ++i) m(i) = L->m[i] = se::real(se::nm("m", i), 0.5, 2.0, 0.6 + 0.15 * i);
  }
  void ComputeExternalForce(DataManager&, double t0, double t1, bool o) override
  {
    L->steps.emplace_back();
    Rec& r = L->steps.back();
    r.t0 = t0; r.t1 = t1; r.out = o;
    auto f = GetVectorNodeData("external_force");
    auto u = GetVectorNodeData("displacement");
    int  s = (int)L->steps.size();
    for (int i = 0; i < N; ++i)
      for (int d = 0; d < 3; ++d) {
        r.u[i][d] = u(i, d);
        f(i, d) = r.fe[i][d] = se::real(se::nm(("fe" + std::to_string(s)).c_str(), i, d), -1, 1, 0.3 * std::cos(i + 2.0 * d + s));
      }
  }
  void ComputeInternalForce(DataManager&, double t0, double t1, bool o, const Viewify<2>& u, Viewify<2>& f) override
  {
    se::truth("the external force is evaluated before the internal force of the step", !L->steps.empty());
    Rec& r = L->steps.back();
    int  s = (int)L->steps.size();
    se::eq("internal force: start of the step", t0, r.t0, 1e-12);
    se::eq("internal force: end of the step", t1, r.t1, 1e-12);
    se::truth("internal force: output flag", o == r.out);
    for (int i = 0; i < N; ++i)
      for (int d = 0; d < 3; ++d) {
        se::eq("the internal force is evaluated at the new displacement", u(i, d), r.u[i][d], 0);
        f(i, d) = r.fi[i][d] = se::real(se::nm(("fi" + std::to_string(s)).c_str(), i, d), -1, 1, 0.4 * std::sin(1 + 3.0 * i + d + s));
      }
  }
  std::vector<double> now()
  {
    std::vector<double> v;
    for (auto n : {"displacement", "velocity", "acceleration"}) {
      auto w = GetVectorNodeData(n);
      for (int i = 0; i < N; ++i)
        for (int d = 0; d < 3; ++d) v.push_back(w(i, d));
    }
    return v;
  }
  void UpdateStates(const DataManager&) override
  {
    ++L->updates;
    se::truth("states advance once per step", L->updates == (int)L->steps.size());
    L->end.push_back(now());
    std::vector<double> c;
    auto                w = GetVectorNodeData("contact_force");
    for (int i = 0; i < N; ++i)
      for (int d = 0; d < 3; ++d) c.push_back(w(i, d));
    L->fc.push_back(c);
  }
  void WriteExodusOutput(DataManager&, double t) override
  {
    L->out_t.push_back(t);
    L->out.push_back({now()});
    L->order.push_back((int)L->steps.size());
  }
  void InitializeExodusOutput(DataManager&) override {}
};
struct Touch : ContactInterface
{
  int calls = 0;
  std::vector<std::vector<double>> want;
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView, KokkosPenaltyContactEnforcement e) override
  {
    ++calls;
    std::vector<double> w(3 * N, 0.0);
    for (size_t i = 0; i < n.extent(0); ++i) {
      int g = ((int)n(i).contact_entity_global_id() - 5) / 3, k = n(i).node_id_for_node_1_;
      for (int d = 0; d < 3; ++d) w[3 * g + d] = e.contact_manager_force(3 * k + d) = se::real(se::nm(("fc" + std::to_string(calls)).c_str(), g, d), -1, 1, 0.2 * std::sin(2.0 + g + 2 * d));
    }
    want.push_back(w);
  }
};
struct App1 : NimbleApplication
{
  std::shared_ptr<Touch> touch = std::make_shared<Touch>();
  std::unique_ptr<ContactInterface> none;
  struct Fwd : ContactInterface
  {
    std::shared_ptr<Touch> t;
    void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, KokkosPenaltyContactEnforcement e) override { t->DoSearchAndEnforcement(n, f, e); }
  };
  std::unique_ptr<ContactInterface> CreateContactInterface() override { auto f = std::make_unique<Fwd>(); f->t = touch; return f; }
  std::unique_ptr<IntegratorBase> CreateIntegrator(DataManager& dm, GenesisMesh& mesh) override
  {
    auto s = std::make_shared<StubData>();
    s->SetDimension(3);
    auto& id = dm.GetFieldIDs();
    id.lumped_mass           = s->AllocateNodeData(SCALAR, "lumped_mass", N);
    id.reference_coordinates = s->AllocateNodeData(VECTOR, "reference_coordinate", N);
    id.displacement          = s->AllocateNodeData(VECTOR, "displacement", N);
    id.velocity              = s->AllocateNodeData(VECTOR, "velocity", N);
    id.acceleration          = s->AllocateNodeData(VECTOR, "acceleration", N);
    id.internal_force        = s->AllocateNodeData(VECTOR, "internal_force", N);
    id.external_force        = s->AllocateNodeData(VECTOR, "external_force", N);
    id.contact_force         = s->AllocateNodeData(VECTOR, "contact_force", N);
    s->SetReferenceCoordinates(mesh);
    dm.model_data_ = s;
    return NimbleApplication::CreateIntegrator(dm, mesh);
  }
};
// far apart along every axis, so that no comparison of positions inside the contact code depends on the displacements
const double PX[8][3] = {{0, 1e4, 4e4}, {51e4, 3e4, 0}, {54e4, 78e4, 3e4}, {2e4, 71e4, 1e4}, {1e4, 0, 123e4}, {50e4, 2e4, 111e4}, {56e4, 73e4, 110e4}, {3e4, 75e4, 114e4}};
}  // namespace
static void
central(int steps, int freq, bool contact, int bc)
{
  exosim::reset();
  Hex h;
  for (auto& p : PX) h.node(p[0], p[1], p[2]);
  h.block(1);
  h.elem(1, {0, 1, 2, 3, 4, 5, 6, 7});
  h.nset(1, "", {0, 3});
  h.nset(2, "moving", {1, 2, 5});
  h.nset(3, "", {1, 6});
  for (int i = 0; i < N; ++i) h.f.node_map.push_back(3 * i + 5);
  exosim::file("m.g") = h.f;
  double t0 = se::real("t0", -1, 1, 0.25), dtot = se::real("duration", 0.1, 2, 0.8);
  double v0 = se::real("v0", -1, 1, 0.4), vp = se::real("vp", -1, 1, 0.3), dp = se::real("dp", -1, 1, -0.2);
  Deck   d;
  d("genesis input file", "m.g")("exodus output file", "o.e");
  d("initial time", t0)("final time", t0 + dtot).num("number of load steps", steps);
  if (freq != 1) d.num("output frequency", freq);
  d("material parameters", "mat elastic density 1.0 bulk_modulus 2.0 shear_modulus 1.0")("element block", "block_1 mat");
  d("output fields", "displacement velocity");
  d("boundary condition", std::string("initial_velocity nodelist_3 y ") + se::text(v0));
  if (bc) {
    d("boundary condition", std::string("prescribed_velocity nodelist_1 x \"") + se::text(vp) + " * (1 + 0.5 * t)\"");
    d("boundary condition", std::string("prescribed_displacement moving z \"") + se::text(dp) + " * t\"");
  }
  if (contact) d("contact", "primary_blocks block_1 secondary_blocks block_1 penalty_parameter 1.0");
  Log log;
  L = &log;
  App1 app;
  int  rc;
  {
    Quiet q;
    rc = run(app, d.file());
  }
  se::truth("the run ends normally", rc == 0);
  se::truth("one evaluation per load step", (int)log.steps.size() == steps && log.updates == steps && log.masses == 1);
  if ((int)log.steps.size() != steps) return;
  if (contact) se::truth("contact is evaluated once per step", app.touch->calls == steps);
  double dt = dtot / steps, h2 = dt / 2;
  double u[N][3] = {}, v[N][3] = {}, a[N][3] = {};
  bool   fv[N] = {}, fd[N] = {};
  if (bc) { fv[0] = fv[3] = true; fd[1] = fd[2] = fd[5] = true; }
  v[1][1] = v[6][1] = v0;
  std::vector<int> outs = {0};
  for (int s = 0; s < steps; ++s)
    if (freq != 0 && (s % freq == 0 || s == steps - 1)) outs.push_back(s + 1);
  se::truth("output at the start, at every multiple of the output frequency and at the end", log.order == outs);
  if (log.order != outs) return;
  size_t o = 0;
  double vnow = 0;
  auto check = [&](const char* what, int s, const std::vector<double>& w, bool out) {
    for (int i = 0; i < N; ++i)
      for (int k = 0; k < 3; ++k) {
        se::eq(se::nm((std::string(what) + " displacement").c_str(), s, i, k), w[3 * i + k], u[i][k], 1e-9);
        if (!(bc && ((fv[i] && k == 0) || (fd[i] && k == 2)))) se::eq(se::nm((std::string(what) + " velocity").c_str(), s, i, k), w[24 + 3 * i + k], v[i][k], 1e-9);
        else if (fv[i] && k == 0 && out) se::eq(se::nm((std::string(what) + " prescribed velocity").c_str(), s, i, k), w[24 + 3 * i + k], vnow, 1e-9);
        se::eq(se::nm((std::string(what) + " acceleration").c_str(), s, i, k), w[48 + 3 * i + k], a[i][k], 1e-9);
      }
  };
  se::eq("time of the first output", log.out_t[0], t0, 1e-12);
  vnow = vp * (1 + 0.5 * t0);
  check("at the start:", 0, log.out[0][0], true);
  o = 1;
  for (int s = 0; s < steps; ++s) {
    Rec& r = log.steps[s];
    se::eq(se::nm("start of step", s), r.t0, t0 + s * dt, 1e-12);
    se::eq(se::nm("end of step", s), r.t1, t0 + (s + 1) * dt, 1e-12);
    vnow = vp * (1 + 0.5 * (t0 + (s + 1) * dt));
    se::truth("output flag of the step", r.out == (o < outs.size() && outs[o] == s + 1));
    for (int i = 0; i < N; ++i)
      for (int k = 0; k < 3; ++k) {
        double vh = v[i][k] + h2 * a[i][k];
        if (fv[i] && k == 0) vh = vnow;
        double un = u[i][k] + dt * vh;
        if (fd[i] && k == 2) un = dp * (t0 + (s + 1) * dt);
        double f = r.fi[i][k] + r.fe[i][k];
        if (contact) {
          f += app.touch->want[s][3 * i + k];
          se::eq(se::nm("contact force", s, i, k), log.fc[s][3 * i + k], app.touch->want[s][3 * i + k], 1e-12);
        }
        u[i][k] = un;
        a[i][k] = f / log.m[i];
        v[i][k] = vh + h2 * a[i][k];
        if (fd[i] && k == 2) v[i][k] = 0;  // not claimed
        se::eq(se::nm("displacement the forces are evaluated at", s, i, k), r.u[i][k], un, 1e-9);
      }
    check("end of step:", s, log.end[s], false);
    if (o < outs.size() && outs[o] == s + 1) {
      se::eq(se::nm("time of the output", s), log.out_t[o], t0 + (s + 1) * dt, 1e-12);
      check("output:", s, log.out[o][0], true);
      ++o;
    }
  }
  se::truth("no complaint of the Exodus library", exosim::complaints().empty());
  se::reach("run");
}

// ---- whole runs against an independent model
#include "fe.h"
namespace {
struct Net
{
  Hex                           h;
  fe::Model                     m;
  std::vector<std::vector<int>> blk;  // element indices of each block, in file order
  std::vector<int>              ids;
};
double gv(int k) { return 0.13 * std::sin(12.9898 * k + 1.3) + 0.09 * std::cos(4.1414 * k); }
// shape 0: one element; 1: two blocks of one element each; 2: two elements in one block; 3: blocks of two and one element; 4: four elements in a 2x2x1 grid, two blocks
void
net(Net& n, int shape)
{
  static const int DIM[5][3] = {{1, 1, 1}, {2, 1, 1}, {2, 1, 1}, {3, 1, 1}, {2, 2, 1}};
  static const int BL[5][4]  = {{4}, {4, 9}, {4, 4}, {4, 9, 4}, {4, 9, 9, 4}};
  const int *      D = DIM[shape], NX = D[0] + 1, NY = D[1] + 1;
  for (int k = 0; k <= D[2]; ++k)
    for (int j = 0; j <= D[1]; ++j)
      for (int i = 0; i <= D[0]; ++i) {
        int    id = n.m.nn++;
        double x[3] = {i * 1.1 + gv(7 * id), j * 1.3 + gv(7 * id + 31), k * 0.9 + gv(7 * id + 62)};
        n.h.node(x[0], x[1], x[2]);
        for (double v : x) n.m.X.push_back(v);
      }
  std::vector<int> bl;
  for (int b : {4, 9}) for (int e = 0; e < D[0] * D[1]; ++e) if (BL[shape][e] == b && (bl.empty() || bl.back() != b)) bl.push_back(b);
  for (int b : bl) {
    n.h.block(b);
    n.ids.push_back(b);
    n.blk.emplace_back();
    for (int e = 0; e < D[0] * D[1]; ++e)
      if (BL[shape][e] == b) {
        int i = e % D[0], j = e / D[0];
        auto q = [&](int a, int c, int d) { return (i + a) + NX * ((j + c) + NY * d); };
        std::vector<int> c = {q(0, 0, 0), q(1, 0, 0), q(1, 1, 0), q(0, 1, 0), q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)};
        n.h.elem(b, c);
        fe::Elem E;
        E.block = b;
        for (int a = 0; a < 8; ++a) E.n[a] = c[a];
        n.blk.back().push_back((int)n.m.el.size());
        n.m.el.push_back(E);
      }
  }
}
struct App : NimbleApplication
{
  std::function<void(DataManager&)> peek;
  std::unique_ptr<IntegratorBase> CreateIntegrator(DataManager& dm, GenesisMesh& mesh) override
  {
    if (peek) peek(dm);
    return NimbleApplication::CreateIntegrator(dm, mesh);
  }
};
const char* XYZ[3] = {"x", "y", "z"};
const char* SY[6] = {"xx", "yy", "zz", "xy", "yz", "zx"};
const int   SYI[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}};
const char* FU[9] = {"xx", "yy", "zz", "xy", "yz", "zx", "yx", "zy", "xz"};
const int   FUI[9][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {2, 0}, {1, 0}, {2, 1}, {0, 2}};
typedef const std::vector<double> CV;
}  // namespace
// one symbolic run: `steps` load steps, initial velocities of a few nodes symbolic
static void
physics(int shape, int steps, int nsym, bool symmat, const char* what)
{
  exosim::reset();
  Net n;
  net(n, shape);
  int    N = n.m.nn;
  double dt = 0.1;
  Deck   d;
  d("genesis input file", "m.g")("exodus output file", "o.e")("final time", dt * steps).num("number of load steps", steps);
  int k = 0;
  for (int b : n.ids) {
    fe::Mat& m = n.m.mat[b];
    m.rho = symmat ? se::real(se::nm("rho", b), 0.5, 2, 1.2) : 1.2 + 0.3 * k;
    m.K   = symmat ? se::real(se::nm("K", b), 1, 3, 2.1) : 2.1 - 0.2 * k;
    m.G   = symmat ? se::real(se::nm("G", b), 0.3, 1.5, 0.8) : 0.8 + 0.1 * k;
    d("material parameters", "mat" + std::to_string(b) + " elastic density " + se::text(m.rho) + " bulk_modulus " + se::text(m.K) + " shear_modulus " + se::text(m.G));
    d("element block", "block_" + std::to_string(b) + " mat" + std::to_string(b));
    ++k;
  }
  fe::V v(3 * N, 0.0);
  for (int i = 0; i < N; ++i) {
    n.h.nset(100 + i, "", {i});
    for (int c = 0; c < 3; ++c) {
      int q = 3 * i + c;
      // symbolic ones are spread over the nodes
      bool sym = (q * 7 + 3) % (3 * N) < nsym;
      v[q] = sym ? se::real(se::nm("v", i, c), -0.5, 0.5, 0.3 * std::sin(1.0 + q)) : 0.4 * std::cos(2.0 * q);
      d("boundary condition", "initial_velocity nodelist_" + std::to_string(100 + i) + " " + XYZ[c] + " " + se::text(v[q]));
    }
  }
  d("output fields", "lumped_mass volume displacement velocity acceleration internal_force deformation_gradient stress ipt03_stress ipt06_deformation_gradient ipt08_stress ipt01_deformation_gradient");
  exosim::file("m.g") = n.h.f;
  App app;
  int rc;
  {
    Quiet q;
    rc = run(app, d.file());
  }
  se::truth("the run ends normally", rc == 0);
  se::truth("no complaint of the Exodus library", exosim::complaints().empty());
  exosim::File& o = exosim::file("o.out.e");
  se::truth("one output per step and one at the start", (int)o.times.size() == steps + 1);
  if (rc || (int)o.times.size() != steps + 1) return;
  auto nod = [&](int s, const std::string& name) -> CV& {
    CV* p = o.nodal(s, name);
    static std::vector<double> none;
    se::truth(("output of " + name).c_str(), p && (int)p->size() == N);
    return p ? *p : (none.assign(N, 0.0), none);
  };
  fe::V m0 = n.m.mass();
  if (!strcmp(what, "momentum")) {
    double P0[3], L0[3];
    double mt = 0;
    CV& m = nod(0, "lumped_mass");
    for (int i = 0; i < N; ++i) mt += m[i];
    for (int s = 0; s <= steps; ++s) {
      double P[3] = {0, 0, 0}, L[3] = {0, 0, 0};
      for (int i = 0; i < N; ++i) {
        double x[3], w[3];
        for (int c = 0; c < 3; ++c) { x[c] = n.m.X[3 * i + c] + nod(s, std::string("displacement_") + XYZ[c])[i]; w[c] = nod(s, std::string("velocity_") + XYZ[c])[i]; }
        for (int c = 0; c < 3; ++c) {
          P[c] += m[i] * w[c];
          L[c] += m[i] * (x[(c + 1) % 3] * w[(c + 2) % 3] - x[(c + 2) % 3] * w[(c + 1) % 3]);
        }
      }
      for (int c = 0; c < 3; ++c) {
        if (s == 0) { P0[c] = P[c]; L0[c] = L[c]; }
        else {
          se::eq(se::nm("linear momentum", s, c), P[c], P0[c]);
          se::eq(se::nm("angular momentum", s, c), L[c], L0[c]);
        }
      }
    }
    se::reach("run");
    return;
  }
  for (int s = 0; s <= steps; ++s) {
    fe::V u(3 * N), f;
    for (int i = 0; i < N; ++i)
      for (int c = 0; c < 3; ++c) u[3 * i + c] = nod(s, std::string("displacement_") + XYZ[c])[i];
    f = n.m.force(u);
    for (int i = 0; i < N; ++i) {
      se::eq(se::nm("lumped mass", s, i), nod(s, "lumped_mass")[i], m0[i]);
      for (int c = 0; c < 3; ++c) se::eq(se::nm("internal force", s, i, c), nod(s, std::string("internal_force_") + XYZ[c])[i], f[3 * i + c]);
    }
    for (size_t b = 0; b < n.ids.size(); ++b)
      for (size_t j = 0; j < n.blk[b].size(); ++j) {
        int  e = n.blk[b][j];
        auto el = [&](const std::string& name) {
          CV* p = o.elem(s, name, n.ids[b]);
          se::truth(("output of " + name).c_str(), p && p->size() == n.blk[b].size());
          return p ? (*p)[j] : 0.0;
        };
        se::eq(se::nm("volume", s, e), el("volume"), n.m.vol[e]);
        for (int k = 0; k < 6; ++k) {
          double a = 0;
          for (auto& p : n.m.pts[e]) a += p.w * p.S[SYI[k][0]][SYI[k][1]];
          se::eq((std::string("volume average of stress ") + SY[k] + se::nm("", s, e)).c_str(), el(std::string("stress_") + SY[k]) * n.m.vol[e], a);
          se::eq((std::string("stress at point 3 ") + SY[k] + se::nm("", s, e)).c_str(), el(std::string("ipt03_stress_") + SY[k]), n.m.pts[e][2].S[SYI[k][0]][SYI[k][1]]);
          se::eq((std::string("stress at point 8 ") + SY[k] + se::nm("", s, e)).c_str(), el(std::string("ipt08_stress_") + SY[k]), n.m.pts[e][7].S[SYI[k][0]][SYI[k][1]]);
        }
        for (int k = 0; k < 9; ++k) {
          double a = 0;
          for (auto& p : n.m.pts[e]) a += p.w * p.F[FUI[k][0]][FUI[k][1]];
          se::eq((std::string("volume average of F ") + FU[k] + se::nm("", s, e)).c_str(), el(std::string("deformation_gradient_") + FU[k]) * n.m.vol[e], a);
          se::eq((std::string("F at point 6 ") + FU[k] + se::nm("", s, e)).c_str(), el(std::string("ipt06_deformation_gradient_") + FU[k]), n.m.pts[e][5].F[FUI[k][0]][FUI[k][1]]);
          se::eq((std::string("F at point 1 ") + FU[k] + se::nm("", s, e)).c_str(), el(std::string("ipt01_deformation_gradient_") + FU[k]), n.m.pts[e][0].F[FUI[k][0]][FUI[k][1]]);
        }
      }
  }
  se::reach("run");
}

// ---- the same run on several ranks
namespace {
std::map<std::string, double> forces;  // contact force symbols, the same in the serial and the parallel run
double
force_of(const std::string& n, double seed)
{
  auto it = forces.find(n);
  if (it != forces.end()) return it->second;
  return forces[n] = se::real(n.c_str(), -1, 1, seed);
}
struct Push : ContactInterface
{
  int calls = 0;
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, KokkosPenaltyContactEnforcement e) override
  {
    ++calls;
    for (size_t i = 0; i < n.extent(0); ++i) {
      int g = (int)n(i).contact_entity_global_id(), k = n(i).node_id_for_node_1_;
      e.contact_manager_force(3 * k + g % 3) += force_of(se::nm("cn", calls, g), 0.3 * std::sin(1.0 + g));
    }
    for (size_t i = 0; i < f.extent(0); ++i) {
      int g = (int)f(i).contact_entity_global_id(), k = f(i).node_id_for_node_1_;
      if (g % 3 == 0) e.contact_manager_force(3 * k + 1) += force_of(se::nm("cf", calls, g), 0.2 * std::cos(1.0 + g));
    }
  }
};
struct App2 : NimbleApplication
{
  std::unique_ptr<ContactInterface> CreateContactInterface() override { return std::make_unique<Push>(); }
};
}  // namespace
static void
ranks(int n, bool contact, int steps)
{
  exosim::reset();
  forces.clear();
  Net g;
  int ne = 4;
  if (!contact) net(g, 4);
  else {
    // two separate rows of two elements
    for (int r = 0; r < 2; ++r)
      for (int k = 0; k < 2; ++k)
        for (int j = 0; j < 2; ++j)
          for (int i = 0; i < 3; ++i) {
            int    id = g.m.nn++;
            double x[3] = {i * 1.1 + gv(7 * id), j * 1.3 + 3 * r + gv(7 * id + 31), k * 0.9 + gv(7 * id + 62)};
            g.h.node(x[0], x[1], x[2]);
          }
    for (int r = 0; r < 2; ++r) {
      g.h.block(r ? 9 : 4);
      for (int e = 0; e < 2; ++e) {
        auto q = [&](int a, int c, int d) { return 12 * r + (e + a) + 3 * (c + 2 * d); };
        g.h.elem(r ? 9 : 4, {q(0, 0, 0), q(1, 0, 0), q(1, 1, 0), q(0, 1, 0), q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)});
      }
    }
  }
  exosim::File& F = g.h.f;
  int           N = F.num_nodes;
  std::vector<int> s1, s2, s3;
  for (int i = 0; i < N; ++i) { if (i % 3 == 0) s1.push_back(i); if (i % 4 == 1) s2.push_back(i); if (i % 5 == 2) s3.push_back(i); }
  g.h.nset(1, "", s1); g.h.nset(2, "two", s2); g.h.nset(7, "", s3);
  int deal = se::choice("distribution", 3), order = se::choice("rank order", 3), aux = deal == 1;
  // element e (file order) goes to rank own[e]
  static const int OWN[3][3][4] = {{{0, 1, 1, 0}, {1, 0, 1, 1}, {0, 0, 1, 1}}, {{2, 0, 1, 0}, {0, 1, 2, 2}, {1, 1, 0, 2}}, {{3, 1, 0, 2}, {0, 1, 2, 3}, {0, 2, 2, 0}}};
  const int*       own = OWN[n - 2][deal];
  double           rho = steps > 1 ? 1.1 : se::real("rho", 0.5, 2, 1.1), v1 = se::real("v1", -0.5, 0.5, 0.3), v2 = steps > 1 ? -0.2 : se::real("v2", -0.5, 0.5, -0.2), v3 = 0.25;
  Deck d;
  d("genesis input file", "m.g")("exodus output file", "o.e")("final time", 0.1 * steps).num("number of load steps", steps);
  d("material parameters", std::string("a elastic density ") + se::text(rho) + " bulk_modulus 2.3 shear_modulus 0.7");
  d("material parameters", "b elastic density 0.9 bulk_modulus 1.9 shear_modulus 0.4");
  d("element block", "block_4 a")("element block", "block_9 b");
  d("boundary condition", std::string("initial_velocity nodelist_1 x ") + se::text(v1));
  d("boundary condition", std::string("initial_velocity two z \"") + se::text(v2) + " * (1 + x)\"");
  d("boundary condition", std::string("prescribed_velocity nodelist_7 y ") + se::text(v3));
  d("output fields", "lumped_mass volume displacement velocity acceleration internal_force contact_force deformation_gradient stress");
  if (contact) d("contact", "primary_blocks block_4 secondary_blocks block_9 penalty_parameter 1.0");
  exosim::file("m.g") = F;
  {
    App2  app;
    Quiet q;
    se::truth("the serial run ends normally", run(app, d.file()) == 0);
  }
  exosim::File S = exosim::file("o.out.e");
  std::vector<std::vector<int>> gn(n);                     // rank -> local node -> global node
  std::vector<std::vector<std::pair<int, int>>> ge(n);     // rank -> local element -> (block, index in the serial block)
  for (int r = 0; r < n; ++r) {
    Hex              p;
    std::vector<int> loc(N, -1), emap;
    // local nodes are numbered by the elements in reverse, so that local and global orders differ
    int e = 0;
    for (auto& b : F.blocks) {
      p.block(b.id, b.name);
      for (int j = 0; j < b.nelem; ++j, ++e) {
        if (own[e] != r) continue;
        std::vector<int> c(8);
        for (int a = 7; a >= 0; --a) {
          int q = b.conn[8 * j + a] - 1;
          if (loc[q] < 0) { loc[q] = p.node(F.x[q], F.y[q], F.z[q]); gn[r].push_back(q); }
          c[a] = loc[q];
        }
        p.elem(b.id, c);
        emap.push_back(e + 1);
        ge[r].push_back({b.id, j});
      }
    }
    std::vector<int> nmap;
    for (int q : gn[r]) nmap.push_back(q + 1);
    if (aux) { p.f.node_maps.push_back({"original_global_id_map", nmap}); p.f.elem_maps.push_back({"original_global_id_map", emap}); }
    else { p.f.node_map = nmap; p.f.elem_map = emap; }
    for (auto& s : F.nsets) {
      std::vector<int> l;
      for (int q : s.items) if (loc[q - 1] >= 0) l.push_back(loc[q - 1]);
      p.nset(s.id, s.name, l);
    }
    exosim::file("m.g." + std::to_string(n) + "." + std::to_string(r)) = p.f;
  }
  std::vector<int> rcs(n, -1);
  bool             ok;
  {
    Quiet            q;
    std::vector<App2> apps(n);
    std::string      path = d.file();
    ok = mpisim::run(n, [&](int r) { rcs[r] = run(apps[r], path); }, order, contact ? 1 : 3);
  }
  se::truth((std::string("the ranks finish ") + mpisim::trouble()).c_str(), ok);
  for (int r = 0; r < n; ++r) se::truth("the parallel run ends normally", rcs[r] == 0);
  se::truth("no message is left over", mpisim::leftover() == 0);
  se::truth("no complaint of the Exodus library", exosim::complaints().empty());
  if (!ok) return;
  std::vector<std::string> nf = {"lumped_mass"}, ef = {"volume"};
  for (auto f : {"displacement", "velocity", "acceleration", "internal_force", "contact_force"}) for (auto x : XYZ) nf.push_back(std::string(f) + "_" + x);
  for (auto x : SY) ef.push_back(std::string("stress_") + x);
  for (auto x : FU) ef.push_back(std::string("deformation_gradient_") + x);
  for (int r = 0; r < n; ++r) {
    exosim::File& P = exosim::file("o.out.e." + std::to_string(n) + "." + std::to_string(r));
    se::truth("the same outputs", P.times.size() == S.times.size());
    se::truth("each rank writes its global numbering", P.node_map.size() == gn[r].size() && P.elem_map.size() == ge[r].size());
    for (size_t i = 0; i < P.node_map.size(); ++i) se::truth("global node number", P.node_map[i] == gn[r][i] + 1);
    for (int s = 0; s <= steps; ++s) {
      se::eq("time", P.times[s + 1], S.times[s + 1], 1e-12);
      if (!gn[r].empty()) for (auto& f : nf) {  // a rank without nodes has no nodal fields
        CV *a = P.nodal(s, f), *b = S.nodal(s, f);
        se::truth(("nodal field " + f).c_str(), a && b);
        if (a && b) for (size_t i = 0; i < gn[r].size(); ++i) se::eq((f + se::nm("", s, gn[r][i])).c_str(), (*a)[i], (*b)[gn[r][i]]);
      }
      for (auto& f : ef) {
        std::map<int, int> at;
        for (auto& q : ge[r]) {
          CV *a = P.elem(s, f, q.first), *b = S.elem(s, f, q.first);
          se::truth(("element field " + f).c_str(), a && b);
          int l = at[q.first]++;
          if (a && b) se::eq((f + se::nm("", s, q.first, q.second)).c_str(), (*a)[l], (*b)[q.second]);
        }
      }
    }
  }
  se::reach("ranks");
}
// ---- the contact visualization database
namespace {
int turn(int s, int id) { return (id * (s + 2) / 3 + s) % 3 == 0; }  // who is in contact at evaluation s
struct Mark : ContactInterface
{
  int calls = 0;
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, KokkosPenaltyContactEnforcement e) override
  {
    ++calls;
    for (size_t i = 0; i < n.extent(0); ++i) {
      int g = (int)n(i).contact_entity_global_id(), k = n(i).node_id_for_node_1_;
      n(i).set_contact_status(turn(calls, g));
      e.contact_manager_force(3 * k + g % 3) += 0.3 * std::sin(1.0 + g);
    }
    for (size_t i = 0; i < f.extent(0); ++i) f(i).set_contact_status(turn(calls, (int)f(i).contact_entity_global_id()));
  }
};
struct App3 : NimbleApplication
{
  std::unique_ptr<ContactInterface> CreateContactInterface() override { return std::make_unique<Mark>(); }
};
}  // namespace
static void
picture(int n)
{
  exosim::reset();
  const int steps = 3;
  int       apart = n > 1 ? se::choice("distribution", 2) : 0, freq = n > 1 ? apart + 1 : se::choice("output frequency", 2) + 1, order = n > 1 ? se::choice("rank order", 3) : 0;
  Hex       g;
  for (int r = 0; r < 2; ++r)
    for (int k = 0; k < 2; ++k)
      for (int j = 0; j < 2; ++j)
        for (int i = 0; i < (r ? 2 : 4); ++i) {
          int id = g.f.num_nodes;
          g.node(1e3 * (i * 1.1 + gv(7 * id + 5)), 1e3 * (j * 1.3 + 3 * r + gv(7 * id + 36)), 1e3 * (k * 0.9 + gv(7 * id + 67)));  // so large that no comparison of positions depends on the motion
        }
  for (int r = 0; r < 2; ++r) {
    g.block(r ? 9 : 4);
    for (int e = 0; e < (r ? 1 : 3); ++e) {
      auto q = [&](int a, int c, int d) { return 16 * r + (e + a) + (r ? 2 : 4) * (c + 2 * d); };
      g.elem(r ? 9 : 4, {q(0, 0, 0), q(1, 0, 0), q(1, 1, 0), q(0, 1, 0), q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1)});
    }
  }
  exosim::File& F = g.f;
  int           N = F.num_nodes;
  std::vector<int> all;
  for (int i = 0; i < N; ++i) all.push_back(i);
  g.nset(1, "", all);
  auto gnum = [](int q) { return 3 * q + 7; };  // global numbers
  double v1 = se::real("v", -0.5, 0.5, 0.3), v2 = 0.4 - 0.7 * v1;
  Deck   d;
  d("genesis input file", "m.g")("exodus output file", "o.e")("final time", 0.06).num("number of load steps", steps).num("output frequency", freq);
  d("material parameters", "a elastic density 1.1 bulk_modulus 2.3 shear_modulus 0.7");
  d("element block", "block_4 a")("element block", "block_9 a");
  d("boundary condition", std::string("initial_velocity nodelist_1 x \"") + se::text(v1) + " * (1 + 0.001 * y)\"");
  d("boundary condition", std::string("initial_velocity nodelist_1 z \"") + se::text(v2) + " * (1 + 0.001 * x)\"");
  d("output fields", "displacement");
  d("contact", "primary_blocks block_4 secondary_blocks block_9 penalty_parameter 1.0");
  d("contact visualization", "visualize_contact_entities on visualize_bounding_boxes off file_name cv.e");
  std::vector<std::vector<int>> gn(n);
  static const int              OWN[2][4] = {{0, 1, 0, 1}, {0, 0, 0, 1}};
  for (int r = 0; r < n; ++r) {
    Hex              p;
    std::vector<int> loc(N, -1), emap;
    int              e = 0;
    for (auto& b : F.blocks) {
      p.block(b.id, b.name);
      for (int j = 0; j < b.nelem; ++j, ++e) {
        if (n > 1 && OWN[apart][e] != r) continue;
        std::vector<int> c(8);
        for (int a = 7; a >= 0; --a) {
          int q = b.conn[8 * j + a] - 1;
          if (loc[q] < 0) { loc[q] = p.node(F.x[q], F.y[q], F.z[q]); gn[r].push_back(q); }
          c[a] = loc[q];
        }
        p.elem(b.id, c);
        emap.push_back(e + 1);
      }
    }
    for (int q : gn[r]) p.f.node_map.push_back(gnum(q));
    p.f.elem_map = emap;
    std::vector<int> l;
    for (size_t i = 0; i < gn[r].size(); ++i) l.push_back((int)i);
    p.nset(1, "", l);
    exosim::file(n > 1 ? "m.g." + std::to_string(n) + "." + std::to_string(r) : "m.g") = p.f;
  }
  std::vector<int> rcs(n, -1);
  {
    Quiet             q;
    std::vector<App3> apps(n);
    std::string       path = d.file();
    if (n == 1) rcs[0] = run(apps[0], path);
    else se::truth("the ranks finish", mpisim::run(n, [&](int r) { rcs[r] = run(apps[r], path); }, order, 1));
  }
  for (int r = 0; r < n; ++r) se::truth("the run ends normally", rcs[r] == 0);
  for (auto& c : exosim::complaints()) se::truth(("accepted by the Exodus library: " + c).c_str(), false);
  // the skin of the two blocks: quadrilaterals by their nodes
  static const int SIDE[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {0, 3, 2, 1}, {4, 5, 6, 7}};
  std::map<std::vector<int>, int> cnt[2];
  for (int b = 0; b < 2; ++b)
    for (int e = 0; e < F.blocks[b].nelem; ++e)
      for (auto& s : SIDE) {
        std::vector<int> q;
        for (int a : s) q.push_back(F.blocks[b].conn[8 * e + a] - 1);
        std::sort(q.begin(), q.end());
        ++cnt[b][q];
      }
  std::set<std::vector<int>>                     quads;
  std::set<int>                                  skin;
  for (auto& c : cnt[0]) if (c.second == 1) quads.insert(c.first);
  for (auto& c : cnt[1]) if (c.second == 1) for (int q : c.first) skin.insert(q);
  std::map<std::pair<std::vector<int>, std::pair<int, int>>, int> seen_tri;
  std::map<int, int>                                              seen_node;
  std::set<int>                                                   nodenum, elemnum;
  std::vector<int> outs = {0};
  for (int s = 0; s < steps; ++s) if (s % freq == 0 || s == steps - 1) outs.push_back(s + 1);
  for (int r = 0; r < n; ++r) {
    std::string   tail = n > 1 ? "." + std::to_string(n) + "." + std::to_string(r) : "";
    exosim::File& C = exosim::file("cv.out.e" + tail);
    exosim::File& S = exosim::file("o.out.e" + tail);
    se::truth("the database exists", C.exists);
    if (!C.exists) return;
    std::map<int, int> at;  // mesh node -> local node of the results
    for (size_t i = 0; i < gn[r].size(); ++i) at[gn[r][i]] = (int)i;
    auto node_at = [&](int k) { for (int q = 0; q < N; ++q) if (F.x[q] == C.x[k] && F.y[q] == C.y[k] && F.z[q] == C.z[k]) return q; return -1; };
    auto quad_at = [&](int k) {
      for (auto& q : quads) {
        double m[3] = {};
        for (int a : q) { m[0] += F.x[a] / 4; m[1] += F.y[a] / 4; m[2] += F.z[a] / 4; }
        if (std::fabs(m[0] - C.x[k]) + std::fabs(m[1] - C.y[k]) + std::fabs(m[2] - C.z[k]) < 1e-6) return q;
      }
      return std::vector<int>();
    };
    const exosim::Blk *bf = nullptr, *bn = nullptr;
    for (auto& b : C.blocks) { if (b.name == "contact_faces") bf = &b; if (b.name == "contact_nodes") bn = &b; }
    se::truth("two blocks, of triangles and of points", C.blocks.size() == 2 && bf && bn && bf->type == "TRIANGLE" && bn->type == "SPHERE" && (bf->nelem == 0 || bf->npe == 3) && (bn->nelem == 0 || bn->npe == 1));
    if (!bf || !bn) return;
    se::truth("no node without an element", C.num_nodes == 3 * bf->nelem + bn->nelem && C.num_elem == bf->nelem + bn->nelem);
    for (int id : C.node_map) se::truth("node numbers are unique", nodenum.insert(id).second && id > 0);
    for (int id : C.elem_map) se::truth("element numbers are unique", elemnum.insert(id).second && id > 0);
    se::truth("every node and element has a number", (int)C.node_map.size() == C.num_nodes && (int)C.elem_map.size() == C.num_elem);
    // per picture node: the mesh nodes whose mean it follows, and its entity
    std::vector<std::vector<int>> follow(C.num_nodes);
    for (int e = 0; e < bf->nelem; ++e) {
      int  k[3] = {bf->conn[3 * e] - 1, bf->conn[3 * e + 1] - 1, bf->conn[3 * e + 2] - 1};
      int  a = node_at(k[0]), b = node_at(k[1]);
      auto q = quad_at(k[2]);
      bool ok = a >= 0 && b >= 0 && a != b && q.size() == 4 && std::count(q.begin(), q.end(), a) && std::count(q.begin(), q.end(), b);
      se::truth("each triangle spans an edge and the centre of a primary skin face", ok);
      if (!ok) return;
      ++seen_tri[{q, {std::min(a, b), std::max(a, b)}}];
      follow[k[0]] = {a}; follow[k[1]] = {b}; follow[k[2]] = q;
    }
    for (int e = 0; e < bn->nelem; ++e) {
      int a = node_at(bn->conn[e] - 1);
      se::truth("each point is a secondary skin node", a >= 0 && skin.count(a));
      if (a < 0) return;
      ++seen_node[a];
      follow[bn->conn[e] - 1] = {a};
    }
    for (auto& f : follow) { se::truth("every node belongs to an entity", !f.empty()); if (f.empty()) return; }
    se::truth("as many pictures as results", C.times.size() == outs.size() && S.times.size() == outs.size());
    if (C.times.size() != outs.size() || S.times.size() != outs.size()) return;
    for (size_t s = 0; s < outs.size(); ++s) {
      se::eq("time of the picture", C.times[(int)s + 1], S.times[(int)s + 1], 1e-12);
      auto* st = C.nodal((int)s, "contact_status");
      se::truth("contact status is there", st != nullptr);
      if (!st) return;
      for (int k = 0; k < 3; ++k) {
        auto* u = C.nodal((int)s, std::string("displacement_") + XYZ[k]);
        auto* w = S.nodal((int)s, std::string("displacement_") + XYZ[k]);
        se::truth("displacements are there", u && w);
        if (!u || !w) return;
        for (int i = 0; i < C.num_nodes; ++i) {
          double m = 0;
          for (int q : follow[i]) m += (*w)[at.at(q)] / follow[i].size();
          se::eq(se::nm((std::string("displacement ") + XYZ[k]).c_str(), (int)s, i), (*u)[i], m, 1e-9);
        }
      }
      int active = 0;
      for (int e = 0; e < bf->nelem; ++e) {
        // element number - the file's numbering starts at 1
        int want = outs[s] ? turn(outs[s], C.elem_map[e] - 1) : 0;
        active += want;
        for (int c = 0; c < 3; ++c) se::truth("contact status of a face", (*st)[bf->conn[3 * e + c] - 1] == want);
      }
      for (int e = 0; e < bn->nelem; ++e) {
        int a = bn->conn[e] - 1, want = outs[s] ? turn(outs[s], gnum(follow[a][0])) : 0;
        se::truth("contact status of a node", (*st)[a] == want);
      }
      auto& gv = C.vals[(int)s + 1];
      bool  told = false;
      for (auto& v : gv) if (v.second.size() == 1 && v.first[0] == (int)EX_GLOBAL) { told = true; se::truth("number of contacts", v.second[0] == active); }
      se::truth("number of contacts is there", told);
    }
  }
  int tri = 0;
  for (auto& t : seen_tri) { se::truth("each triangle once", t.second == 1); ++tri; }
  se::truth("all triangles of the skin", tri == 4 * (int)quads.size());
  for (auto& t : seen_node) se::truth("each node once", t.second == 1);
  se::truth("all nodes of the skin", seen_node.size() == skin.size());
  se::reach("picture");
}
// ---- the warning about the time step
static void
warning(int n)
{
  exosim::reset();
  Hex h;
  int small = se::choice("smallest element", 4), order = n > 1 ? se::choice("rank order", 2) : 0, deal = se::choice("distribution", n > 1 ? 3 : 1);
  double L[4], XX[4][24];
  for (int e = 0; e < 4; ++e)
    for (int a = 0; a < 8; ++a)
      for (int k = 0; k < 3; ++k)
        XX[e][3 * a + k] = 4.0 * e * (k == 0) + (e == small ? 0.5 : 1.0) * ((1.0 + 0.125 * e + 0.25 * k) * (fe::NS[a][k] + 1) / 2 + 0.0625 * ((a * 5 + k * 3 + e) % 4));
  for (int e = 0; e < 4; ++e) {
    double m = 1e9;
    for (int a = 0; a < 8; ++a)
      for (int b = 0; b < a; ++b) {
        double s = 0;
        for (int k = 0; k < 3; ++k) s += (XX[e][3 * a + k] - XX[e][3 * b + k]) * (XX[e][3 * a + k] - XX[e][3 * b + k]);
        if (s < m) m = s;
      }
    L[e] = std::sqrt(m);
  }
  static const int OWN[2][3][4] = {{{0, 1, 1, 0}, {1, 0, 1, 1}, {0, 0, 1, 1}}, {{2, 0, 1, 0}, {0, 1, 2, 2}, {1, 1, 2, 2}}};
  for (int r = 0; r < n; ++r) {
    Hex p;
    p.block(4); p.block(9);
    for (int e = 0; e < 4; ++e) {
      if (n > 1 && OWN[n - 2][deal][e] != r) continue;
      std::vector<int> c;
      for (int a = 0; a < 8; ++a) { c.push_back(p.node(XX[e][3 * a], XX[e][3 * a + 1], XX[e][3 * a + 2])); p.f.node_map.push_back(8 * e + a + 1); }
      p.elem(e < 2 ? 4 : 9, c);
      p.f.elem_map.push_back(e + 1);
    }
    std::vector<int> all;
    for (int i = 0; i < p.f.num_nodes; ++i) all.push_back(i);
    p.nset(1, "all", all);
    exosim::file(n > 1 ? "m.g." + std::to_string(n) + "." + std::to_string(r) : std::string("m.g")) = p.f;
  }
  int    what = se::choice("materials", 3), steps = 1 + se::choice("steps", 2);
  double rho[2] = {what == 1 ? 4.0 : 1.1, 0.9}, K[2] = {1.3, what == 1 ? 2.9 : 1.7};
  if (what == 0) K[0] = se::real("K_a", 0.25, 4, 1.3);
  if (what == 2) rho[1] = se::real("rho_b", 0.25, 4, 0.9);
  double t0 = se::real("t0", -2, 2, 0.5), T = se::real("duration", 0.05, 4, 0.75);
  Deck   d;
  d("genesis input file", "m.g")("exodus output file", "o.e")("initial time", t0)("final time", t0 + T).num("number of load steps", steps);
  for (int b = 0; b < 2; ++b) {
    d("material parameters", std::string(b ? "b" : "a") + (b ? " neohookean" : " elastic") + " density " + se::text(rho[b]) + " bulk_modulus " + se::text(K[b]) + " shear_modulus 0.5");
    d("element block", b ? "block_9 b" : "block_4 a");
  }
  for (auto x : XYZ) d("boundary condition", std::string("prescribed_velocity all ") + x + " 0.0");  // nothing moves
  d("output fields", "displacement");
  std::ostringstream said;
  std::vector<int>   rcs(n, -1);
  bool               ok = true;
  {
    Quiet           q;
    std::streambuf* old = std::cout.rdbuf(said.rdbuf());
    std::cout.clear();
    std::vector<NimbleApplication> apps(n);
    std::string      path = d.file();
    if (n == 1) rcs[0] = run(apps[0], path);
    else ok = mpisim::run(n, [&](int r) { rcs[r] = run(apps[r], path); }, order, 0);
    std::cout.rdbuf(old);
  }
  se::truth((std::string("the run ends ") + mpisim::trouble()).c_str(), ok);
  for (int r = 0; r < n; ++r) se::truth("the run ends normally", rcs[r] == 0);
  std::string text = said.str();
  bool        warned = text.find("exceeds the computed maximum stable time step") != std::string::npos;
  double      least = 0, dt = ((t0 + T) - t0) / steps;
  for (int e = 0; e < 4; ++e) {
    double c = L[e] / std::sqrt(K[e / 2] / rho[e / 2]);
    if (e == 0 || c < least) least = c;
  }
  if (dt > least) se::truth("a time step above the stable one is reported", warned);
  else se::truth("a time step below the stable one is not", !warned);
  for (auto w : {"maximum stable time step:", "User specified time step:"}) {
    size_t at = text.find(w);
    se::truth("the stable and the chosen time step are reported", at != std::string::npos);
    if (at == std::string::npos) continue;
    std::istringstream in(text.substr(at + std::string(w).size()));
    double             v;
    bool               got = bool(in >> v);
    se::truth("as a number", got);
    if (got) se::eq(w, v, *w == 'm' ? least : dt, 1e-4);
  }
  se::reach("step");
}
void
harness(const char* c)
{
  std::string n = c;
  if (n == "central") {
    static const int SF[][2] = {{1, 1}, {3, 1}, {3, 2}, {4, 3}, {2, 0}, {2, 5}, {5, 4}};
    int k = se::choice("steps_and_frequency", 7);
    central(SF[k][0], SF[k][1], k == 1 || k == 2 ? se::choice("contact", 2) : 0, se::choice("conditions", 2));
  }
  for (int sh = 0; sh < 5; ++sh)
    for (const char* w : {"fields", "momentum"})
      for (int steps = 1; steps <= 3; ++steps)
        for (int ns : {0, 1, 2, 4, 8, 24})
          for (const char* mm : {"", "m"})
            if (n == std::string(w) + std::to_string(sh) + "_" + std::to_string(steps) + "_" + std::to_string(ns) + mm) physics(sh, steps, ns, *mm, w);
  if (n == "ranks2") ranks(2, false, 1);
  if (n == "ranks3") ranks(3, false, 1);
  if (n == "ranks4") ranks(4, false, 1);
  if (n == "ranks2_2") ranks(2, false, 2);
  if (n == "ranks_contact2") ranks(2, true, 1);
  if (n == "step1") warning(1);
  if (n == "step2") warning(2);
  if (n == "step3") warning(3);
  if (n == "picture1") picture(1);
  if (n == "picture2") picture(2);
  if (n == "ranks_contact3") ranks(3, true, 1);
}
