#include "hx.h"
#include "mpisim.h"
#include "nimble_contact_entity.h"
#include "nimble_contact_interface.h"
#include "nimble_contact_manager.h"
#include "nimble_data_manager.h"
#include "nimble_genesis_mesh.h"
#include "nimble_vector_communicator.h"
#include <Kokkos_Core.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <sstream>
using namespace hx;
using namespace nimble;
typedef ContactEntity CE;
typedef ContactManager CM;
static bool is(const char* a, const char* b) { return !strcmp(a, b); }
typedef std::array<double, 3> V3;
static V3 operator-(const V3& a, const V3& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator+(const V3& a, const V3& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator*(double s, const V3& a) { return {s * a[0], s * a[1], s * a[2]}; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(const V3& a, const V3& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static void eqv(const char* what, const V3& a, const V3& b, double tol = 1e-8)
{
  for (int i = 0; i < 3; ++i) se::eq(se::nm(what, i), a[i], b[i], tol);
}
static const int fict0[4] = {0, 1, 2, 3};
static CE tri(const V3* p, double cl) { double c[9]; for (int i = 0; i < 9; ++i) c[i] = p[i / 3][i % 3]; return CE(CE::TRIANGLE, 33, 5, c, cl, 0, 1, fict0); }
static CE node(const V3& p, double cl = 0.7) { return CE(CE::NODE, 77, 3, p.data(), cl, 4); }
// generic triangles: acute, obtuse, needle, axis-parallel
static const double TB[4][9] = {{0.1, 0.2, -0.1, 1.2, 0.1, 0.3, 0.4, 1.3, 0.5},
                                {0.0, 0.1, 0.2, 2.0, 0.3, 0.1, -0.7, 0.4, 0.6},
                                {1.0, -1.0, 0.5, 1.1, 1.0, 0.4, 1.3, 1.2, 0.9},
                                {0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.5, 0.0}};
static void
sym_tri(V3* p, int t, double w)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) p[i][j] = TB[t][3 * i + j] + (w > 0 ? se::real(se::nm("tri", i, j), -w, w, 0.03 * (i - j)) : 0.0);
}
struct Proj
{
  bool   in, face;
  double gap, n[3], b[3];
  V3     c;
};
// the two projections answer for the point sum a_i p_i + h (u x v); the triangle is concrete, or moved by a symbolic translation and scaled
static void
projection(const char* which, int t, bool sim)
{
  V3     p[3];
  sym_tri(p, t, 0);
  double a2 = se::real("a2", -1, 2, 0.3), a3 = se::real("a3", -1, 2, 0.25), h = se::real("h", -1.5, 1.5, -0.2);
  double cl = se::real("cl", 0.05, 2, 1.0);
  double a1 = 1 - a2 - a3, s = 1;
  if (sim) {
    s = std::vector<double>{0.25, 1.0, 3.0, 1.0 / 8192, 8192.0}[se::choice("size", 5)];
    cl = cl * s;
    V3     o = {se::real("ox", -20, 20, 3), se::real("oy", -20, 20, -4), se::real("oz", -20, 20, 7)};
    if (s > 100 || s < 0.01) o = s * o;
    for (auto& x : p) x = s * x + o;
  }
  V3     u = p[1] - p[0], v = p[2] - p[0], n = (1 / s) * cross(u, v);
  double n2 = dot(n, n);
  V3     q = a1 * p[0] + a2 * p[1] + a3 * p[2] + h * n;
  CE     T = tri(p, cl), N = node(q);
  double gap = 123, nn[3] = {9, 9, 9}, b[3] = {9, 9, 9};
  // where the projection falls: in the closed triangle, or more than 1e-7 beyond one of its limits
  const double d = 1e-7, av[3] = {a1, a2, a3};
  int          where = se::choice("projection falls", 7);
  bool         over = where == 0;
  if (over) for (double a : av) { se::assume_le(0, a); se::assume_le(a, 1); }
  else if (where < 4) se::assume_le(av[where - 1], -d);
  else se::assume_le(1 + d, av[where - 4]);
  double len = std::sqrt(n2);
  if (is(which, "full")) {
    bool in = !over;
    CM::Projection(N, T, in, gap, nn, b);
    if (!over) { se::truth("not in contact when the projection is outside the face", !in); se::reach("outside"); return; }
    int side = se::choice("side", 3);
    if (side == 0) se::assume_le(d, h);
    else { se::assume_le(h, -d); if (side == 1) se::assume_le(d, (cl + h * len) / s); else se::assume_le((cl + h * len) / s, -d); }
    bool close = side == 1;
    se::truth("in contact exactly when behind the face by less than its characteristic length", in == close);
    if (in) {
      se::reach("in contact");
      se::eq("bary 1", b[0], a1); se::eq("bary 2", b[1], a2); se::eq("bary 3", b[2], a3);
      se::eq("gap", gap / s, h * len / s);
      for (int i = 0; i < 3; ++i) se::eq(se::nm("unit outward normal", i), nn[i] * len / s, n[i] / s);
    }
  } else {
    CM::PROJECTION_TYPE pt = over ? CM::NODE_OR_EDGE : CM::FACE;
    CE::vertex          c;
    CM::SimpleClosestPointProjectionSingle(N, T, &pt, &c, gap, nn);
    if (!over) { se::truth("outside the face", pt == CM::UNKNOWN); se::reach("outside"); return; }
    se::truth("on the face", pt == CM::FACE);
    se::reach("face");
    se::eq("gap", gap / s, h * len / s);
    V3 r = q - h * n;
    for (int i = 0; i < 3; ++i) { se::eq(se::nm("unit outward normal", i), nn[i] * len / s, n[i] / s); se::eq(se::nm("closest point", i), c[i] / s, r[i] / s); }
  }
}
// the closest point of the triangle: it lies in the triangle and no vertex direction decreases the distance
static void
closest(int tri_no)
{
  V3 p[3];
  sym_tri(p, tri_no, 0);
  double a2 = se::real("a2", -2, 3, 0.3), a3 = se::real("a3", -2, 3, 0.25), h = se::real("h", -1.5, 1.5, -0.2);
  V3     q = (1 - a2 - a3) * p[0] + a2 * p[1] + a3 * p[2] + h * cross(p[1] - p[0], p[2] - p[0]);
  CE T = tri(p, 1), N = node(q);
  CM::PROJECTION_TYPE pt = CM::UNKNOWN;
  CE::vertex          cv;
  int                 via = tri_no == 3 ? se::choice("entry point", 2) : 0;
  char                dummy[64];
  CM                  m(std::make_shared<ContactInterface>(), *(DataManager*)dummy);
  if (via == 0) m.ClosestPointProjectionSingle(N, T, &cv, &pt, 1e-16);
  else {
    CE                  Ns[2] = {node(p[1]), N}, Ts[2] = {T, T};
    CE::vertex          cs[2];
    CM::PROJECTION_TYPE ps[2];
    m.ClosestPointProjection(Ns, Ts, cs, ps, 2);
    cv = cs[1];
    pt = ps[1];
    eqv("a vertex projects onto itself", V3{cs[0][0], cs[0][1], cs[0][2]}, p[1], 1e-12);
  }
  V3     c = {cv[0], cv[1], cv[2]};
  V3     u = p[1] - p[0], v = p[2] - p[0], n = cross(u, v), w = c - p[0];
  double n2 = dot(n, n), b3 = dot(cross(u, w), n) / n2, b2 = dot(cross(w, v), n) / n2;
  se::eq("in the plane", dot(w, n), 0, 1e-8);
  se::le("inside 1", -b2, 0, 1e-8);
  se::le("inside 2", -b3, 0, 1e-8);
  se::le("inside 3", b2 + b3, 1, 1e-8);
  for (int i = 0; i < 3; ++i) se::le(se::nm("no nearer point towards vertex", i), dot(q - c, p[i] - c), 0, 1e-7);
  se::truth("type is face or edge", pt == CM::FACE || pt == CM::NODE_OR_EDGE);
  if (pt == CM::FACE) { se::reach("face"); for (int i = 0; i < 2; ++i) se::eq(se::nm("face: perpendicular", i), dot(q - c, i ? v : u), 0, 1e-7); }
  else se::reach("edge or vertex");
}
// ---- enforcement ------------------------------------------------------------------------------------------------
typedef nimble_kokkos::DeviceScalarNodeView SV;
static void
quad_face(V3* q, double w)
{
  static const double B[4][3] = {{0.1, 0.0, 0.2}, {1.2, 0.1, -0.1}, {1.3, 1.1, 0.3}, {-0.1, 0.9, 0.1}};
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 3; ++j) q[i][j] = B[i][j] + se::real(se::nm("q", i, j), -w, w, 0.02 * (j - i));
}
// Resultant, moment and distribution of the penalty force.  Node numbering of the face inside the force vector is arbitrary.
static void
penalty(bool legacy, double u, double ps)
{
  V3         q[4];
  quad_face(q, 0.1);
  for (auto& x : q) x = u * x;  // lengths in units of u, stiffness in units of ps
  const int  id[5] = {3, 0, 5, 2, 1};  // force-vector slots of the four face nodes and of the contact node
  int        e     = se::choice("triangle of the face", 4);
  V3         m     = 0.25 * (q[0] + q[1] + q[2] + q[3]);
  V3         p[3]  = {q[e], q[(e + 1) % 4], m};
  double     pen = ps * se::real("penalty", 0.1, 1000, 10), a2 = se::real("a2", 0, 1, 0.3), a3 = se::real("a3", 0, 1, 0.4), a1 = 1 - a2 - a3;
  se::assume_le(0, a1);
  double gap = u * se::real("gap", -1, 0, -0.1), fu = ps * u;
  V3     n = (1 / (u * u)) * cross(p[1] - p[0], p[2] - p[0]);
  double s = 1.0 / std::sqrt(dot(n, n));
  V3     nn = s * n, x = a1 * p[0] + a2 * p[1] + a3 * p[2] + gap * nn;
  int    fict[4] = {id[0], id[1], id[2], id[3]};
  double c[9];
  for (int i = 0; i < 9; ++i) c[i] = p[i / 3][i % 3];
  CE     F(CE::TRIANGLE, 33, 5, c, 1.0, id[e], id[(e + 1) % 4], fict), N(CE::NODE, 77, 3, x.data(), 0.7, id[4]);
  F.set_contact_status(false);
  double base[18], b[3] = {a1, a2, a3};
  SV     f("f", 18);
  for (int i = 0; i < 18; ++i) f(i) = base[i] = fu * se::real(se::nm("f", i), -5, 5, 0.3 * i - 2);
  int faces = 1;
  if (!legacy) {
    PenaltyContactEnforcement en;
    en.penalty = pen;
    en.EnforceContact<SV>(N, F, gap, nn.data(), b, f);
  } else {
    KokkosPenaltyContactEnforcement en;
    faces                    = 1 + se::choice("faces touched by the node", 3);
    en.penalty               = pen;
    en.contact_manager_force = f;
    V3 pr = x - gap * nn;
    en.EnforceContact(N, F, faces, gap, nn.data(), pr.data());
    if (!(gap < 0)) { for (int i = 0; i < 18; ++i) se::eq(se::nm("no force without penetration", i), f(i), base[i]); return; }
  }
  se::reach("force");
  auto df = [&](int slot) { return (1 / fu) * V3{f(3 * slot) - base[3 * slot], f(3 * slot + 1) - base[3 * slot + 1], f(3 * slot + 2) - base[3 * slot + 2]}; };
  V3   nf = df(id[4]), want = (1 / fu) * ((-pen * gap / faces) * nn);
  eqv("force on the node is -penalty gap normal", nf, want, 1e-6);
  V3 sum = nf, mom = cross(x, nf);
  for (int i = 0; i < 4; ++i) {
    V3     g = df(id[i]);
    double wgt = a3 / 4 + (i == e ? a1 : i == (e + 1) % 4 ? a2 : 0.0);
    if (!legacy) eqv(se::nm("share of face node", i), g, (-wgt) * want, 1e-6);
    sum = sum + g;
    mom = mom + cross(q[i], g);
  }
  eqv("resultant", sum, V3{0, 0, 0}, 1e-6);
  if (!legacy) eqv("moment", (1 / u) * mom, V3{0, 0, 0}, 1e-6);
  V3 rest = df(4);
  eqv("no force elsewhere", rest, V3{0, 0, 0}, 1e-12);
}
// the contact manager: displacements in, forces out
struct Search : ContactInterface
{
  CM* m = nullptr;
  int hits = 0;
  void DoSearchAndEnforcement(nimble_kokkos::DeviceContactEntityArrayView n, nimble_kokkos::DeviceContactEntityArrayView f, KokkosPenaltyContactEnforcement) override
  {
    for (size_t i = 0; i < n.extent(0); ++i)
      for (size_t j = 0; j < f.extent(0); ++j) {
        bool   in;
        double gap, nn[3], b[3];
        CM::Projection(n(i), f(j), in, gap, nn, b);
        if (!in) continue;
        ++hits;
        n(i).set_contact_status(true);
        f(j).set_contact_status(true);
        SV fv = m->force_d_;
        m->EnforceNodeFaceInteraction(n(i), f(j), gap, nn, b, fv);
      }
  }
};
static const int HF[6][4] = {{0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {0, 4, 7, 3}, {0, 3, 2, 1}, {4, 5, 6, 7}};
struct Mesh
{
  std::vector<int>                gid, elem_gid, bids;
  std::vector<double>             x, y, z;
  std::map<int, std::string>      names;
  std::map<int, std::vector<int>> egid, conn;
  std::map<int, int>              npe;
  void add_block(int b) { bids.push_back(b); names[b] = "block_" + std::to_string(b); npe[b] = 8; egid[b]; conn[b]; }
  void add(int b, int g, const std::vector<int>& c) { egid[b].push_back(g); elem_gid.push_back(g); conn[b].insert(conn[b].end(), c.begin(), c.end()); }
  GenesisMesh make() const { GenesisMesh m; m.Initialize("m", gid, x, y, z, elem_gid, bids, names, egid, npe, conn); return m; }
};
static double gv(int k) { return 0.17 * std::sin(12.9898 * k + 1.3) + 0.11 * std::cos(4.1414 * k); }
// structured nodes (nx+1)(ny+1)(nz+1) with generic coordinates
static void
grid(Mesh& m, int nx, int ny, int nz, double w, double ox = 0, double gap = 0)
{
  for (int k = 0; k <= nz; ++k)
    for (int j = 0; j <= ny; ++j)
      for (int i = 0; i <= nx; ++i) {
        int    id = (int)m.gid.size();
        double b[3] = {ox + i * 1.0 + gap, j * 1.37, k * 1.91};
        for (int d = 0; d < 3; ++d) b[d] += gv(7 * id + 31 * d) + (w > 0 ? se::real(se::nm("x", id, d), -w, w, 0.5 * w * std::sin(id + 2.0 * d)) : 0.0);
        m.gid.push_back(2 * id + 3);  // node global ids are neither contiguous nor equal to the local ids
        m.x.push_back(b[0]); m.y.push_back(b[1]); m.z.push_back(b[2]);
      }
}
static std::vector<int>
hexn(int first, int nx, int ny, int i, int j, int k)
{
  auto n = [&](int a, int b, int c) { return first + (i + a) + (nx + 1) * ((j + b) + (ny + 1) * (k + c)); };
  return {n(0, 0, 0), n(1, 0, 0), n(1, 1, 0), n(0, 1, 0), n(0, 0, 1), n(1, 0, 1), n(1, 1, 1), n(0, 1, 1)};
}
// the 24 orientation-preserving renumberings of a hexahedron
static std::vector<int>
turn(const std::vector<int>& c, int t)
{
  static const int rz[8] = {1, 2, 3, 0, 5, 6, 7, 4}, rx[8] = {3, 2, 6, 7, 0, 1, 5, 4}, ry[8] = {4, 0, 3, 7, 5, 1, 2, 6};
  std::vector<int> r = c;
  auto ap = [&](const int* p) { std::vector<int> s(8); for (int i = 0; i < 8; ++i) s[i] = r[p[i]]; r = s; };
  for (int i = 0; i < t % 4; ++i) ap(rz);
  int g = t / 4;
  if (g < 4) for (int i = 0; i < g; ++i) ap(rx);
  else { ap(ry); if (g == 5) { ap(ry); ap(ry); } }
  return r;
}
static void
manager(int variant)
{
  // hexahedron 0 (primary) below, hexahedron 1 (secondary) above it, pushed into it by symbolic displacements
  Mesh m;
  m.add_block(1); m.add_block(2);
  static const double P[16][3] = {{0, 0, 0}, {1.2, .1, 0}, {1.1, 1.3, .1}, {-.1, 1.2, 0}, {0, .1, 1.1}, {1.3, 0, 1}, {1.2, 1.2, 1.2}, {.1, 1.1, 1.05},
                                  {.3, .25, 1.15}, {.6, .3, 1.2}, {.7, .5, 1.25}, {.35, .6, 1.2}, {.3, .2, 2}, {.9, .3, 2.1}, {.8, .8, 2}, {.3, .7, 2.2}};
  for (int i = 0; i < 16; ++i) { m.gid.push_back(i); m.x.push_back(P[i][0]); m.y.push_back(P[i][1]); m.z.push_back(P[i][2]); }
  m.add(1, 0, {0, 1, 2, 3, 4, 5, 6, 7});
  m.add(2, 1, {8, 9, 10, 11, 12, 13, 14, 15});
  GenesisMesh g = m.make();
  char        dummy[64];
  auto        se_ = std::make_shared<Search>();
  CM          cm(se_, *(DataManager*)dummy);
  se_->m = &cm;
  double pen = se::real("penalty", 1, 100, 10);
  bool   threw = false;
  cm.SetPenaltyParameter(0.0);
  try { cm.ComputeContactForce(0, false); } catch (const std::exception&) { threw = true; }
  se::truth("a penalty that is not positive is refused", threw);
  cm.SetPenaltyParameter(pen);
  se::eq("penalty stored", cm.GetPenaltyForceParam(), pen, 0);
  VectorCommunicator vc(3, 16, comm_type());
  vc.Initialize(m.gid);
  se::truth("contact is off before entities exist", !cm.ContactEnabled());
  cm.CreateContactEntities(g, vc, {1}, {2});
  se::truth("contact is on", cm.ContactEnabled());
  nimble_kokkos::DeviceVectorNodeView disp("u", 16), force("f", 16);
  double ux = variant == 0 ? se::real("ux", -0.012, 0.012, 0.005) : 0.013, uz = variant == 0 ? se::real("uz", -0.225, -0.215, -0.22) : -0.23, top = variant == 1 ? se::real("top", 0.0, 0.015, 0.01) : 0.011;
  V3     X[16];
  for (int i = 0; i < 16; ++i) {
    V3 d = {i >= 8 ? ux : 0.0, 0.003 * i, i >= 8 ? uz : i >= 4 ? top * (1 + 0.1 * i) : 0.0};
    for (int j = 0; j < 3; ++j) { disp(i, j) = d[j]; force(i, j) = 0; X[i][j] = P[i][j] + d[j]; }
  }
  // stale force from an earlier step must not survive
  for (size_t i = 0; i < cm.force_d_.extent(0); ++i) cm.force_d_(i) = 99;
  int again = se::choice("second evaluation", 2);
  for (int rep = 0; rep <= again; ++rep) {
    cm.ApplyDisplacements(disp);
    cm.ComputeContactForce(0, false);
  }
  cm.GetForces(force);
  // reference: every secondary node against every outward triangle of the primary block
  V3 ref[16];
  for (auto& r : ref) r = {0, 0, 0};
  int hits = 0;
  for (int i = 8; i < 16; ++i)
    for (int f = 0; f < 6; ++f)
      for (int e = 0; e < 4; ++e) {
        V3     p[3], c4 = {0, 0, 0};
        for (int k = 0; k < 4; ++k) c4 = c4 + 0.25 * X[HF[f][k]];
        p[0] = X[HF[f][e]]; p[1] = X[HF[f][(e + 1) % 4]]; p[2] = c4;
        double cl = 0;
        for (int k = 0; k < 4; ++k) {
          V3 ed; for (int d = 0; d < 3; ++d) ed[d] = P[HF[f][k]][d] - P[HF[f][(k + 1) % 4]][d];
          cl = std::max(cl, std::sqrt(dot(ed, ed)));
        }
        V3     u = p[1] - p[0], v = p[2] - p[0], w = X[i] - p[0], n = cross(u, v);
        double n2 = dot(n, n), b3 = dot(cross(u, w), n) / n2, b2 = dot(cross(w, v), n) / n2, b1 = 1 - b2 - b3, t = 1e-8;
        if (!(b1 > -t && b2 > -t && b3 > -t && b1 < 1 + t && b2 < 1 + t && b3 < 1 + t)) continue;
        double gap = dot(w, n) / std::sqrt(n2);
        if (!(gap < 0 && gap > -cl)) continue;
        ++hits;
        V3 F = (-pen * gap / std::sqrt(n2)) * n;
        ref[i] = ref[i] + F;
        ref[HF[f][e]] = ref[HF[f][e]] - b1 * F;
        ref[HF[f][(e + 1) % 4]] = ref[HF[f][(e + 1) % 4]] - b2 * F;
        for (int k = 0; k < 4; ++k) ref[HF[f][k]] = ref[HF[f][k]] - (b3 / 4) * F;
      }
  if (hits) se::reach("contact"); else se::reach("no contact");
  se::truth("interactions found", se_->hits == hits * (1 + again));
  for (int i = 0; i < 16; ++i)
    for (int j = 0; j < 3; ++j) se::eq(se::nm("contact force", i, j), force(i, j), ref[i][j], 1e-5);
  Kokkos::deep_copy(cm.contact_nodes_h_, cm.contact_nodes_d_);
  Kokkos::deep_copy(cm.contact_faces_h_, cm.contact_faces_d_);
  int an = 0, af = 0;
  for (size_t i = 0; i < cm.numContactNodes(); ++i) an += cm.getContactNode(i).contact_status();
  for (size_t i = 0; i < cm.numContactFaces(); ++i) af += cm.getContactFace(i).contact_status();
  se::truth("active counts", (int)cm.numActiveContactNodes() == an && (int)cm.numActiveContactFaces() == af && (hits > 0) == (an > 0) && (hits > 0) == (af > 0));
  for (int k = 0; k < 2; ++k) {
    if (k == 1) cm.ResetContactStatus();
    if (k == 1) { Kokkos::deep_copy(cm.contact_nodes_h_, cm.contact_nodes_d_); Kokkos::deep_copy(cm.contact_faces_h_, cm.contact_faces_d_);
      se::truth("status reset", cm.numActiveContactNodes() == 0 && cm.numActiveContactFaces() == 0); }
  }
  cm.ZeroContactForce();
  cm.GetForces(force);
  for (int i = 0; i < 16; ++i)
    for (int j = 0; j < 3; ++j) se::eq(se::nm("force zeroed", i, j), force(i, j), 0, 0);
  for (size_t i = 0; i < cm.contact_faces_d_.extent(0); ++i) {
    CE& f = cm.contact_faces_d_(i);
    se::eq("entity force zeroed", f.force_1_x_ * f.force_1_x_ + f.force_1_y_ * f.force_1_y_ + f.force_1_z_ * f.force_1_z_ + f.force_2_x_ * f.force_2_x_ + f.force_2_y_ * f.force_2_y_ + f.force_2_z_ * f.force_2_z_ + f.force_3_x_ * f.force_3_x_ + f.force_3_y_ * f.force_3_y_ + f.force_3_z_ * f.force_3_z_, 0, 0);
  }
}
// ---- serialization ----------------------------------------------------------------------------------------------
static void
same(const CE& a, const CE& b)
{
  const double* x[] = {&a.coord_1_x_, &a.coord_1_y_, &a.coord_1_z_, &a.coord_2_x_, &a.coord_2_y_, &a.coord_2_z_, &a.coord_3_x_, &a.coord_3_y_, &a.coord_3_z_, &a.char_len_,
                       &a.bounding_box_x_min_, &a.bounding_box_x_max_, &a.bounding_box_y_min_, &a.bounding_box_y_max_, &a.bounding_box_z_min_, &a.bounding_box_z_max_};
  const double* y[] = {&b.coord_1_x_, &b.coord_1_y_, &b.coord_1_z_, &b.coord_2_x_, &b.coord_2_y_, &b.coord_2_z_, &b.coord_3_x_, &b.coord_3_y_, &b.coord_3_z_, &b.char_len_,
                       &b.bounding_box_x_min_, &b.bounding_box_x_max_, &b.bounding_box_y_min_, &b.bounding_box_y_max_, &b.bounding_box_z_min_, &b.bounding_box_z_max_};
  for (int i = 0; i < 16; ++i) se::eq(se::nm("geometry", i), *x[i], *y[i], 0);
  se::truth("type and node count", a.entity_type_ == b.entity_type_ && a.num_nodes_ == b.num_nodes_);
}
static void
serial()
{
  int             n = se::choice("number of entities", 4);
  std::vector<CE> in, out(n + 1);
  static const double B[9] = {0, 0.1, 0.2, 1, 0.3, -0.2, 0.4, 1.2, 0.7};
  for (int i = 0; i < n; ++i) {
    double c[9];
    for (int j = 0; j < 9; ++j) c[j] = 10 * i + B[j] + se::real(se::nm("c", i, j), -0.01, 0.01, 0.001 * j);
    int fict[4] = {1000 + i, 2000 + i, 3000 - i, 4000 * (i + 1)};
    in.push_back(CE(CE::TRIANGLE, 1 << (20 + i), 5 + i, c, se::real(se::nm("cl", i), 0.1, 2, 0.5 + i), 70001 + i, 80002 + 3 * i, fict));
    in.back().force_1_x_ = 5;
  }
  std::vector<char> buf(3, 'x');
  SerializeContactFaces(n, in.data(), buf);
  std::vector<char> wire(buf);  // what travels is the buffer alone
  UnserializeContactFaces(n, out.data(), wire);
  for (int i = 0; i < n; ++i) {
    same(in[i], out[i]);
    for (int j = 0; j < 3; ++j) se::eq(se::nm("centroid", j), out[i].centroid()[j], in[i].centroid()[j], 1e-12);
    se::truth("ids", in[i].contact_entity_global_id_ == out[i].contact_entity_global_id_ && in[i].node_id_for_node_1_ == out[i].node_id_for_node_1_ &&
                         in[i].node_id_for_node_2_ == out[i].node_id_for_node_2_ && in[i].node_id_1_for_fictitious_node_ == out[i].node_id_1_for_fictitious_node_ &&
                         in[i].node_id_2_for_fictitious_node_ == out[i].node_id_2_for_fictitious_node_ && in[i].node_id_3_for_fictitious_node_ == out[i].node_id_3_for_fictitious_node_ &&
                         in[i].node_id_4_for_fictitious_node_ == out[i].node_id_4_for_fictitious_node_);
    double f = out[i].force_1_x_ * out[i].force_1_x_ + out[i].force_2_y_ * out[i].force_2_y_ + out[i].force_3_z_ * out[i].force_3_z_;
    se::eq("no force", f, 0, 0);
    CE ex;
    in[i].ExportGeometryInto(ex);
    same(in[i], ex);
  }
  se::truth("nothing written past the last entity", out[n].entity_type_ == CE::NONE && out[n].contact_entity_global_id_ == -1);
  if (n) se::reach("entities"); else se::reach("none");
}
// ---- entity geometry --------------------------------------------------------------------------------------------
static void
box_of(const CE& e, const V3* p, int n, double cl, int only, double u)
{
  const double lo[3] = {e.get_x_min(), e.get_y_min(), e.get_z_min()}, hi[3] = {e.get_x_max(), e.get_y_max(), e.get_z_max()};
  for (int j = 0; j < 3; ++j) {
    if (only >= 0 && j != only) continue;
    double a = p[0][j], b = p[0][j], s = 0;
    for (int i = 0; i < n; ++i) {
      se::le(se::nm("box contains the entity, low", j), (lo[j] + 0.15 * cl) / u, p[i][j] / u, 1e-9);
      se::le(se::nm("box contains the entity, high", j), p[i][j] / u, (hi[j] - 0.15 * cl) / u, 1e-9);
      a = std::min(a, p[i][j]); b = std::max(b, p[i][j]);
      s += p[i][j];
    }
    se::eq(se::nm("box low", j), lo[j] / u, (a - 0.15 * cl) / u, 1e-9);
    se::eq(se::nm("box high", j), hi[j] / u, (b + 0.15 * cl) / u, 1e-9);
    se::eq(se::nm("centroid", j), e.centroid()[j] / u, s / n / u, 1e-9);
  }
}
static void
boxes()
{
  int    ax = se::choice("axis", 3), kind = se::choice("kind", 3);
  double u = std::vector<double>{1.0, std::ldexp(1.0, -20), std::ldexp(1.0, 20)}[se::choice("units", 3)], cl = u * se::real("cl", 0.05, 3, 1.0);
  V3     q[6];
  for (int i = 0; i < 6; ++i)
    for (int j = 0; j < 3; ++j) q[i][j] = u * (j == ax ? se::real(se::nm("q", i), -5, 5, gv(3 * i + j) * 5) : 0.3 * i * i - j);
  if (kind == 0) box_of(node(q[0], cl), q, 1, cl, -1, u);
  else if (kind == 1) box_of(tri(q, cl), q, 3, cl, ax, u);
  else {
    // moved to new coordinates through the node map: nodes 4,2 and the mean of 5,3,2,4
    const int  fi[4] = {5, 3, 2, 4};
    double     c0[9] = {0, 0, 0, 1, 0, 0, 0, 1, 0};
    CE         t(CE::TRIANGLE, 1, 1, c0, cl, 4, 2, fi), n(CE::NODE, 2, 2, c0, cl, 3);
    SV         v("c", 18);
    for (int i = 0; i < 18; ++i) v(i) = q[i / 3][i % 3];
    t.SetCoordinates(v);
    n.SetCoordinates(v);
    V3 p[3] = {q[4], q[2], 0.25 * (q[5] + q[3] + q[2] + q[4])};
    V3 r[3] = {{t.coord_1_x_, t.coord_1_y_, t.coord_1_z_}, {t.coord_2_x_, t.coord_2_y_, t.coord_2_z_}, {t.coord_3_x_, t.coord_3_y_, t.coord_3_z_}};
    for (int i = 0; i < 3; ++i) eqv(se::nm("corner", i), (1 / u) * r[i], (1 / u) * p[i], 1e-9);
    box_of(t, p, 3, cl, ax, u);
    eqv("node position", V3{n.coord_1_x_, n.coord_1_y_, n.coord_1_z_}, q[3], 0);
    box_of(n, q + 3, 1, cl, -1, u);
  }
  se::reach("box");
}
static void
manager_box()
{
  char   dummy[64];
  CM     cm(std::make_shared<ContactInterface>(), *(DataManager*)dummy);
  int    n = 1 + se::choice("nodes", 3), ax = se::choice("axis", 3);
  Kokkos::resize(cm.coord_d_, 3 * n);
  double u = std::vector<double>{1.0, std::ldexp(1.0, -20), std::ldexp(1.0, 16)}[se::choice("units", 3)];
  double lo[3] = {1e9, 1e9, 1e9}, hi[3] = {-1e9, -1e9, -1e9}, r[6];
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < 3; ++j) {
      double v = u * (j == ax ? se::real(se::nm("c", i), -50, 50, gv(5 * i + j) * 20) : -7 + 1.7 * i * (j + 1));
      cm.coord_d_(3 * i + j) = v;
      lo[j] = std::min(lo[j], v);
      hi[j] = std::max(hi[j], v);
    }
  cm.BoundingBox(r[0], r[1], r[2], r[3], r[4], r[5]);
  for (int j = 0; j < 3; ++j) { se::eq(se::nm("low", j), r[2 * j], lo[j], 0); se::eq(se::nm("high", j), r[2 * j + 1], hi[j], 0); }
  double L = std::max(hi[0] - lo[0], std::max(hi[1] - lo[1], hi[2] - lo[2]));
  se::eq("longest edge", cm.BoundingBoxAverageCharacteristicLengthOverAllRanks(), L, 1e-12);
  se::reach("box");
}
// ---- skin -------------------------------------------------------------------------------------------------------
typedef std::array<int, 4> Key;
struct Skin
{
  std::map<Key, std::array<int, 6>> faces;  // sorted global nodes -> four local nodes in outward order, element global id, face ordinal
};
static Skin
skin_of(const Mesh& m, const std::vector<int>& blocks)
{
  std::map<Key, int> count;
  Skin               s;
  for (int b : blocks)
    for (size_t e = 0; e < m.egid.at(b).size(); ++e)
      for (int f = 0; f < 6; ++f) {
        Key k; std::array<int, 6> v;
        for (int i = 0; i < 4; ++i) { v[i] = m.conn.at(b)[8 * e + HF[f][i]]; k[i] = m.gid[v[i]]; }
        std::sort(k.begin(), k.end());
        v[4] = m.egid.at(b)[e]; v[5] = f;
        if (count[k]++ == 0) s.faces[k] = v; else s.faces.erase(k);
      }
  return s;
}
static V3 at(const Mesh& m, int n) { return {m.x[n], m.y[n], m.z[n]}; }
static double
edge2(const Mesh& m, const std::array<int, 6>& f, int e)
{
  V3 d = at(m, f[e]) - at(m, f[(e + 1) % 4]);
  return dot(d, d);
}
// what one rank's entities must be, given the skin faces of that rank which are not shared with another rank
static void
check_entities(const CM& cm, const Mesh& m, const Skin& prim, const Skin& sec, const std::set<int>& ghosts, int max_gid, std::multiset<int>& ids)
{
  se::truth("four triangles per skin face", cm.numContactFaces() == 4 * prim.faces.size());
  std::map<int, int> by_id;
  for (size_t i = 0; i < cm.numContactFaces(); ++i) by_id[cm.getContactFace(i).contact_entity_global_id_] = (int)i;
  double vol_skin = 0;
  for (auto& kv : prim.faces) {
    auto& f = kv.second;
    for (int e = 0; e < 4; ++e) {
      int id = ((f[4] + 1 + max_gid) << 5) | (f[5] << 2) | e;
      ids.insert(id);
      auto it = by_id.find(id);
      se::truth("face entity id encodes element, face and triangle", it != by_id.end());
      if (it == by_id.end()) return;
      const CE& t = cm.getContactFace(it->second);
      se::truth("triangle entity", t.entity_type_ == CE::TRIANGLE && t.num_nodes_ == 3 && t.local_id() == it->second);
      V3 c[3] = {{t.coord_1_x_, t.coord_1_y_, t.coord_1_z_}, {t.coord_2_x_, t.coord_2_y_, t.coord_2_z_}, {t.coord_3_x_, t.coord_3_y_, t.coord_3_z_}};
      V3 mid = 0.25 * (at(m, f[0]) + at(m, f[1]) + at(m, f[2]) + at(m, f[3]));
      eqv("first corner", c[0], at(m, f[e]), 0);
      eqv("second corner", c[1], at(m, f[(e + 1) % 4]), 0);
      eqv("third corner is the face centre", c[2], mid, 1e-9);
      se::truth("node map", cm.node_ids_[t.node_id_for_node_1_] == f[e] && cm.node_ids_[t.node_id_for_node_2_] == f[(e + 1) % 4]);
      std::set<int> fic = {cm.node_ids_[t.node_id_1_for_fictitious_node_], cm.node_ids_[t.node_id_2_for_fictitious_node_], cm.node_ids_[t.node_id_3_for_fictitious_node_], cm.node_ids_[t.node_id_4_for_fictitious_node_]};
      se::truth("fictitious node map", fic == std::set<int>(f.begin(), f.begin() + 4));
      double len = 0;
      for (int k = 0; k < 4; ++k) len = std::max(len, std::sqrt(edge2(m, f, k)));
      se::eq("characteristic length is the longest edge", t.char_len_, len, 1e-9);
      vol_skin += dot(c[0], cross(c[1], c[2])) / 6;
    }
  }
  // contact nodes
  std::map<int, std::vector<std::array<int, 6>>> want;
  for (auto& kv : sec.faces)
    for (int i = 0; i < 4; ++i)
      if (!ghosts.count(kv.second[i])) want[kv.second[i]].push_back(kv.second);
  se::truth("one contact node per node of the secondary skin", cm.numContactNodes() == want.size());
  std::set<int> seen;
  for (size_t i = 0; i < cm.numContactNodes(); ++i) {
    const CE& n  = cm.getContactNode(i);
    int       lo = cm.node_ids_[n.node_id_for_node_1_];
    ids.insert(n.contact_entity_global_id_);
    se::truth("contact node", n.entity_type_ == CE::NODE && n.num_nodes_ == 1 && n.local_id() == (int)i && want.count(lo) && seen.insert(lo).second);
    se::truth("contact node id", n.contact_entity_global_id_ == m.gid[lo] + 1);
    eqv("contact node position", V3{n.coord_1_x_, n.coord_1_y_, n.coord_1_z_}, at(m, lo), 0);
    if (!want.count(lo)) return;
    double len = 0;
    for (auto& f : want[lo])
      for (int k = 0; k < 4; ++k) len = std::max(len, std::sqrt(edge2(m, f, k)));
    se::eq("node length is the longest edge of its faces", n.char_len_, len, 1e-9);
  }
  std::set<int> all;
  for (auto* s : {&prim, &sec}) for (auto& kv : s->faces) all.insert(kv.second.begin(), kv.second.begin() + 4);
  se::truth("contact submodel holds exactly the skin nodes", std::set<int>(cm.node_ids_.begin(), cm.node_ids_.end()) == all && cm.node_ids_.size() == all.size());
}
static void
skin(int topo)
{
  Mesh   m;
  double w = 0.0005;
  m.add_block(10); m.add_block(20); m.add_block(30);
  std::vector<int> prim = {10}, sec = {20};
  int    t1 = topo == 2 ? 5 * se::choice("numbering of an element", 5) : se::choice("numbering of an element", 24), t2 = (5 * t1 + 7) % 24;
  if (topo == 0) {            // two separate elements
    grid(m, 1, 1, 1, w); m.add(10, 7, turn(hexn(0, 1, 1, 0, 0, 0), t1));
    grid(m, 1, 1, 1, w, 5); m.add(20, 3, turn(hexn(8, 1, 1, 0, 0, 0), t2));
  } else if (topo == 1) {     // 2x1x1 in one block and 1x2x1 in the other
    grid(m, 2, 1, 1, w); m.add(10, 7, turn(hexn(0, 2, 1, 0, 0, 0), t1)); m.add(10, 11, turn(hexn(0, 2, 1, 1, 0, 0), t2));
    int o = (int)m.gid.size();
    grid(m, 1, 2, 1, w, 5); m.add(20, 3, turn(hexn(o, 1, 2, 0, 0, 0), t2)); m.add(20, 0, turn(hexn(o, 1, 2, 0, 1, 0), t1));
  } else {                    // L-shaped primary over two blocks, secondary glued to it
    grid(m, 2, 2, 1, w);
    m.add(10, 7, turn(hexn(0, 2, 2, 0, 0, 0), t1)); m.add(30, 1, turn(hexn(0, 2, 2, 1, 0, 0), t2)); m.add(30, 2, hexn(0, 2, 2, 0, 1, 0));
    m.add(20, 3, hexn(0, 2, 2, 1, 1, 0));
    prim = se::choice("block order", 2) ? std::vector<int>{30, 10} : std::vector<int>{10, 30};
  }
  GenesisMesh g = m.make();
  char        dummy[64];
  CM          cm(std::make_shared<ContactInterface>(), *(DataManager*)dummy);
  VectorCommunicator vc(3, m.gid.size(), comm_type());
  vc.Initialize(m.gid);
  cm.CreateContactEntities(g, vc, prim, sec);
  std::multiset<int> ids;
  int  mx = *std::max_element(m.gid.begin(), m.gid.end());
  Skin sp = skin_of(m, prim);
  check_entities(cm, m, sp, skin_of(m, sec), {}, mx, ids);
  se::truth("entity ids are unique", std::set<int>(ids.begin(), ids.end()).size() == ids.size());
  // the triangles close the primary blocks: the volume they enclose is the volume of the elements
  double vs = 0, ve = 0;
  for (size_t i = 0; i < cm.numContactFaces(); ++i) {
    const CE& t = cm.getContactFace(i);
    V3 c[3] = {{t.coord_1_x_, t.coord_1_y_, t.coord_1_z_}, {t.coord_2_x_, t.coord_2_y_, t.coord_2_z_}, {t.coord_3_x_, t.coord_3_y_, t.coord_3_z_}};
    vs += dot(c[0], cross(c[1], c[2])) / 6;
  }
  for (int b : prim)
    for (size_t e = 0; e < m.egid[b].size(); ++e)
      for (auto& F : HF) {
        V3 a = at(m, m.conn[b][8 * e + F[0]]), bb = at(m, m.conn[b][8 * e + F[1]]), c = at(m, m.conn[b][8 * e + F[2]]), d = at(m, m.conn[b][8 * e + F[3]]);
        ve += (dot(a, cross(bb, c)) + dot(a, cross(c, d)) + dot(a, cross(bb, d)) + dot(bb, cross(c, d))) / 12;
      }
  se::eq("enclosed volume", vs, ve, 1e-8);
  se::reach("skin");
}
// several ranks: the union of the ranks' entities is the skin of the whole model
static void
skin_mpi(int n)
{
  // ne elements in a row along x (primary, block 10) and as many (secondary, block 20) in a separate row, dealt to the ranks
  int ne = n == 2 ? 3 : 4, deal = se::choice("distribution", 3), order = se::choice("rank order", 3);
  std::vector<int> own(2 * ne);
  for (int e = 0; e < 2 * ne; ++e) own[e] = deal == 0 ? (e % ne) * n / ne : deal == 1 ? e % n : n - 1 - ((e % ne) * n / ne);
  Mesh all;
  all.add_block(10); all.add_block(20);
  grid(all, ne, 1, 1, 0.0005);
  int off = (int)all.gid.size();
  grid(all, 1, ne, 1, 0.0005, 9);
  for (int e = 0; e < ne; ++e) all.add(10, 50 + 2 * e, turn(hexn(0, ne, 1, e, 0, 0), 5 * e));
  for (int e = 0; e < ne; ++e) all.add(20, 51 + 2 * e, turn(hexn(off, 1, ne, 0, e, 0), 7 * e));
  std::vector<Mesh> part(n);
  std::vector<std::map<int, int>> loc(n);
  for (int r = 0; r < n; ++r) {
    part[r].add_block(10); part[r].add_block(20);
    for (int i = 0; i < 2 * ne; ++i) {
      if (own[i] != r) continue;
      int              b = i < ne ? 10 : 20, e = i % ne;
      std::vector<int> c;
      for (int k = 0; k < 8; ++k) {
        int gn = all.conn[b][8 * e + k];
        if (!loc[r].count(gn)) {
          loc[r][gn] = (int)part[r].gid.size();
          part[r].gid.push_back(all.gid[gn]);
          part[r].x.push_back(all.x[gn]); part[r].y.push_back(all.y[gn]); part[r].z.push_back(all.z[gn]);
        }
        c.push_back(loc[r][gn]);
      }
      part[r].add(b, all.egid[b][e], c);
    }
  }
  int  mx = *std::max_element(all.gid.begin(), all.gid.end());
  Skin wp = skin_of(all, {10}), ws = skin_of(all, {20});
  std::vector<std::unique_ptr<CM>> cms(n);
  std::vector<GenesisMesh>         gm(n);
  for (int r = 0; r < n; ++r) gm[r] = part[r].make();
  static char dummy[64];
  bool ok = mpisim::run(n, [&](int r) {
    cms[r].reset(new CM(std::make_shared<ContactInterface>(), *(DataManager*)dummy));
    VectorCommunicator vc(3, part[r].gid.size(), comm_type());
    vc.Initialize(part[r].gid);
    cms[r]->CreateContactEntities(gm[r], vc, {10}, {20});
  }, order, 3);
  se::truth("ranks finish", ok && mpisim::leftover() == 0);
  if (!ok) return;
  std::multiset<int> ids;
  size_t             nf = 0, nn = 0;
  for (int r = 0; r < n; ++r) {
    Skin p = skin_of(part[r], {10}), s = skin_of(part[r], {20});
    for (auto* x : {&p, &s})
      for (auto it = x->faces.begin(); it != x->faces.end();)
        if (!(x == &p ? wp : ws).faces.count(it->first)) it = x->faces.erase(it); else ++it;
    std::set<int> ghosts;
    for (int q = 0; q < r; ++q)
      for (auto& kv : loc[q]) if (loc[r].count(kv.first)) ghosts.insert(loc[r][kv.first]);
    check_entities(*cms[r], part[r], p, s, ghosts, mx, ids);
    nf += cms[r]->numContactFaces();
    nn += cms[r]->numContactNodes();
  }
  se::truth("ids unique over the ranks", std::set<int>(ids.begin(), ids.end()).size() == ids.size());
  se::truth("together the ranks hold the skin of the model", nf == 4 * wp.faces.size());
  std::set<int> sn;
  for (auto& kv : ws.faces) sn.insert(kv.first.begin(), kv.first.end());
  se::truth("together the ranks hold each secondary skin node once", nn == sn.size());
  se::reach("skin");
}
// a secondary node that a lower rank knows only through a block outside contact
static void
skin_mpi_glued()
{
  static char dummy[64];
  Mesh part[2];
  for (auto& p : part) { p.add_block(10); p.add_block(20); }
  grid(part[0], 1, 1, 1, 0); part[0].add(10, 1, hexn(0, 1, 1, 0, 0, 0));
  grid(part[1], 1, 1, 1, 0, 1.2); part[1].add(20, 2, hexn(0, 1, 1, 0, 0, 0));
  std::vector<int> h1 = hexn(0, 1, 1, 0, 0, 0);
  for (size_t i = 0; i < part[1].gid.size(); ++i) part[1].gid[i] += 100;
  int pairs[4][2] = {{1, 0}, {3, 2}, {5, 4}, {7, 6}};
  for (auto& p : pairs) part[1].gid[p[1]] = part[0].gid[p[0]];
  size_t nn = 0;
  bool   ok = mpisim::run(2, [&](int r) {
    CM cm(std::make_shared<ContactInterface>(), *(DataManager*)dummy);
    VectorCommunicator vc(3, part[r].gid.size(), comm_type());
    vc.Initialize(part[r].gid);
    GenesisMesh g = part[r].make();
    cm.CreateContactEntities(g, vc, {10}, {20});
    nn += cm.numContactNodes();
  });
  se::truth("ranks finish", ok);
  se::truth("every secondary skin node is a contact node on some rank", nn == 8);
  se::reach("glued");
}
// ---- the contact command ----------------------------------------------------------------------------------------
static void
command()
{
  double      pen = se::real("penalty", 1e-6, 1e12, 2500.5);
  int         k1 = se::choice("primary key", 4), k2 = se::choice("secondary key", 4), np = 1 + se::choice("primary blocks", 3), ns = 1 + se::choice("secondary blocks", 3), pk = se::choice("penalty key", 3);
  const char* a[] = {"primary_blocks", "master_blocks", "blocks", "Primary_blocks"};
  const char* b[] = {"secondary_blocks", "slave_blocks", "second_blocks", ""};
  const char* c[] = {"penalty_parameter", "penalty", ""};
  std::string s = a[k1];
  std::vector<std::string> P, S, p, q;
  for (int i = 0; i < np; ++i) { P.push_back("block_" + std::to_string(3 * i + 1)); s += " " + P.back(); }
  s += std::string(" ") + b[k2];
  for (int i = 0; i < ns; ++i) { S.push_back("lid" + std::to_string(i)); s += "  " + S.back(); }
  s += std::string(" ") + c[pk] + " " + se::text(pen);
  double got = -1;
  bool   threw = false;
  try { ParseContactCommand(s, p, q, got); } catch (const std::exception&) { threw = true; }
  bool bad = k1 > 1 || k2 > 1 || pk > 0;
  se::truth("a malformed contact command is refused, a well-formed one is not", threw == bad);
  if (bad || threw) { se::reach("refused"); return; }
  se::truth("block names", p == P && q == S);
  se::eq("penalty", got, pen, 0);
  se::reach("accepted");
}
void
harness(const char* cs)
{
  if (!Kokkos::is_initialized()) Kokkos::initialize();
  static std::stringstream sink;
  static bool once = (std::cout.rdbuf(sink.rdbuf()), true);
  (void)once;
  if (!strncmp(cs, "proj_", 5)) return projection(strstr(cs, "full") ? "full" : "simple", cs[strlen(cs) - 1] - '0', strstr(cs, "sim"));
  if (!strncmp(cs, "closest", 7)) return closest(cs[7] - '0');
  if (is(cs, "penalty")) return penalty(false, 1, 1);
  if (is(cs, "penalty_small")) return penalty(false, std::ldexp(1.0, -13), std::ldexp(1.0, 32));
  if (is(cs, "penalty_large")) return penalty(false, std::ldexp(1.0, 11), std::ldexp(1.0, -24));
  if (is(cs, "penalty_legacy")) return penalty(true, 1, 1);
  if (is(cs, "manager0")) return manager(0);
  if (is(cs, "manager1")) return manager(1);
  if (is(cs, "serial")) return serial();
  if (is(cs, "boxes")) return boxes();
  if (is(cs, "manager_box")) return manager_box();
  if (is(cs, "skin0")) return skin(0);
  if (is(cs, "skin1")) return skin(1);
  if (is(cs, "skin2")) return skin(2);
  if (is(cs, "skin_mpi2")) return skin_mpi(2);
  if (is(cs, "skin_mpi3")) return skin_mpi(3);
  if (is(cs, "skin_mpi_glued")) return skin_mpi_glued();
  if (is(cs, "command")) return command();
  se::truth("unknown case", false);
}
