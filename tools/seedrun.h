// a mesh written with the Exodus library, a run of the application, and its results
#pragma once
#include <mpi.h>
#include <exodusII.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "nimble.h"
namespace seedrun {
typedef std::vector<double> V;
typedef std::vector<int>    I;
struct Mesh
{
  V x, y, z;
  struct B { int id; std::string name; std::vector<I> el; };
  struct S { int id; std::string name; I nodes; };
  std::vector<B> blocks;
  std::vector<S> sets;
  I nmap, emap;
  int node(double a, double b, double c) { x.push_back(a); y.push_back(b); z.push_back(c); return (int)x.size() - 1; }
  void write(const std::string& file) const
  {
    int cw = 8, iw = 8, ne = 0;
    for (auto& b : blocks) ne += (int)b.el.size();
    int id = ex_create(file.c_str(), EX_CLOBBER, &cw, &iw);
    ex_put_init(id, "demo", 3, x.size(), ne, blocks.size(), sets.size(), 0);
    ex_put_coord(id, x.data(), y.data(), z.data());
    char cx[] = "x", cy[] = "y", cz[] = "z";
    char* cn[] = {cx, cy, cz};
    ex_put_coord_names(id, cn);
    I nm = nmap, em = emap;
    if (nm.empty()) for (size_t i = 0; i < x.size(); ++i) nm.push_back((int)i + 1);
    if (em.empty()) for (int i = 0; i < ne; ++i) em.push_back(i + 1);
    ex_put_id_map(id, EX_NODE_MAP, nm.data());
    ex_put_id_map(id, EX_ELEM_MAP, em.data());
    for (auto& b : blocks) {
      ex_put_block(id, EX_ELEM_BLOCK, b.id, "HEX8", b.el.size(), 8, 0, 0, 0);
      if (!b.name.empty()) ex_put_name(id, EX_ELEM_BLOCK, b.id, b.name.c_str());
      I c;
      for (auto& e : b.el) for (int n : e) c.push_back(n + 1);
      if (!c.empty()) ex_put_conn(id, EX_ELEM_BLOCK, b.id, c.data(), 0, 0);
    }
    for (auto& s : sets) {
      ex_put_set_param(id, EX_NODE_SET, s.id, s.nodes.size(), s.nodes.size());
      I c;
      for (int n : s.nodes) c.push_back(n + 1);
      V f(c.size(), 1.0);
      if (!c.empty()) { ex_put_set(id, EX_NODE_SET, s.id, c.data(), 0); ex_put_set_dist_fact(id, EX_NODE_SET, s.id, f.data()); }
      if (!s.name.empty()) ex_put_name(id, EX_NODE_SET, s.id, s.name.c_str());
    }
    ex_close(id);
  }
};
// a bar of hexahedra along z, block of each element given
inline Mesh
bar(const I& blocks, double wob = 0.0)
{
  Mesh m;
  int  n = (int)blocks.size();
  for (int k = 0; k <= n; ++k)
    for (int j = 0; j < 2; ++j)
      for (int i = 0; i < 2; ++i) {
        int id = (int)m.x.size();
        m.node(i + wob * std::sin(1.0 + 5 * id), j + wob * std::sin(2.0 + 7 * id), k + wob * std::sin(3.0 + 11 * id));
      }
  for (int e = 0; e < n; ++e) {
    I c = {4 * e, 4 * e + 1, 4 * e + 3, 4 * e + 2, 4 * e + 4, 4 * e + 5, 4 * e + 7, 4 * e + 6};
    bool done = false;
    for (auto& b : m.blocks) if (b.id == blocks[e]) { b.el.push_back(c); done = true; }
    if (!done) m.blocks.push_back({blocks[e], "", {c}});
  }
  return m;
}
struct Out
{
  V times;
  int nn = 0;
  std::map<std::string, std::vector<V>> nodal;                   // [name][step]
  std::map<int, std::map<std::string, std::vector<V>>> elem;     // [block][name][step]
  bool ok = false;
  explicit Out(const std::string& file)
  {
    int   cw = 8, iw = 0;
    float v;
    ex_opts(0);
    int id = ex_open(file.c_str(), EX_READ, &cw, &iw, &v);
    if (id < 0) return;
    char t[MAX_LINE_LENGTH + 1];
    int  dim, n, ne, nb, ns, ss;
    if (ex_get_init(id, t, &dim, &n, &ne, &nb, &ns, &ss) < 0) return;
    nn = n;
    int nt = ex_inquire_int(id, EX_INQ_TIME);
    times.resize(nt);
    if (nt) ex_get_all_times(id, times.data());
    int nv = 0;
    ex_get_variable_param(id, EX_NODAL, &nv);
    for (int k = 0; k < nv; ++k) {
      char nm[64];
      ex_get_variable_name(id, EX_NODAL, k + 1, nm);
      for (int s = 0; s < nt; ++s) { V d(n); ex_get_var(id, s + 1, EX_NODAL, k + 1, 1, n, d.data()); nodal[nm].push_back(d); }
    }
    I ids(nb);
    ex_get_ids(id, EX_ELEM_BLOCK, ids.data());
    int ev = 0;
    ex_get_variable_param(id, EX_ELEM_BLOCK, &ev);
    for (int b : ids) {
      char ty[64];
      int  cnt, q, w, e, at;
      ex_get_block(id, EX_ELEM_BLOCK, b, ty, &cnt, &q, &w, &e, &at);
      for (int k = 0; k < ev; ++k) {
        char nm[64];
        ex_get_variable_name(id, EX_ELEM_BLOCK, k + 1, nm);
        for (int s = 0; s < nt; ++s) { V d(cnt, NAN); if (cnt) ex_get_var(id, s + 1, EX_ELEM_BLOCK, k + 1, b, cnt, d.data()); elem[b][nm].push_back(d); }
      }
    }
    ex_close(id);
    ok = true;
  }
};
// runs the deck in this process; prints nothing; the status, or -1 when an exception leaves it
inline int
run(const std::string& deck, const std::string& name = "demo.in", std::vector<std::string> more = {})
{
  if (!deck.empty()) { std::ofstream f(name); f << deck; }
  std::vector<std::string> a = {"NimbleSM"};
  for (auto& s : more) a.push_back(s);
  a.push_back(name);
  std::vector<char*> v;
  for (auto& s : a) v.push_back((char*)s.c_str());
  v.push_back(nullptr);
  auto* o = std::cout.rdbuf(nullptr);
  auto* e = std::cerr.rdbuf(nullptr);
  int   r = -1;
  try {
    nimble::NimbleApplication app;
    r = app.Run((int)a.size(), v.data());
  } catch (const std::exception& x) {
    std::fprintf(stderr, "exception: %s\n", x.what());
  }
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  std::cout.clear(); std::cerr.clear();
  return r;
}
inline bool
near(double a, double b, double tol = 1e-9)
{
  return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b));
}
}  // namespace seedrun
