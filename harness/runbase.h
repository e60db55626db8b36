// Running the real application in this process: NimbleApplication::Run with an input deck in a memory file and an in-memory Exodus mesh.
#pragma once
#include "hx.h"
#include "exosim.h"
#include "mpisim.h"
#include "nimble.h"
#include "nimble_cli.h"
#include "nimble_parser.h"
#include "nimble_data_manager.h"
#include "nimble_genesis_mesh.h"
#include "nimble_contact_interface.h"
#include "nimble_boundary_condition_manager.h"
#include "nimble_vector_communicator.h"
#include "nimble_kokkos_model_data.h"
#include "nimble_kokkos_material_factory.h"
#include "nimble_kokkos_block_material_interface_factory.h"
#include "integrators/integrator_base.h"
#include <dlfcn.h>
#include <functional>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
namespace runbase {
// several simulated ranks start and stop Kokkos in one process
struct Deck
{
  std::string t;
  Deck& operator()(const std::string& k, const std::string& v) { t += k + ": " + v + "\n"; return *this; }
  Deck& operator()(const std::string& k, double v) { return (*this)(k, std::string(se::text(v))); }
  Deck& num(const std::string& k, int v) { return (*this)(k, std::to_string(v)); }
  std::string file() const
  {
    int fd = memfd_create("deck", 0);
    for (size_t o = 0; o < t.size();) { ssize_t n = write(fd, t.data() + o, t.size() - o); if (n <= 0) abort(); o += n; }
    return "/proc/self/fd/" + std::to_string(fd);
  }
};
struct Quiet
{
  std::streambuf *o, *e;
  Quiet() { o = std::cout.rdbuf(); e = std::cerr.rdbuf(); if (getenv("SE_LOUD")) return; o = std::cout.rdbuf(nullptr); e = std::cerr.rdbuf(nullptr); }
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); }
};
inline int
run(nimble::NimbleApplication& app, const std::string& path)
{
  char *argv[] = {(char*)"NimbleSM", (char*)path.c_str(), nullptr};
  return app.Run(2, argv);
}
// an Exodus mesh of hexahedra
struct Hex
{
  exosim::File f;
  Hex() { f.exists = true; f.dim = 3; f.title = "mesh"; }
  int node(double x, double y, double z) { f.x.push_back(x); f.y.push_back(y); f.z.push_back(z); return f.num_nodes++; }
  void block(int id, const std::string& name = "") { exosim::Blk b; b.id = id; b.name = name; b.type = "HEX8"; b.npe = 8; f.blocks.push_back(b); }
  void elem(int id, const std::vector<int>& n0)
  {
    for (auto& b : f.blocks)
      if (b.id == id) { for (int n : n0) b.conn.push_back(n + 1); b.nelem++; f.num_elem++; }
  }
  void nset(int id, const std::string& name, const std::vector<int>& n0)
  {
    exosim::Set s;
    s.id = id; s.name = name;
    for (int n : n0) { s.items.push_back(n + 1); s.factors.push_back(1.0); }
    f.nsets.push_back(s);
  }
};
}  // namespace runbase
