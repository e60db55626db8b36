// Exodus database kept in memory: the mesh reader and the results writer of the real code run unchanged against it, and what they read and
// write stays symbolic.  Calls that a real Exodus library would refuse are refused here too (and listed in `complaints`).
#pragma once
#include <map>
#include <string>
#include <vector>
namespace exosim {
struct Set { int id; std::string name; std::vector<int> items, extra; std::vector<double> factors; };
struct Blk { int id; std::string name, type; int nelem = 0, npe = 0; std::vector<int> conn; };  // conn: 1-based
struct File
{
  bool                                       exists = false;
  std::string                                title;
  int                                        dim = 3, num_nodes = 0, num_elem = 0, num_blocks = 0, num_nsets = 0, num_ssets = 0;
  std::vector<double>                        x, y, z;
  std::vector<std::string>                   coord_names;
  std::vector<int>                           node_map, elem_map;                  // 1-based ids; empty: 1..n
  std::vector<std::pair<std::string, std::vector<int>>> node_maps, elem_maps;     // auxiliary maps
  std::vector<Set>                           nsets, ssets;
  std::vector<Blk>                           blocks;
  std::map<int, std::vector<std::string>>    var_names;                           // by entity type
  std::map<int, int>                         var_count;
  std::map<int, double>                      times;                               // by 1-based step
  std::map<int, std::map<std::vector<int>, std::vector<double>>> vals;            // step -> {type, variable, object} -> values
  int                                        open = 0, writes = 0;
  // value of a nodal variable (0-based step): null when it was not written
  const std::vector<double>* nodal(int step, const std::string& name) const;
  const std::vector<double>* elem(int step, const std::string& name, int block) const;
};
File&                     file(const std::string& name);
std::map<std::string, File>& files();
std::vector<std::string>& complaints();
void                      reset();
// fault injection: the call with this number (from 0, counted from here) does nothing and returns code; failed(): the function it hit
void                      fail_at(int call, int code);
int                       calls();
const char*               failed();
}  // namespace exosim
