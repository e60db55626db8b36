// Sums over ranks: VectorCommunicator on arbitrary distributions of nodes over simulated ranks, and the collective helpers around it.
#include "hx.h"
#include "mpisim.h"
#include "nimble.mpi.mpicontext.h"
#include "nimble.mpi.reduction.h"
#include "nimble.mpi.reduction_utils.h"
#include "nimble_vector_communicator.h"
#include <algorithm>
#include <map>
#include <set>
#include <stdexcept>
using namespace nimble;
namespace {
struct Dist
{
  int                           P = 0, N = 0;
  std::vector<int>              holders;  // per node: bit set of ranks
  std::vector<std::vector<int>> node;     // per rank: node of each local index
  std::vector<int>              gid;      // per node
  std::vector<int> ids(int r) const { std::vector<int> v; for (int n : node[r]) v.push_back(gid[n]); return v; }
  int  min_rank(int n) const { int r = 0; while (!(holders[n] >> r & 1)) ++r; return r; }
  bool shared(int n) const { return holders[n] & (holders[n] - 1); }
};
// every distribution of N nodes over P ranks (up to renaming the nodes), several numberings and local orders
Dist
dist(int P, int N, bool empty_ok = true)
{
  Dist d;
  d.P = P; d.N = N;
  int lo = 1;
  for (int n = 0; n < N; ++n) {
    lo += se::choice(se::nm("holders", n), (1 << P) - lo);
    d.holders.push_back(lo);
  }
  int num = se::choice("numbering", 3);
  static const int SPARSE[] = {70001, 3, 512, 40, 9, 1000, 2, 77};
  for (int n = 0; n < N; ++n) d.gid.push_back(num == 0 ? n : num == 1 ? N - 1 - n : SPARSE[n]);
  d.node.resize(P);
  for (int r = 0; r < P; ++r) {
    for (int n = 0; n < N; ++n) if (d.holders[n] >> r & 1) d.node[r].push_back(n);
    if (num && r % 2) std::reverse(d.node[r].begin(), d.node[r].end());
    if (num == 2 && d.node[r].size() > 2) std::rotate(d.node[r].begin(), d.node[r].begin() + r % 3, d.node[r].end());
    if (!empty_ok && d.node[r].empty()) se::quit();
  }
  return d;
}
void
finish(const char* w, bool ok)
{
  se::truth((std::string(w) + ": the ranks finish " + mpisim::trouble()).c_str(), ok);
  se::truth((std::string(w) + ": no message is left over").c_str(), mpisim::leftover() == 0);
}
double
seed(int r, int n, int k, int j)
{
  return 0.1 * (r + 1) - 0.2 * n + 0.3 * k - 0.05 * j;
}
void
sums(int P, int N, int order, int rounds, int slow, bool all_sizes)
{
  Dist d = dist(P, N);
  int  fs0 = all_sizes ? 1 + se::choice("field_size", 3) : 1 + (d.holders[0] + d.holders[N - 1] + d.gid[0]) % 3;
  bool lookup = all_sizes ? se::choice("lookup", 2) : (d.holders[0] + d.gid[0]) % 2;
  // in[k][r][i][j]: what rank r contributes in round k
  std::vector<std::vector<std::vector<std::vector<double>>>> in(rounds, std::vector<std::vector<std::vector<double>>>(P)), out = in;
  std::vector<int> fs;
  for (int k = 0; k < rounds; ++k) {
    fs.push_back(1 + (fs0 - 1 + k) % 3);
    for (int r = 0; r < P; ++r)
      for (int n : d.node[r]) {
        std::vector<double> v;
        for (int j = 0; j < fs[k]; ++j) v.push_back(se::real(se::nm(se::nm("x", k, r), n, j), -10, 10, seed(r, n, k, j)));
        in[k][r].push_back(v);
        out[k][r].push_back(v);
      }
  }
  mpisim::set_slow_tests(slow);
  bool ok = mpisim::run(
      P,
      [&](int r) {
        VectorCommunicator vc(3, d.node[r].size(), comm_type());
        vc.Initialize(d.ids(r));
        for (int k = 0; k < rounds; ++k) {
          auto& o = out[k][r];
          if (lookup) {
            auto at = [&o](int i, int j) -> double& { return o[i][j]; };
            vc.VectorReduction(fs[k], at);
          } else {
            std::vector<double> flat;
            for (auto& v : o) flat.insert(flat.end(), v.begin(), v.end());
            vc.VectorReduction(fs[k], flat.data());
            for (size_t i = 0; i < o.size(); ++i) for (int j = 0; j < fs[k]; ++j) o[i][j] = flat[i * fs[k] + j];
          }
        }
      },
      order, 4);
  finish("reduction", ok);
  if (!ok) return;
  for (int k = 0; k < rounds; ++k)
    for (int n = 0; n < N; ++n)
      for (int j = 0; j < fs[k]; ++j) {
        double s = 0;
        for (int r = 0; r < P; ++r)
          for (size_t i = 0; i < d.node[r].size(); ++i) if (d.node[r][i] == n) s = s + in[k][r][i][j];
        for (int r = 0; r < P; ++r)
          for (size_t i = 0; i < d.node[r].size(); ++i) if (d.node[r][i] == n) se::eq(se::nm("sum over the ranks holding node", n, r, j), out[k][r][i][j], s);
      }
  se::reach("reduction");
}
// bookkeeping: boundary nodes, bad field sizes, node numbering helpers
void
boundary(int P, int N)
{
  Dist                          d = dist(P, N);
  std::vector<std::vector<int>> li(P), mr(P);
  std::vector<int>              refused(P, 0);
  bool                          ok = mpisim::run(P, [&](int r) {
    VectorCommunicator vc(3, d.node[r].size(), comm_type());
    vc.Initialize(d.ids(r));
    vc.GetPartitionBoundaryNodeLocalIds(li[r], mr[r]);
    std::vector<double> x(8 * N + 8, 0.0);
    for (int bad : {0, 4, -1}) try { vc.VectorReduction(bad, x.data()); } catch (std::invalid_argument&) { refused[r]++; }
  });
  finish("boundary", ok);
  if (!ok) return;
  for (int r = 0; r < P; ++r) {
    se::truth("field sizes other than 1, 2 and 3 are refused", refused[r] == 3);
    se::truth("one minimum rank per boundary node", li[r].size() == mr[r].size());
    std::map<int, int> got;
    for (size_t i = 0; i < li[r].size() && i < mr[r].size(); ++i) {
      se::truth("boundary nodes are listed once", !got.count(li[r][i]));
      got[li[r][i]] = mr[r][i];
    }
    for (size_t i = 0; i < d.node[r].size(); ++i) {
      int n = d.node[r][i];
      se::truth("exactly the nodes held by several ranks are boundary nodes", d.shared(n) == (bool)got.count((int)i));
      if (got.count((int)i)) se::truth("lowest rank holding the node", got[(int)i] == d.min_rank(n));
    }
  }
  se::reach("boundary");
}
void
numbering(int P, int N)
{
  Dist                          d = dist(P, N, false);
  std::vector<std::vector<int>> packed(P), counts(P);
  std::vector<int>              mx(P);
  size_t                        most = 0;
  for (auto& v : d.node) most = std::max(most, v.size());
  bool ok = mpisim::run(P, [&](int r) {
    mpicontext c(MPI_COMM_WORLD);
    mx[r]  = GetMaximumNodeId(d.ids(r), c);
    auto b = GetNumberOfNodesAssignedToEachRank(d.ids(r), c);
    for (int q = 0; q < P; ++q) counts[r].push_back(b[q]);
    packed[r] = PackIDSpace(d.ids(r), (int)most, c);
  });
  finish("numbering", ok);
  if (!ok) return;
  std::map<int, int> to;
  std::set<int>      used;
  for (int r = 0; r < P; ++r) {
    se::truth("largest id anywhere", mx[r] == *std::max_element(d.gid.begin(), d.gid.end()));
    for (int q = 0; q < P; ++q) se::truth("number of nodes of each rank", counts[r][q] == (int)d.node[q].size());
    se::truth("every node gets a packed id", packed[r].size() == d.node[r].size());
    for (size_t i = 0; i < d.node[r].size() && i < packed[r].size(); ++i) {
      int n = d.node[r][i], p = packed[r][i];
      if (to.count(n)) se::truth("a node has the same packed id on every rank", to[n] == p);
      else se::truth("different nodes have different packed ids", used.insert(p).second);
      to[n] = p;
    }
  }
  se::truth("packed ids are 0..n-1", used.empty() || (*used.begin() == 0 && *used.rbegin() == (int)used.size() - 1));
  se::reach("numbering");
}
void
collect(int P)
{
  std::vector<std::vector<int>> part(P), back(P), all0(P), all1(P);
  std::vector<std::vector<std::vector<int>>> got(P);
  std::vector<std::string>      str(P), cat(P), fmt(P);
  int root = se::choice("root", P);
  for (int r = 0; r < P; ++r) {
    int len = se::choice(se::nm("length", r), 4);
    for (int i = 0; i < len; ++i) part[r].push_back(100 * r + 7 * i - 3);
    str[r] = std::string(len, (char)('a' + r));
  }
  std::vector<std::vector<size_t>> big(P);
  std::vector<std::vector<std::array<int, 3>>> arr(P);
  std::vector<int> bc(P);
  bool ok = mpisim::run(P, [&](int r) {
    mpicontext c(MPI_COMM_WORLD);
    se::truth("rank and size", c.get_rank() == r && c.get_size() == P && c.is_root() == (r == 0));
    got[r]  = c.gather(part[r], root);
    back[r] = c.scatter(root, got[r]);
    all0[r] = c.allgather_to_vector((int)(10 + r));
    big[r]  = c.allgather_to_vector((size_t)(((size_t)1 << 40) + r));
    arr[r]  = c.allgather_to_vector(std::array<int, 3>{{r, -r, 5}});
    if (c.is_root()) all1[r] = c.gather_recieve(3 * r + 1); else c.gather_send(3 * r + 1);
    bc[r] = r + 17;
    c.bcast(bc[r]);
    cat[r] = c.catenate_gatherv(str[r]);
    fmt[r] = c.catenate_gatherv_format(str[r], "<<", ", ", ">");
    MPI_Comm half = c.split_by_color(r % 2);
    mpicontext h(half);
    se::truth("ranks of a colour, in their order", h.get_rank() == r / 2 && h.get_size() == (P + 1 - r % 2) / 2);
    se::truth("no colour, no communicator", c.split_by_color() == MPI_COMM_NULL);
  });
  finish("collect", ok);
  if (!ok) return;
  std::string c0, f0 = "<<";
  for (int r = 0; r < P; ++r) {
    c0 += str[r];
    f0 += (r ? ", " : "") + str[r];
  }
  f0 += ">";
  for (int r = 0; r < P; ++r) {
    se::truth("the root gets every rank's list", r == root ? got[r] == part : got[r].empty());
    se::truth("scattering gives every rank its list", back[r] == part[r]);
    for (int q = 0; q < P; ++q) se::truth("all ranks know every value", all0[r][q] == 10 + q && big[r][q] == ((size_t)1 << 40) + q && arr[r][q] == (std::array<int, 3>{{q, -q, 5}}));
    for (int q = 0; q < P && r == 0; ++q) se::truth("the root gets every rank's value", all1[r][q] == 3 * q + 1);
    se::truth("everyone gets the root's value", bc[r] == 17);
    se::truth("the texts in the order of ranks", cat[r] == (r ? "" : c0));
    se::truth("the texts with start, separator and end", fmt[r] == (r ? "" : f0));
  }
  se::reach("collect");
}
// objects sent in packed form arrive as they were
void
packed()
{
  int n = se::choice("n", 5), m = se::choice("m", 3), room = se::choice("room", 4);
  std::vector<double> v;
  for (int i = 0; i < n; ++i) v.push_back(se::real(se::nm("v", i), -10, 10, 0.5 * i - 1));
  std::vector<std::vector<double>> vv(m);
  for (int i = 0; i < m; ++i) for (int j = 0; j < (n + i) % 4; ++j) vv[i].push_back(se::real(se::nm("w", i, j), -10, 10, 0.25 * i - j));
  typedef std::pair<std::vector<double>, int> PV;
  PV  p(v, 12345);
  std::pair<double, std::array<double, 2>> q(se::real("q", -10, 10, 1.5), {{se::real("q0", -1, 1, .5), se::real("q1", -1, 1, -.25)}});
  std::vector<std::pair<int, double>> ip;
  for (int i = 0; i < n; ++i) ip.push_back({i * 7 - 3, v[i] * 2});
  std::vector<double> v2(room); std::vector<std::vector<double>> vv2(room, std::vector<double>(1, 3.0)); PV p2; decltype(q) q2; decltype(ip) ip2;
  bool ok = mpisim::run(2, [&](int r) {
    mpicontext          c(MPI_COMM_WORLD);
    std::vector<int>    buf(room ? 9 * room * room : 0);
    if (r == 0) {
      c.sendpacked(v, 1, 5, buf);
      c.sendpacked(vv, 1, 6, buf);
      c.sendpacked(p, 1, 5, buf);
      c.sendpacked(q, 1, 5, buf);
      c.sendpacked(ip, 1, 5, buf);
    } else {
      c.recvpacked(vv2, 0, 6, buf);
      c.recvpacked(v2, 0, 5, buf);
      c.recvpacked(p2, 0, 5, buf);
      c.recvpacked(q2, 0, 5, buf);
      c.recvpacked(ip2, 0, 5, buf);
    }
  });
  finish("packed", ok);
  if (!ok) return;
  auto same = [](const char* w, const std::vector<double>& a, const std::vector<double>& b) {
    se::truth((std::string(w) + ": length").c_str(), a.size() == b.size());
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) se::eq((std::string(w) + ": value").c_str(), a[i], b[i], 1e-14);
  };
  same("vector", v2, v);
  se::truth("vector of vectors: length", vv2.size() == vv.size());
  for (int i = 0; i < m && i < (int)vv2.size(); ++i) same("vector of vectors", vv2[i], vv[i]);
  same("pair", p2.first, v);
  se::truth("pair: int", p2.second == 12345);
  same("array", {q2.first, q2.second[0], q2.second[1]}, {q.first, q.second[0], q.second[1]});
  se::truth("vector of pairs: length", ip2.size() == ip.size());
  for (int i = 0; i < n && i < (int)ip2.size(); ++i) {
    se::truth("vector of pairs: key", ip2[i].first == ip[i].first);
    se::eq("vector of pairs: value", ip2[i].second, ip[i].second, 1e-14);
  }
  se::reach("packed");
}
void
group()
{
  int                               n = se::choice("n", 6);
  std::vector<std::pair<int, double>> l;
  for (int i = 0; i < n; ++i) l.push_back({se::choice(se::nm("key", i), 3), se::real(se::nm("v", i), -1, 1, 0.1 * i)});
  auto   g = GroupConsecutive(l);
  size_t at = 0;
  for (size_t i = 0; i < g.size(); ++i) {
    se::truth("groups are not empty and neighbours have different keys", g[i].second.size() && (!i || g[i].first != g[i - 1].first));
    for (double x : g[i].second) {
      se::truth("no value too many, under its own key", at < l.size() && l[at].first == g[i].first);
      if (at < l.size()) se::eq("values in order", x, l[at].second, 1e-14);
      ++at;
    }
  }
  se::truth("no value lost", at == l.size());
  se::reach("group");
}
}  // namespace
void
harness(const char* c)
{
  std::string n = c;
  if (n == "sums2") sums(2, 4, 0, 2, 0, true);
  if (n == "sums3") sums(3, 3, 1, 2, 0, false);
  if (n == "sums4") sums(4, 3, 0, 2, 0, false);
  if (n == "sums3wide") sums(3, 5, 0, 2, 0, false);
  if (n == "sums5") sums(5, 2, 1, 2, 0, false);
  if (n == "schedules2") sums(2, 2, 2, 2, 2, false);
  if (n == "schedules3") sums(3, 2, 2, 2, 1, false);
  if (n == "boundary3") boundary(3, 4);
  if (n == "boundary4") boundary(4, 3);
  if (n == "numbering2") numbering(2, 4);
  if (n == "numbering3") numbering(3, 4);
  if (n == "collect1") collect(1);
  if (n == "collect2") collect(2);
  if (n == "collect3") collect(3);
  if (n == "packed") packed();
  if (n == "group") group();
}
