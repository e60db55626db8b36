#include "exosim.h"
#include <cstring>
#include <exodusII.h>
namespace exosim {
static std::map<std::string, File> F;
static std::vector<File*>          H;
static std::vector<std::string>    C;
std::map<std::string, File>& files() { return F; }
File& file(const std::string& n) { return F[n]; }
std::vector<std::string>& complaints() { return C; }
void reset() { F.clear(); H.clear(); C.clear(); fail_at(-1, 0); }
static int         g_calls, g_at = -1, g_code;
static std::string g_what;
void        fail_at(int call, int code) { g_calls = 0; g_at = call; g_code = code; g_what.clear(); }
int         calls() { return g_calls; }
const char* failed() { return g_what.c_str(); }
static bool hit(const char* w) { if (g_calls++ != g_at) return false; g_what = w; return true; }
static int bad(const char* what) { C.push_back(what); return -1; }
static File* h(int id) { return id >= 1 && id <= (int)H.size() ? H[id - 1] : nullptr; }
const std::vector<double>*
File::nodal(int step, const std::string& name) const
{
  auto v = var_names.find(EX_NODAL);
  auto s = vals.find(step + 1);
  if (v == var_names.end() || s == vals.end()) return nullptr;
  for (size_t i = 0; i < v->second.size(); ++i)
    if (v->second[i] == name) {
      auto w = s->second.find({EX_NODAL, (int)i + 1, 1});
      return w == s->second.end() ? nullptr : &w->second;
    }
  return nullptr;
}
const std::vector<double>*
File::elem(int step, const std::string& name, int block) const
{
  auto v = var_names.find(EX_ELEM_BLOCK);
  auto s = vals.find(step + 1);
  if (v == var_names.end() || s == vals.end()) return nullptr;
  for (size_t i = 0; i < v->second.size(); ++i)
    if (v->second[i] == name) {
      auto w = s->second.find({EX_ELEM_BLOCK, (int)i + 1, block});
      return w == s->second.end() ? nullptr : &w->second;
    }
  return nullptr;
}
}  // namespace exosim
using namespace exosim;
#define FAULT if (hit(__func__)) return g_code
static Blk*
blk(File* f, long id)
{
  for (auto& b : f->blocks)
    if (b.id == id) return &b;
  return nullptr;
}
static Set*
set_(File* f, int type, long id)
{
  for (auto& s : type == EX_NODE_SET ? f->nsets : f->ssets)
    if (s.id == id) return &s;
  return nullptr;
}
static void ident(int* m, int n) { for (int i = 0; i < n; ++i) m[i] = i + 1; }
extern "C" {
int
ex_open_int(const char* path, int mode, int* cw, int* iw, float* v, int)
{
  FAULT;
  auto it = F.find(path);
  if (it == F.end() || !it->second.exists) { bad("open of a file that does not exist"); return -1; }
  if (*cw != 8) return bad("open: word size");
  if (*iw == 0) *iw = 8;
  *v = 5.0f;
  it->second.open++;
  H.push_back(&it->second);
  return (int)H.size();
}
int
ex_create_int(const char* path, int, int* cw, int* iw, int)
{
  FAULT;
  File& f = F[path];
  f       = File();
  f.exists = true;
  f.open   = 1;
  if (*cw == 0) *cw = 8;
  if (*cw != 8) return bad("create: word size");
  if (*iw == 0) *iw = 8;
  H.push_back(&f);
  return (int)H.size();
}
int ex_close(int id) { FAULT; File* f = h(id); if (!f || f->open <= 0) return bad("close"); f->open--; H[id - 1] = nullptr; return 0; }
int ex_update(int id) { FAULT; return h(id) ? 0 : bad("update"); }
int
ex_get_init(int id, char* t, void_int* d, void_int* nn, void_int* ne, void_int* nb, void_int* nns, void_int* nss)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_init");
  strcpy(t, f->title.c_str());
  *(int*)d = f->dim; *(int*)nn = f->num_nodes; *(int*)ne = f->num_elem; *(int*)nb = (int)f->blocks.size();
  *(int*)nns = (int)f->nsets.size(); *(int*)nss = (int)f->ssets.size();
  return 0;
}
int
ex_put_init(int id, const char* t, int64_t d, int64_t nn, int64_t ne, int64_t nb, int64_t nns, int64_t nss)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("put_init");
  f->title = t; f->dim = (int)d; f->num_nodes = (int)nn; f->num_elem = (int)ne; f->num_blocks = (int)nb; f->num_nsets = (int)nns; f->num_ssets = (int)nss;
  return 0;
}
int
ex_get_coord(int id, void* x, void* y, void* z)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_coord");
  for (int i = 0; i < f->num_nodes; ++i) {
    ((double*)x)[i] = f->x[i];
    if (f->dim > 1) ((double*)y)[i] = f->y[i];
    if (f->dim > 2) ((double*)z)[i] = f->z[i];
  }
  return 0;
}
int
ex_put_coord(int id, const void* x, const void* y, const void* z)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("put_coord");
  int n = f->num_nodes;
  f->x.assign((const double*)x, (const double*)x + n);
  f->y.assign((const double*)y, (const double*)y + n);
  if (f->dim > 2) f->z.assign((const double*)z, (const double*)z + n);
  return 0;
}
int
ex_put_coord_names(int id, char** n)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("put_coord_names");
  for (int i = 0; i < f->dim; ++i) f->coord_names.push_back(n[i]);
  return 0;
}
int
ex_get_id_map(int id, ex_entity_type t, void_int* m)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_id_map");
  auto& v = t == EX_NODE_MAP ? f->node_map : f->elem_map;
  int   n = t == EX_NODE_MAP ? f->num_nodes : f->num_elem;
  if (v.empty()) ident((int*)m, n);
  for (size_t i = 0; i < v.size(); ++i) ((int*)m)[i] = v[i];
  return 0;
}
int
ex_put_id_map(int id, ex_entity_type t, const void_int* m)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("put_id_map");
  auto& v = t == EX_NODE_MAP ? f->node_map : f->elem_map;
  v.assign((const int*)m, (const int*)m + (t == EX_NODE_MAP ? f->num_nodes : f->num_elem));
  return 0;
}
int
ex_get_map_param(int id, int* nn, int* ne)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_map_param");
  *nn = (int)f->node_maps.size(); *ne = (int)f->elem_maps.size();
  return 0;
}
int
ex_get_name(int id, ex_entity_type t, ex_entity_id e, char* n)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_name");
  n[0] = 0;
  if (t == EX_NODE_MAP || t == EX_ELEM_MAP) {
    auto& v = t == EX_NODE_MAP ? f->node_maps : f->elem_maps;
    if (e < 1 || e > (long)v.size()) return bad("get_name: no such map");
    strcpy(n, v[e - 1].first.c_str());
    return 0;
  }
  if (t == EX_ELEM_BLOCK) {
    Blk* b = blk(f, e);
    if (!b) return bad("get_name: no such block");
    strcpy(n, b->name.c_str());
    return 0;
  }
  Set* s = set_(f, t, e);
  if (!s) return bad("get_name: no such set");
  strcpy(n, s->name.c_str());
  return 0;
}
int
ex_get_num_map(int id, ex_entity_type t, ex_entity_id e, void_int* m)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_num_map");
  auto& v = t == EX_NODE_MAP ? f->node_maps : f->elem_maps;
  if (e < 1 || e > (long)v.size()) return bad("get_num_map: no such map");
  for (size_t i = 0; i < v[e - 1].second.size(); ++i) ((int*)m)[i] = v[e - 1].second[i];
  return 0;
}
int
ex_get_ids(int id, ex_entity_type t, void_int* o)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("get_ids");
  int k = 0;
  if (t == EX_ELEM_BLOCK) for (auto& b : f->blocks) ((int*)o)[k++] = b.id;
  else for (auto& s : t == EX_NODE_SET ? f->nsets : f->ssets) ((int*)o)[k++] = s.id;
  return 0;
}
int
ex_get_set_param(int id, ex_entity_type t, ex_entity_id e, void_int* n, void_int* d)
{
  FAULT;
  File* f = h(id);
  Set*  s = f ? set_(f, t, e) : nullptr;
  if (!s) return bad("get_set_param");
  *(int*)n = (int)s->items.size(); *(int*)d = (int)s->factors.size();
  return 0;
}
int
ex_get_set(int id, ex_entity_type t, ex_entity_id e, void_int* l, void_int* x)
{
  FAULT;
  File* f = h(id);
  Set*  s = f ? set_(f, t, e) : nullptr;
  if (!s) return bad("get_set");
  for (size_t i = 0; i < s->items.size(); ++i) ((int*)l)[i] = s->items[i];
  if (x) for (size_t i = 0; i < s->extra.size(); ++i) ((int*)x)[i] = s->extra[i];
  return 0;
}
int
ex_get_set_dist_fact(int id, ex_entity_type t, ex_entity_id e, void* d)
{
  FAULT;
  File* f = h(id);
  Set*  s = f ? set_(f, t, e) : nullptr;
  if (!s) return bad("get_set_dist_fact");
  if (s->factors.empty()) return 1;  // the library warns when no factors are stored
  for (size_t i = 0; i < s->factors.size(); ++i) ((double*)d)[i] = s->factors[i];
  return 0;
}
int
ex_get_block(int id, ex_entity_type t, ex_entity_id e, char* type, void_int* n, void_int* np, void_int* ne, void_int* nf, void_int* na)
{
  FAULT;
  File* f = h(id);
  Blk*  b = f && t == EX_ELEM_BLOCK ? blk(f, e) : nullptr;
  if (!b) return bad("get_block");
  strcpy(type, b->nelem ? b->type.c_str() : "NULL");
  *(int*)n = b->nelem; *(int*)np = b->nelem ? b->npe : 0; *(int*)ne = 0; *(int*)nf = 0; *(int*)na = 0;
  return 0;
}
int
ex_put_block(int id, ex_entity_type t, ex_entity_id e, const char* type, int64_t n, int64_t np, int64_t, int64_t, int64_t)
{
  FAULT;
  File* f = h(id);
  if (!f || t != EX_ELEM_BLOCK || blk(f, e)) return bad("put_block");
  if ((int)f->blocks.size() >= f->num_blocks) return bad("put_block: more blocks than announced");
  Blk b;
  b.id = (int)e; b.type = type; b.nelem = (int)n; b.npe = (int)np;
  f->blocks.push_back(b);
  return 0;
}
int
ex_put_names(int id, ex_entity_type t, char** n)
{
  FAULT;
  File* f = h(id);
  if (!f || t != EX_ELEM_BLOCK) return bad("put_names");
  for (size_t i = 0; i < f->blocks.size(); ++i) f->blocks[i].name = n[i];
  return 0;
}
int
ex_get_conn(int id, ex_entity_type t, ex_entity_id e, void_int* c, void_int*, void_int*)
{
  FAULT;
  File* f = h(id);
  Blk*  b = f && t == EX_ELEM_BLOCK ? blk(f, e) : nullptr;
  if (!b) return bad("get_conn");
  for (size_t i = 0; i < b->conn.size(); ++i) ((int*)c)[i] = b->conn[i];
  return 0;
}
int
ex_put_conn(int id, ex_entity_type t, ex_entity_id e, const void_int* c, const void_int*, const void_int*)
{
  FAULT;
  File* f = h(id);
  Blk*  b = f && t == EX_ELEM_BLOCK ? blk(f, e) : nullptr;
  if (!b) return bad("put_conn");
  b->conn.assign((const int*)c, (const int*)c + b->nelem * b->npe);
  return 0;
}
int
ex_put_concat_sets(int id, ex_entity_type t, const struct ex_set_specs* s)
{
  FAULT;
  File* f = h(id);
  if (!f || t != EX_NODE_SET) return bad("put_concat_sets");
  for (int i = 0; i < f->num_nsets; ++i) {
    Set x;
    x.id    = ((const int*)s->sets_ids)[i];
    int n   = ((const int*)s->num_entries_per_set)[i], o = ((const int*)s->sets_entry_index)[i];
    int d   = ((const int*)s->num_dist_per_set)[i], p = ((const int*)s->sets_dist_index)[i];
    for (int k = 0; k < n; ++k) x.items.push_back(((const int*)s->sets_entry_list)[o + k]);
    for (int k = 0; k < d; ++k) x.factors.push_back(((const double*)s->sets_dist_fact)[p + k]);
    f->nsets.push_back(x);
  }
  return 0;
}
int ex_put_variable_param(int id, ex_entity_type t, int n) { FAULT; File* f = h(id); if (!f) return bad("put_variable_param"); f->var_count[t] = n; return 0; }
int
ex_put_variable_names(int id, ex_entity_type t, int n, char* names[])
{
  FAULT;
  File* f = h(id);
  if (!f || f->var_count[t] != n) return bad("put_variable_names");
  f->var_names[t].assign(names, names + n);
  return 0;
}
int ex_put_qa(int id, int, char* [][4]) { FAULT; return h(id) ? 0 : bad("put_qa"); }
int
ex_put_time(int id, int step, const void* t)
{
  FAULT;
  File* f = h(id);
  if (!f || step < 1) return bad("put_time");
  f->times[step] = *(const double*)t;
  return 0;
}
int
ex_put_var(int id, int step, ex_entity_type t, int var, ex_entity_id obj, int64_t n, const void* v)
{
  FAULT;
  File* f = h(id);
  if (!f) return bad("put_var");
  if (var < 1 || var > f->var_count[t]) return bad("put_var: no such variable");
  if (t == EX_NODAL && n != f->num_nodes) return bad("put_var: nodal count");
  if (t == EX_NODAL) obj = 1;
  if (t == EX_ELEM_BLOCK && (!blk(f, obj) || blk(f, obj)->nelem != n)) return bad("put_var: element count");
  f->writes++;
  f->vals[step][{(int)t, var, (int)obj}].assign((const double*)v, (const double*)v + n);
  return 0;
}
}
