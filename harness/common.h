// helpers shared by drivers : configuration text, cell data that depends only on geometry
#pragma once
#include "meshgen.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"

namespace hc {
using namespace dyablo;
using pbt::Case;

struct Grid
{
  mg::Params p;
  uint32_t b[3] = {2, 2, 1};
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  uint32_t group = 64;
  std::string str() const
  {
    std::ostringstream s;
    s << p.str() << " b" << b[0] << "x" << b[1] << "x" << b[2];
    return s.str();
  }
  double L(int a) const { return hi[a] - lo[a]; }
};

typedef std::map<std::string, std::map<std::string, std::string>> Ini;
inline std::string to_text(const Ini& ini)
{
  std::string s;
  for (auto& sec : ini)
  {
    s += "[" + sec.first + "]\n";
    for (auto& kv : sec.second) s += kv.first + "=" + kv.second + "\n";
  }
  return s;
}
inline std::string num(double v)
{
  char b[64];
  snprintf(b, 64, "%.17g", v);
  return b;
}
inline Ini base_ini(const Grid& g)
{
  Ini i;
  const char* ax = "xyz";
  i["mesh"]["ndim"] = std::to_string(g.p.dim);
  for (int a = 0; a < 3; a++)
  {
    std::string n(1, ax[a]);
    i["amr"]["b" + n] = std::to_string(g.b[a]);
    i["mesh"][n + "min"] = num(g.lo[a]);
    i["mesh"][n + "max"] = num(g.hi[a]);
    i["amr"]["coarse_oct_resolution_" + n] = std::to_string(g.p.coarse[a]);
    std::string bc = g.p.per[a] ? "periodic" : "absorbing";
    i["mesh"]["boundary_type_" + n + "min"] = bc;
    i["mesh"]["boundary_type_" + n + "max"] = bc;
  }
  i["amr"]["level_min"] = std::to_string(g.p.lmin);
  i["amr"]["level_max"] = std::to_string(g.p.lmax);
  i["amr"]["nbOctsPerGroup"] = std::to_string(g.group);
  i["amr"]["use_block_data"] = "yes";
  return i;
}

// block sizes, physical box
inline void gen_geometry(Case& c, Grid& g, bool even_blocks, bool simple_box = false, int max_b = 4)
{
  for (int a = 0; a < 3; a++)
  {
    if (a == 2 && g.p.dim == 2) { g.b[2] = 1; continue; }
    if (even_blocks) g.b[a] = (uint32_t)c.pick<int>(max_b >= 6 ? std::vector<int>{2, 4, 6} : std::vector<int>{2, 4, 2});
    else g.b[a] = (uint32_t)c.draw(1, max_b);
  }
  g.group = (uint32_t)c.pick<int>({64, 1, 2, 3, 7, 1024});
  for (int a = 0; a < 3; a++)
  {
    int k = simple_box ? 0 : (int)c.draw(0, 4);
    static const double lo[5] = {0, -1, 0.3, -7.25, 100}, hi[5] = {1, 1, 1.7, -3.1, 103};
    g.lo[a] = lo[k];
    g.hi[a] = hi[k];
  }
}

// cell identity independent of the distribution
inline uint64_t cell_hash(const std::string& name, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k)
{
  uint64_t h = pbt::hash_str(name);
  h = pbt::hash_combine(h, mg::KeyHash()(mg::key(o.level, o.c)));
  return pbt::hash_combine(h, ((uint64_t)i << 32) ^ (j << 16) ^ k);
}
inline double cell_value(const std::string& name, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k) { return 2 * pbt::u01(cell_hash(name, o, i, j, k)) - 1; }

inline ForeachCell::CellIndex make_cell(const Grid& g, uint32_t iOct, bool ghost, uint32_t i, uint32_t j, uint32_t k)
{
  return ForeachCell::CellIndex{{iOct, ghost}, i, j, k, g.b[0], g.b[1], g.b[2], ForeachCell::CellIndex::LOCAL_TO_BLOCK};
}
template <class F> void each_cell(const Grid& g, const F& f)
{
  for (uint32_t k = 0; k < g.b[2]; k++)
    for (uint32_t j = 0; j < g.b[1]; j++)
      for (uint32_t i = 0; i < g.b[0]; i++) f(i, j, k);
}
inline UserData::FieldAccessor accessor(const UserData& U, const std::vector<std::string>& names)
{
  std::vector<UserData::FieldAccessor_FieldInfo> v;
  int n = 0;
  for (auto& s : names) v.push_back({s, n++});
  return U.getAccessor(v);
}
// fill owned cells of a field from a function (oct, i, j, k)
template <class F> void fill(const Grid& g, AMRmesh& m, const UserData& U, const std::string& name, const F& f)
{
  auto acc = accessor(U, {name});
  for (uint32_t o = 0; o < m.getNumOctants(); o++)
  {
    mg::Oct oc = mg::local_oct(g.p, m, o);
    each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { acc.at_ivar(make_cell(g, o, false, i, j, k), 0) = f(oc, i, j, k); });
  }
}
// all values of a field of every process, blocks in global order (collective)
struct Snapshot
{
  std::vector<mg::Oct> octs;
  std::vector<std::string> names;
  size_t cells = 0;
  std::vector<double> v; // [oct][name][cell]
  double at(size_t o, size_t n, size_t cell) const { return v[(o * names.size() + n) * cells + cell]; }
};
inline std::vector<double> gatherv(const std::vector<double>& loc)
{
  int np = pbt::mpi_size(), my = (int)loc.size();
  std::vector<int> cnt(np), dis(np);
  MPI_Allgather(&my, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int tot = 0;
  for (int r = 0; r < np; r++) { dis[r] = tot; tot += cnt[r]; }
  std::vector<double> all(tot);
  MPI_Allgatherv(loc.data(), my, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
  return all;
}
inline Snapshot snapshot(const Grid& g, AMRmesh& m, const UserData& U, const std::vector<std::string>& names)
{
  Snapshot s;
  s.names = names;
  s.cells = (size_t)g.b[0] * g.b[1] * g.b[2];
  s.octs = mg::gather(g.p, m);
  std::vector<double> loc;
  auto acc = accessor(U, names);
  for (uint32_t o = 0; o < m.getNumOctants(); o++)
    for (size_t n = 0; n < names.size(); n++)
      each_cell(g, [&](uint32_t i, uint32_t j, uint32_t k) { loc.push_back(acc.at_ivar(make_cell(g, o, false, i, j, k), (int)n)); });
  s.v = gatherv(loc);
  return s;
}
inline double cell_volume(const Grid& g, const mg::Oct& o)
{
  double v = 1;
  for (int a = 0; a < g.p.dim; a++) v *= g.L(a) / g.p.count(a, o.level) / g.b[a];
  return v;
}
inline std::array<double, 3> cell_size(const Grid& g, const mg::Oct& o)
{
  std::array<double, 3> s;
  for (int a = 0; a < 3; a++) s[a] = g.L(a) / ((a == 2 && g.p.dim == 2) ? 1 : g.p.count(a, o.level)) / g.b[a];
  return s;
}
inline std::array<double, 3> cell_center(const Grid& g, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k)
{
  auto s = cell_size(g, o);
  uint32_t ix[3] = {i, j, k};
  std::array<double, 3> r;
  for (int a = 0; a < 3; a++) r[a] = g.lo[a] + (o.c[a] * (double)g.b[a] + ix[a] + 0.5) * s[a];
  if (g.p.dim == 2) r[2] = 0;
  return r;
}

} // namespace hc
