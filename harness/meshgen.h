// Random mesh histories and an independent reference model of the octree.
#pragma once
#include "pbt.h"
#include "amr/AMRmesh.h"
#include "amr/LightOctree.h"
#include "utils/config/ConfigMap.h"
#include <array>
#include <unordered_map>

namespace mg {
using namespace dyablo;
using pbt::Case;

typedef std::array<uint32_t, 3> C3;

struct Oct
{
  uint32_t level;
  C3 c;
  int rank = 0;
  bool operator==(const Oct& o) const { return level == o.level && c == o.c; }
};
struct KeyHash
{
  size_t operator()(const std::array<uint32_t, 4>& k) const { return pbt::mix64(((uint64_t)k[0] << 54) ^ ((uint64_t)k[1] << 36) ^ ((uint64_t)k[2] << 18) ^ k[3]); }
};
inline std::array<uint32_t, 4> key(uint32_t l, const C3& c) { return {l, c[0], c[1], c[2]}; }
inline std::string str(const Oct& o)
{
  std::ostringstream s;
  s << "L" << o.level << "(" << o.c[0] << "," << o.c[1] << "," << o.c[2] << ")";
  return s.str();
}

struct Params
{
  int dim = 2;
  uint32_t lmin = 1, lmax = 3;
  C3 coarse{{2, 2, 1}};
  std::array<bool, 3> per{{false, false, false}};
  bool deep = false; // many levels, refined around one point only
  std::string str() const
  {
    std::ostringstream s;
    s << dim << "D L" << lmin << "-" << lmax << " coarse " << coarse[0] << "x" << coarse[1] << "x" << coarse[2] << " per " << per[0] << per[1] << per[2];
    return s.str();
  }
  uint32_t count(int axis, uint32_t level) const { return (axis == 2 && dim == 2) ? 1u : coarse[axis] << (level - lmin); }
};

// Morton order : interleave the coordinates of the lower corner at the finest level (x lowest bit)
inline uint64_t morton(const Params& p, const Oct& o)
{
  uint64_t r = 0;
  int sh = (int)p.lmax - (int)o.level;
  uint64_t x = (uint64_t)o.c[0] << sh, y = (uint64_t)o.c[1] << sh, z = (uint64_t)o.c[2] << sh;
  for (int b = 0; b < 20; b++)
  {
    if (p.dim == 3)
    {
      r |= ((x >> b) & 1) << (3 * b);
      r |= ((y >> b) & 1) << (3 * b + 1);
      r |= ((z >> b) & 1) << (3 * b + 2);
    }
    else
    {
      r |= ((x >> b) & 1) << (2 * b);
      r |= ((y >> b) & 1) << (2 * b + 1);
    }
  }
  return r;
}

// global set of leaves
struct Model
{
  Params p;
  std::vector<Oct> octs; // Morton order
  std::unordered_map<std::array<uint32_t, 4>, int, KeyHash> idx;

  void index()
  {
    idx.clear();
    idx.reserve(octs.size() * 2);
    for (size_t i = 0; i < octs.size(); i++) idx[key(octs[i].level, octs[i].c)] = (int)i;
  }
  void sort()
  {
    std::vector<std::pair<uint64_t, Oct>> v;
    v.reserve(octs.size());
    for (auto& o : octs) v.push_back({morton(p, o), o});
    std::sort(v.begin(), v.end(), [](const auto& a, const auto& b) { return a.first != b.first ? a.first < b.first : a.second.level < b.second.level; });
    for (size_t i = 0; i < v.size(); i++) octs[i] = v[i].second;
    index();
  }
  void init(const Params& pp)
  {
    p = pp;
    octs.clear();
    for (uint32_t z = 0; z < p.count(2, p.lmin); z++)
      for (uint32_t y = 0; y < p.count(1, p.lmin); y++)
        for (uint32_t x = 0; x < p.count(0, p.lmin); x++) octs.push_back(Oct{p.lmin, {{x, y, z}}, 0});
    sort();
  }
  int find(uint32_t l, const C3& c) const
  {
    auto it = idx.find(key(l, c));
    return it == idx.end() ? -1 : it->second;
  }
  // leaf covering logical cell (l,c) or an ancestor of it; -1 if that region is subdivided
  int find_cover(uint32_t l, C3 c) const
  {
    for (;;)
    {
      int i = find(l, c);
      if (i >= 0) return i;
      if (l == p.lmin) return -1;
      l--;
      for (auto& v : c) v >>= 1;
    }
  }
  // virtual neighbour of o at same level; false if outside of the domain
  bool shift(const Oct& o, const std::array<int, 3>& off, C3& out) const
  {
    for (int a = 0; a < 3; a++)
    {
      int64_t n = p.count(a, o.level);
      int64_t v = (int64_t)o.c[a] + off[a];
      if (v < 0 || v >= n)
      {
        if (!p.per[a]) return false;
        v = (v + n) % n;
      }
      out[a] = (uint32_t)v;
    }
    return true;
  }
  // leaves of the closed set touching o in direction off (brute-force recursive descent)
  void touching(const Oct& o, const std::array<int, 3>& off, std::vector<int>& res) const
  {
    res.clear();
    C3 c;
    if (!shift(o, off, c)) return;
    descend(o.level, c, off, res);
  }
  void descend(uint32_t l, const C3& c, const std::array<int, 3>& off, std::vector<int>& res) const
  {
    int i = find_cover(l, c);
    if (i >= 0) { res.push_back(i); return; }
    if (l >= p.lmax) return; // hole (reported by the tiling check)
    for (uint32_t z = 0; z < (p.dim == 3 ? 2u : 1u); z++)
      for (uint32_t y = 0; y < 2; y++)
        for (uint32_t x = 0; x < 2; x++)
        {
          uint32_t d[3] = {x, y, z};
          bool ok = true;
          for (int a = 0; a < p.dim; a++)
          {
            if (off[a] > 0 && d[a] != 0) ok = false;
            if (off[a] < 0 && d[a] != 1) ok = false;
          }
          if (ok) descend(l + 1, C3{{c[0] * 2 + x, c[1] * 2 + y, p.dim == 3 ? c[2] * 2 + z : 0}}, off, res);
        }
  }
  // corrected markers : least solution of the closure rules
  std::vector<int> close_markers(std::vector<int> m) const
  {
    std::vector<std::array<int, 3>> offs;
    for (int z = (p.dim == 3 ? -1 : 0); z <= (p.dim == 3 ? 1 : 0); z++)
      for (int y = -1; y <= 1; y++)
        for (int x = -1; x <= 1; x++)
          if (x || y || z) offs.push_back({x, y, z});
    bool ch = true;
    std::vector<int> nb;
    while (ch)
    {
      ch = false;
      for (size_t i = 0; i < octs.size(); i++)
      {
        const Oct& o = octs[i];
        int target = (int)o.level + m[i];
        if (m[i] == -1)
        {
          // every member of the family must end at the same coarser level
          bool ok = true;
          for (uint32_t z = 0; z < (p.dim == 3 ? 2u : 1u); z++)
            for (uint32_t y = 0; y < 2; y++)
              for (uint32_t x = 0; x < 2; x++)
              {
                C3 s{{(o.c[0] & ~1u) + x, (o.c[1] & ~1u) + y, p.dim == 3 ? (o.c[2] & ~1u) + z : 0}};
                int j = find(o.level, s);
                if (j < 0 || m[j] != -1) ok = false;
              }
          if (!ok) { m[i] = 0; ch = true; target = o.level; }
        }
        for (auto& off : offs)
        {
          touching(o, off, nb);
          for (int j : nb)
          {
            int t = (int)octs[j].level + m[j];
            if (target < t - 1) { target = t - 1; m[i] = target - (int)o.level; ch = true; }
          }
        }
      }
    }
    return m;
  }
  void apply(const std::vector<int>& m)
  {
    std::vector<Oct> n;
    for (size_t i = 0; i < octs.size(); i++)
    {
      const Oct& o = octs[i];
      if (m[i] == 0) n.push_back(o);
      else if (m[i] > 0)
      {
        for (uint32_t z = 0; z < (p.dim == 3 ? 2u : 1u); z++)
          for (uint32_t y = 0; y < 2; y++)
            for (uint32_t x = 0; x < 2; x++)
              n.push_back(Oct{o.level + 1, {{o.c[0] * 2 + x, o.c[1] * 2 + y, p.dim == 3 ? o.c[2] * 2 + z : 0}}, o.rank});
      }
      else if (o.c[0] % 2 == 0 && o.c[1] % 2 == 0 && o.c[2] % 2 == 0)
        n.push_back(Oct{o.level - 1, {{o.c[0] / 2, o.c[1] / 2, o.c[2] / 2}}, o.rank});
    }
    octs.swap(n);
    sort();
  }
  // position (unit cube) of corner and size
  std::array<double, 3> size(const Oct& o) const { return {1.0 / p.count(0, o.level), 1.0 / p.count(1, o.level), 1.0 / p.count(2, o.level)}; }
  std::array<double, 3> corner(const Oct& o) const
  {
    auto s = size(o);
    return {o.c[0] * s[0], o.c[1] * s[1], o.c[2] * s[2]};
  }
  // leaf containing a position of the unit cube
  int locate(const std::array<double, 3>& pos) const
  {
    C3 c;
    for (int a = 0; a < 3; a++)
    {
      uint32_t n = p.count(a, p.lmax);
      int64_t v = (int64_t)std::floor(pos[a] * n);
      if (v < 0) v = 0;
      if (v >= (int64_t)n) v = n - 1;
      c[a] = (uint32_t)v;
    }
    return find_cover(p.lmax, c);
  }
  int levels() const
  {
    std::set<uint32_t> s;
    for (auto& o : octs) s.insert(o.level);
    return (int)s.size();
  }
};

// ---- generators -----------------------------------------------------------------
struct GenOpt
{
  int dim = 0;             // 0 : both
  int max_coarse3 = 4, max_coarse2 = 8;
  int max_extra_levels = 3;
  bool allow_nonsquare = true;
  bool allow_periodic = true;
  bool force_periodic = false;
  size_t max_octs = 700;
  bool allow_deep = false;
  bool allow_tiny = true;  // one block at level 0, or fewer coarse blocks than processes
};

inline Params gen_params(Case& c, const GenOpt& o = GenOpt())
{
  Params p;
  p.dim = o.dim ? o.dim : (int)c.draw(2, 3);
  int np = pbt::mpi_size();
  bool nonsq = o.allow_nonsquare && c.coin(2, 5);
  uint32_t maxc = p.dim == 3 ? o.max_coarse3 : o.max_coarse2;
  uint32_t lm_max = p.dim == 3 ? 2 : 3;
  while ((1u << lm_max) > maxc) lm_max--;
  p.lmin = (uint32_t)c.draw(1, lm_max);
  bool tiny = o.allow_tiny && c.coin(1, 14);
  if (tiny) p.lmin = (uint32_t)c.draw(0, 1);
  uint32_t w = 1u << p.lmin;
  if (nonsq)
  {
    int big = (int)c.draw(0, p.dim - 1);
    for (int a = 0; a < p.dim; a++)
      p.coarse[a] = (uint32_t)(a == big ? c.draw(w / 2 + 1, w) : c.draw(1, w));
    if (p.dim == 2) p.coarse[2] = 1;
    // enough blocks for every process to own one
    while (!tiny && p.coarse[0] * p.coarse[1] * p.coarse[2] < (uint32_t)np)
    {
      bool grown = false;
      for (int a = 0; a < p.dim && !grown; a++)
        if (p.coarse[a] < w) { p.coarse[a]++; grown = true; }
      if (!grown) { p.lmin++; w *= 2; for (int a = 0; a < p.dim; a++) p.coarse[a] *= 2; }
    }
  }
  else
  {
    while (!tiny && (p.dim == 3 ? w * w * w : w * w) < (uint32_t)np) { p.lmin++; w *= 2; }
    p.coarse = {{w, w, p.dim == 3 ? w : 1u}};
  }
  int el = (int)c.pick<int>({2, 1, 3, 2, 0, 3});
  p.lmax = p.lmin + (uint32_t)std::min(el, o.max_extra_levels);
  if (o.allow_deep && c.coin(1, 10))
  {
    p.deep = true;
    p.lmax = std::min<uint32_t>(20, p.lmin + (uint32_t)c.draw(4, 17));
  }
  for (int a = 0; a < p.dim; a++) p.per[a] = o.force_periodic || (o.allow_periodic && c.coin());
  return p;
}

template <class Mesh = AMRmesh> std::shared_ptr<Mesh> make_mesh(const Params& p)
{
  Kokkos::Array<uint32_t, 3> cg = {p.coarse[0], p.coarse[1], p.coarse[2]};
  return std::make_shared<Mesh>(p.dim, p.dim, p.per, (uint8_t)p.lmin, (uint8_t)p.lmax, cg);
}

inline Oct read_oct(const Params& p, uint32_t level, const std::array<real_t, 3>& corner)
{
  Oct o;
  o.level = level;
  for (int a = 0; a < 3; a++)
  {
    if (a == 2 && p.dim == 2) { o.c[a] = 0; continue; }
    uint32_t n = (level >= p.lmin && level < 31) ? p.count(a, level) : 1;
    o.c[a] = (uint32_t)std::llround(corner[a] * n);
  }
  return o;
}
template <class Mesh> Oct local_oct(const Params& p, Mesh& m, uint32_t i) { return read_oct(p, m.getLevel(i), m.getCoordinates(i)); }
template <class Mesh> Oct ghost_oct(const Params& p, Mesh& m, uint32_t i) { return read_oct(p, m.getLevelGhost(i), m.getCoordinatesGhost(i)); }

// all blocks of all processes, in rank order (collective)
template <class Mesh> std::vector<Oct> gather(const Params& p, Mesh& m)
{
  uint32_t n = m.getNumOctants();
  std::vector<uint32_t> loc(4 * (size_t)n);
  for (uint32_t i = 0; i < n; i++)
  {
    Oct o = local_oct(p, m, i);
    loc[4 * i] = o.level;
    for (int a = 0; a < 3; a++) loc[4 * i + 1 + a] = o.c[a];
  }
  int np = pbt::mpi_size();
  std::vector<int> cnt(np), dis(np);
  int my = (int)loc.size();
  MPI_Allgather(&my, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
  int tot = 0;
  for (int r = 0; r < np; r++) { dis[r] = tot; tot += cnt[r]; }
  std::vector<uint32_t> all(tot);
  MPI_Allgatherv(loc.data(), my, MPI_UINT32_T, all.data(), cnt.data(), dis.data(), MPI_UINT32_T, MPI_COMM_WORLD);
  std::vector<Oct> res;
  for (int r = 0; r < np; r++)
    for (int k = dis[r]; k < dis[r] + cnt[r]; k += 4) res.push_back(Oct{all[k], {{all[k + 1], all[k + 2], all[k + 3]}}, r});
  return res;
}

// marker rules : a pure function of the block, never of its local index
struct MarkRule
{
  int kind = 0;
  uint64_t salt = 0;
  int pr = 0, pc = 0; // percent
  double cx[3] = {0, 0, 0}, r = 0;
  int corner[3] = {0, 0, 0};
  std::string str() const
  {
    static const char* n[] = {"random", "sphere", "families", "corner", "all+", "all-", "one", "point"};
    return n[kind];
  }
};
inline MarkRule gen_rule(Case& c)
{
  MarkRule r;
  r.kind = (int)c.pick<int>({1, 0, 3, 7, 6, 2, 4, 5, 0, 1, 2});
  r.salt = c.salt();
  r.pr = (int)c.pick<int>({5, 20, 50, 80});
  r.pc = (int)c.pick<int>({10, 50, 90, 100});
  for (int a = 0; a < 3; a++) r.cx[a] = c.real(0, 1, 16);
  r.r = c.real(0.05, 0.6, 20);
  for (int a = 0; a < 3; a++) r.corner[a] = (int)c.draw(0, 1);
  return r;
}
inline int mark(const MarkRule& r, const Params& p, const Oct& o, bool allow_refine)
{
  uint64_t h = pbt::hash_combine(r.salt, KeyHash()(key(o.level, o.c)));
  uint64_t hp = pbt::hash_combine(r.salt + 77, KeyHash()(key(o.level, C3{{o.c[0] / 2, o.c[1] / 2, o.c[2] / 2}})));
  int m = 0;
  switch (r.kind)
  {
    case 0:
      if ((int)(h % 100) < r.pr) m = 1;
      else if ((int)((h >> 32) % 100) < r.pc) m = -1;
      break;
    case 1:
    {
      double d = 0;
      for (int a = 0; a < p.dim; a++)
      {
        double n = p.count(a, o.level);
        double x = std::fabs((o.c[a] + 0.5) / n - r.cx[a]);
        if (p.per[a]) x = std::min(x, 1 - x);
        d += x * x;
      }
      m = std::sqrt(d) < r.r ? 1 : -1;
      break;
    }
    case 2:
      if ((int)(hp % 100) < r.pc) m = -1;
      else if ((int)(h % 100) < r.pr) m = 1;
      break;
    case 3:
    {
      bool at = true;
      for (int a = 0; a < p.dim; a++) at = at && o.c[a] == (r.corner[a] ? p.count(a, o.level) - 1 : 0);
      m = at ? 1 : ((int)(hp % 100) < r.pc / 2 ? -1 : 0);
      break;
    }
    case 4: m = 1; break;
    case 5: m = -1; break;
    case 6:
      m = (h % 29 == 0) ? 1 : 0;
      break;
    case 7:
    {
      bool in = true;
      for (int a = 0; a < p.dim; a++)
      {
        double n = p.count(a, o.level);
        in = in && std::floor(r.cx[a] * n) == o.c[a];
      }
      m = in ? 1 : 0;
      break;
    }
  }
  if (m > 0 && (o.level >= p.lmax || !allow_refine)) m = 0;
  if (m < 0 && o.level <= p.lmin) m = 0;
  return m;
}
template <class Mesh> std::vector<int> local_marks(const MarkRule& r, const Params& p, Mesh& m, bool allow_refine)
{
  std::vector<int> v(m.getNumOctants());
  for (uint32_t i = 0; i < v.size(); i++) v[i] = mark(r, p, local_oct(p, m, i), allow_refine);
  return v;
}
template <class Mesh> void set_marks(Mesh& m, const std::vector<int>& v, bool bulk)
{
  if (bulk)
  {
    Kokkos::View<int*> mk("markers", v.size());
    for (size_t i = 0; i < v.size(); i++) mk(i) = v[i];
    m.setMarkers(mk);
  }
  else
    for (uint32_t i = 0; i < v.size(); i++)
      if (v[i]) m.setMarker(i, v[i]);
}
inline bool may_refine(const Params& p, uint64_t total, const GenOpt& o)
{
  return total * (p.dim == 3 ? 8 : 4) <= o.max_octs * 3;
}
inline bool room(uint64_t total, const GenOpt& o) { return total <= o.max_octs; }

// rule of the initial chain of refinements of a deep mesh
inline MarkRule deep_rule(Case& c)
{
  MarkRule r;
  r.kind = 7;
  for (int a = 0; a < 3; a++) r.cx[a] = c.pick<double>({0.0, 0.3, 0.999999, 0.5, 0.499999, 0.72});
  return r;
}

// load balance, unless there are fewer octants than processes (which it refuses: "Process would be empty")
template <class Mesh> void lb(Mesh& m, uint8_t level)
{
  if (m.getGlobalNumOctants() >= (uint64_t)pbt::mpi_size()) m.loadBalance(level);
}

// the chain of refinements of a deep mesh (collective)
template <class Mesh> void deepen(Case& c, Mesh& m, const Params& p)
{
  if (!p.deep) return;
  MarkRule r = deep_rule(c);
  c.label("deep");
  for (uint32_t l = p.lmin; l < p.lmax; l++)
  {
    set_marks(m, local_marks(r, p, m, true), true);
    m.adapt();
  }
}

// a random adapted and balanced mesh (collective); used by the drivers that need "any mesh"
inline std::shared_ptr<AMRmesh> gen_mesh(Case& c, Params& p, const GenOpt& o = GenOpt(), int max_steps = 4)
{
  p = gen_params(c, o);
  auto m = make_mesh(p);
  deepen(c, *m, p);
  if (p.deep) max_steps = std::min(max_steps, 2);
  int steps = (int)c.draw(0, max_steps);
  for (int s = 0; s < steps; s++)
  {
    MarkRule r = gen_rule(c);
    if (r.kind == 5 && s == 0) r.kind = 1;
    bool ar = room(m->getGlobalNumOctants(), o) && (r.kind != 4 || may_refine(p, m->getGlobalNumOctants(), o));
    set_marks(*m, local_marks(r, p, *m, ar), true);
    m->adapt();
    if (m->getGlobalNumOctants() >= (uint64_t)pbt::mpi_size() && c.draw(0, 3) != 3) m->loadBalance((uint8_t)c.draw(0, 2));
  }
  lb(*m, 0);
  return m;
}

} // namespace mg
