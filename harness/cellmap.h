// global cells of an adapted mesh, addressed by level and integer position
#pragma once
#include "common.h"

namespace hc {
typedef std::array<double, 3> P3;
typedef std::array<int64_t, 4> CK; // level, global cell coordinates at that level
struct CKHash
{
  size_t operator()(const CK& k) const { return pbt::hash_combine(pbt::hash_combine(k[0] * 1315423911u + k[1], k[2]), k[3]); }
};
struct Cells
{
  const Grid& g;
  mg::Model mod;
  Cells(const Grid& g, AMRmesh& m) : g(g)
  {
    mod.p = g.p;
    mod.octs = mg::gather(g.p, m);
    mod.index();
  }
  int64_t n(int a, int64_t l) const { return (int64_t)(a == 2 && g.p.dim == 2 ? 1 : g.p.count(a, (uint32_t)l)) * g.b[a]; }
  double size(int a, int64_t l) const { return g.L(a) / n(a, l); }
  double volume(int64_t l) const { return size(0, l) * size(1, l) * (g.p.dim == 3 ? size(2, l) : 1); }
  bool leaf(const CK& k) const
  {
    if (k[0] < (int64_t)g.p.lmin || k[0] > (int64_t)g.p.lmax) return false;
    return mod.find((uint32_t)k[0], mg::C3{{(uint32_t)(k[1] / g.b[0]), (uint32_t)(k[2] / g.b[1]), (uint32_t)(k[3] / g.b[2])}}) >= 0;
  }
  // cell holding a position
  CK home(const P3& p) const
  {
    for (int64_t l = g.p.lmin; l <= (int64_t)g.p.lmax; l++)
    {
      CK k{l, 0, 0, 0};
      for (int a = 0; a < 3; a++)
      {
        int64_t v = (int64_t)std::floor((p[a] - g.lo[a]) / g.L(a) * n(a, l));
        k[a + 1] = std::max<int64_t>(0, std::min(v, n(a, l) - 1));
      }
      if (leaf(k)) return k;
    }
    return CK{-1, 0, 0, 0};
  }
  // cells that share a cloud of the size of the home cell ; 8 shares
  struct Share { double w; std::vector<CK> cells; }; // more than one cell : any distribution over them
  void cloud(const P3& p, const CK& h, std::vector<Share>& out) const
  {
    out.clear();
    int dir[3];
    double vo[3];
    for (int a = 0; a < 3; a++)
    {
      double s = size(a, h[0]);
      double q = (p[a] - (g.lo[a] + (h[a + 1] + 0.5) * s)) / s;
      dir[a] = q >= 0 ? 1 : -1;
      vo[a] = std::fabs(q);
    }
    for (int m = 0; m < 8; m++)
    {
      Share sh;
      sh.w = 1;
      CK k = h;
      for (int a = 0; a < 3; a++)
      {
        bool o = m >> a & 1;
        sh.w *= o ? vo[a] : 1 - vo[a];
        if (o) k[a + 1] = (k[a + 1] + dir[a] + n(a, h[0])) % n(a, h[0]);
      }
      CK up{k[0] - 1, k[1] / 2, k[2] / 2, k[3] / 2};
      if (leaf(k)) sh.cells.push_back(k);
      else if (leaf(up)) sh.cells.push_back(up);
      else
        for (int q = 0; q < (g.p.dim == 3 ? 8 : 4); q++) sh.cells.push_back(CK{k[0] + 1, 2 * k[1] + (q & 1), 2 * k[2] + (q >> 1 & 1), 2 * k[3] + (q >> 2 & 1)});
      out.push_back(sh);
    }
  }
};
// values of one field of a snapshot by cell
inline CK cell_key(const Grid& g, const mg::Oct& o, uint32_t i, uint32_t j, uint32_t k)
{
  return CK{o.level, (int64_t)o.c[0] * g.b[0] + i, (int64_t)o.c[1] * g.b[1] + j, (int64_t)o.c[2] * g.b[2] + k};
}
// neighbour cells across a face : empty = outside of the domain, 1 = same or larger, several = smaller ones that touch the face
inline void face_cells(const Cells& c, const CK& k, int axis, int dir, std::vector<CK>& out)
{
  out.clear();
  CK n = k;
  n[axis + 1] += dir;
  int64_t cnt = c.n(axis, k[0]);
  if (n[axis + 1] < 0 || n[axis + 1] >= cnt)
  {
    if (!c.g.p.per[axis]) return;
    n[axis + 1] = (n[axis + 1] + cnt) % cnt;
  }
  CK up{n[0] - 1, n[1] / 2, n[2] / 2, c.g.p.dim == 3 ? n[3] / 2 : n[3]};
  if (c.leaf(n)) out.push_back(n);
  else if (c.leaf(up)) out.push_back(up);
  else
    for (int q = 0; q < (c.g.p.dim == 3 ? 8 : 4); q++)
    {
      int d[3] = {q & 1, q >> 1 & 1, q >> 2 & 1};
      if (d[axis] != (dir > 0 ? 0 : 1)) continue;
      out.push_back(CK{n[0] + 1, 2 * n[1] + d[0], 2 * n[2] + d[1], c.g.p.dim == 3 ? 2 * n[3] + d[2] : n[3]});
    }
}
} // namespace hc
